//! The harness's own picture of an SVD device, kept apart from the types under test: keywords are
//! the strings of the CMSIS-SVD schema, and every field is copied across by hand in `lift` (from
//! the code's structures) and `lower` (to them).

use svd_parser::svd;
use svd::ValidateLevel::Disabled;

pub type Kw = &'static str;
pub const ACCESS: &[Kw] = &["read-only", "read-write", "write-only", "writeOnce", "read-writeOnce"];
pub const PROT: &[Kw] = &["s", "n", "p"];
pub const USAGE: &[Kw] = &["read", "write", "read-write"];
pub const ABUSAGE: &[Kw] = &["registers", "buffer", "reserved"];
pub const ENDIAN: &[Kw] = &["little", "big", "selectable", "other"];
pub const MWV: &[Kw] = &[
    "oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear",
    "set", "modify",
];
pub const RA: &[Kw] = &["clear", "set", "modify", "modifyExternal"];
pub const DTYPE: &[Kw] = &[
    "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t",
    "uint8_t *", "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *",
    "int64_t *",
];

pub const XS: &str = "http://www.w3.org/2001/XMLSchema-instance";
pub const LOC: &str = "CMSIS-SVD_Schema_1_1.xsd";

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Props {
    pub size: Option<u32>,
    pub access: Option<Kw>,
    pub prot: Option<Kw>,
    pub rval: Option<u64>,
    pub rmask: Option<u64>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ev {
    pub name: String,
    pub desc: Option<String>,
    pub value: Option<u64>,
    pub is_default: Option<bool>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Evs {
    pub name: Option<String>,
    pub usage: Option<Kw>,
    pub derived: Option<String>,
    pub values: Vec<Ev>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Wc {
    AsRead(bool),
    UseEv(bool),
    Range(u64, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Brt {
    #[default]
    Br,
    Ow,
    Ml,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Dai {
    pub hdr: Option<String>,
    pub values: Vec<Ev>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Dim {
    pub dim: u32,
    pub inc: u32,
    pub index: Option<Vec<String>>,
    pub name: Option<String>,
    pub dai: Option<Dai>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Field {
    pub name: String,
    pub desc: Option<String>,
    pub off: u32,
    pub width: u32,
    pub brt: Brt,
    pub access: Option<Kw>,
    pub mwv: Option<Kw>,
    pub wc: Option<Wc>,
    pub ra: Option<Kw>,
    pub evs: Vec<Evs>,
    pub derived: Option<String>,
    pub dim: Option<Dim>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Reg {
    pub name: String,
    pub display: Option<String>,
    pub desc: Option<String>,
    pub alt_group: Option<String>,
    pub alt_reg: Option<String>,
    pub off: u32,
    pub props: Props,
    pub dtype: Option<Kw>,
    pub mwv: Option<Kw>,
    pub wc: Option<Wc>,
    pub ra: Option<Kw>,
    pub fields: Option<Vec<Field>>,
    pub derived: Option<String>,
    pub dim: Option<Dim>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Clu {
    pub name: String,
    pub desc: Option<String>,
    pub alt: Option<String>,
    pub hdr: Option<String>,
    pub off: u32,
    pub props: Props,
    pub children: Vec<Rc>,
    pub derived: Option<String>,
    pub dim: Option<Dim>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
#[allow(clippy::large_enum_variant)]
pub enum Rc {
    R(Reg),
    C(Clu),
}
impl Rc {
    pub fn name(&self) -> &str {
        match self {
            Rc::R(r) => &r.name,
            Rc::C(c) => &c.name,
        }
    }
    pub fn off(&self) -> u32 {
        match self {
            Rc::R(r) => r.off,
            Rc::C(c) => c.off,
        }
    }
    pub fn derived(&self) -> &Option<String> {
        match self {
            Rc::R(r) => &r.derived,
            Rc::C(c) => &c.derived,
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ab {
    pub off: u32,
    pub size: u32,
    pub usage: Kw,
    pub prot: Option<Kw>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Int {
    pub name: String,
    pub desc: Option<String>,
    pub value: u32,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Per {
    pub name: String,
    pub display: Option<String>,
    pub version: Option<String>,
    pub desc: Option<String>,
    pub alt: Option<String>,
    pub group: Option<String>,
    pub prepend: Option<String>,
    pub append: Option<String>,
    pub hdr: Option<String>,
    pub base: u64,
    pub props: Props,
    pub abs: Option<Vec<Ab>>,
    pub ints: Vec<Int>,
    pub regs: Option<Vec<Rc>>,
    pub derived: Option<String>,
    pub dim: Option<Dim>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cpu {
    pub name: String,
    pub revision: String,
    pub endian: Kw,
    pub mpu: bool,
    pub fpu: bool,
    pub fpu_dp: Option<bool>,
    pub dsp: Option<bool>,
    pub icache: Option<bool>,
    pub dcache: Option<bool>,
    pub itcm: Option<bool>,
    pub dtcm: Option<bool>,
    pub vtor: Option<bool>,
    pub nvic: u32,
    pub systick: bool,
    pub nint: Option<u32>,
    pub sau: Option<u32>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Dev {
    pub vendor: Option<String>,
    pub vendor_id: Option<String>,
    pub name: String,
    pub series: Option<String>,
    pub version: String,
    pub desc: String,
    pub license: Option<String>,
    pub cpu: Option<Cpu>,
    pub hsf: Option<String>,
    pub hdp: Option<String>,
    pub aub: u32,
    pub width: u32,
    pub props: Props,
    pub pers: Vec<Per>,
    pub xs: String,
    pub loc: String,
    pub schema: String,
}

// ---------------------------------------------------------------- keywords

macro_rules! kw {
    ($to:ident, $from:ident, $t:ty, $($v:pat => $e:expr, $s:literal;)*) => {
        pub fn $to(x: $t) -> Kw { match x { $($v => $s,)* } }
        pub fn $from(s: &str) -> $t { match s { $($s => $e,)* _ => panic!("keyword {s}") } }
    };
}
use svd::*;
kw!(access_s, access_v, Access,
    Access::ReadOnly => Access::ReadOnly, "read-only"; Access::ReadWrite => Access::ReadWrite, "read-write";
    Access::WriteOnly => Access::WriteOnly, "write-only"; Access::WriteOnce => Access::WriteOnce, "writeOnce";
    Access::ReadWriteOnce => Access::ReadWriteOnce, "read-writeOnce";);
kw!(prot_s, prot_v, Protection,
    Protection::Secure => Protection::Secure, "s"; Protection::NonSecure => Protection::NonSecure, "n";
    Protection::Privileged => Protection::Privileged, "p";);
kw!(usage_s, usage_v, Usage,
    Usage::Read => Usage::Read, "read"; Usage::Write => Usage::Write, "write";
    Usage::ReadWrite => Usage::ReadWrite, "read-write";);
kw!(abusage_s, abusage_v, AddressBlockUsage,
    AddressBlockUsage::Registers => AddressBlockUsage::Registers, "registers";
    AddressBlockUsage::Buffer => AddressBlockUsage::Buffer, "buffer";
    AddressBlockUsage::Reserved => AddressBlockUsage::Reserved, "reserved";);
kw!(endian_s, endian_v, Endian,
    Endian::Little => Endian::Little, "little"; Endian::Big => Endian::Big, "big";
    Endian::Selectable => Endian::Selectable, "selectable"; Endian::Other => Endian::Other, "other";);
kw!(mwv_s, mwv_v, ModifiedWriteValues,
    ModifiedWriteValues::OneToClear => ModifiedWriteValues::OneToClear, "oneToClear";
    ModifiedWriteValues::OneToSet => ModifiedWriteValues::OneToSet, "oneToSet";
    ModifiedWriteValues::OneToToggle => ModifiedWriteValues::OneToToggle, "oneToToggle";
    ModifiedWriteValues::ZeroToClear => ModifiedWriteValues::ZeroToClear, "zeroToClear";
    ModifiedWriteValues::ZeroToSet => ModifiedWriteValues::ZeroToSet, "zeroToSet";
    ModifiedWriteValues::ZeroToToggle => ModifiedWriteValues::ZeroToToggle, "zeroToToggle";
    ModifiedWriteValues::Clear => ModifiedWriteValues::Clear, "clear";
    ModifiedWriteValues::Set => ModifiedWriteValues::Set, "set";
    ModifiedWriteValues::Modify => ModifiedWriteValues::Modify, "modify";);
kw!(ra_s, ra_v, ReadAction,
    ReadAction::Clear => ReadAction::Clear, "clear"; ReadAction::Set => ReadAction::Set, "set";
    ReadAction::Modify => ReadAction::Modify, "modify";
    ReadAction::ModifyExternal => ReadAction::ModifyExternal, "modifyExternal";);
kw!(dtype_s, dtype_v, DataType,
    DataType::U8 => DataType::U8, "uint8_t"; DataType::U16 => DataType::U16, "uint16_t";
    DataType::U32 => DataType::U32, "uint32_t"; DataType::U64 => DataType::U64, "uint64_t";
    DataType::I8 => DataType::I8, "int8_t"; DataType::I16 => DataType::I16, "int16_t";
    DataType::I32 => DataType::I32, "int32_t"; DataType::I64 => DataType::I64, "int64_t";
    DataType::U8Ptr => DataType::U8Ptr, "uint8_t *"; DataType::U16Ptr => DataType::U16Ptr, "uint16_t *";
    DataType::U32Ptr => DataType::U32Ptr, "uint32_t *"; DataType::U64Ptr => DataType::U64Ptr, "uint64_t *";
    DataType::I8Ptr => DataType::I8Ptr, "int8_t *"; DataType::I16Ptr => DataType::I16Ptr, "int16_t *";
    DataType::I32Ptr => DataType::I32Ptr, "int32_t *"; DataType::I64Ptr => DataType::I64Ptr, "int64_t *";);

// ---------------------------------------------------------------- lift: code -> model

pub fn lift_props(p: &svd::RegisterProperties) -> Props {
    Props {
        size: p.size,
        access: p.access.map(access_s),
        prot: p.protection.map(prot_s),
        rval: p.reset_value,
        rmask: p.reset_mask,
    }
}
pub fn lift_ev(e: &svd::EnumeratedValue) -> Ev {
    Ev {
        name: e.name.clone(),
        desc: e.description.clone(),
        value: e.value,
        is_default: e.is_default,
    }
}
pub fn lift_evs(e: &svd::EnumeratedValues) -> Evs {
    Evs {
        name: e.name.clone(),
        usage: e.usage.map(usage_s),
        derived: e.derived_from.clone(),
        values: e.values.iter().map(lift_ev).collect(),
    }
}
pub fn lift_wc(w: &svd::WriteConstraint) -> Wc {
    match w {
        svd::WriteConstraint::WriteAsRead(b) => Wc::AsRead(*b),
        svd::WriteConstraint::UseEnumeratedValues(b) => Wc::UseEv(*b),
        svd::WriteConstraint::Range(r) => Wc::Range(r.min, r.max),
    }
}
pub fn lift_dim(d: &svd::DimElement) -> Dim {
    Dim {
        dim: d.dim,
        inc: d.dim_increment,
        index: d.dim_index.clone(),
        name: d.dim_name.clone(),
        dai: d.dim_array_index.as_ref().map(|a| Dai {
            hdr: a.header_enum_name.clone(),
            values: a.values.iter().map(lift_ev).collect(),
        }),
    }
}
fn dim_of<T>(m: &svd::MaybeArray<T>) -> Option<Dim> {
    match m {
        svd::MaybeArray::Single(_) => None,
        svd::MaybeArray::Array(_, d) => Some(lift_dim(d)),
    }
}
pub fn lift_field(m: &svd::Field) -> Field {
    let f: &svd::FieldInfo = m;
    Field {
        name: f.name.clone(),
        desc: f.description.clone(),
        off: f.bit_range.offset,
        width: f.bit_range.width,
        brt: match f.bit_range.range_type {
            svd::BitRangeType::BitRange => Brt::Br,
            svd::BitRangeType::OffsetWidth => Brt::Ow,
            svd::BitRangeType::MsbLsb => Brt::Ml,
        },
        access: f.access.map(access_s),
        mwv: f.modified_write_values.map(mwv_s),
        wc: f.write_constraint.as_ref().map(lift_wc),
        ra: f.read_action.map(ra_s),
        evs: f.enumerated_values.iter().map(lift_evs).collect(),
        derived: f.derived_from.clone(),
        dim: dim_of(m),
    }
}
pub fn lift_reg(m: &svd::Register) -> Reg {
    let r: &svd::RegisterInfo = m;
    Reg {
        name: r.name.clone(),
        display: r.display_name.clone(),
        desc: r.description.clone(),
        alt_group: r.alternate_group.clone(),
        alt_reg: r.alternate_register.clone(),
        off: r.address_offset,
        props: lift_props(&r.properties),
        dtype: r.datatype.map(dtype_s),
        mwv: r.modified_write_values.map(mwv_s),
        wc: r.write_constraint.as_ref().map(lift_wc),
        ra: r.read_action.map(ra_s),
        fields: r.fields.as_ref().map(|v| v.iter().map(lift_field).collect()),
        derived: r.derived_from.clone(),
        dim: dim_of(m),
    }
}
pub fn lift_clu(m: &svd::Cluster) -> Clu {
    let c: &svd::ClusterInfo = m;
    Clu {
        name: c.name.clone(),
        desc: c.description.clone(),
        alt: c.alternate_cluster.clone(),
        hdr: c.header_struct_name.clone(),
        off: c.address_offset,
        props: lift_props(&c.default_register_properties),
        children: c.children.iter().map(lift_rc).collect(),
        derived: c.derived_from.clone(),
        dim: dim_of(m),
    }
}
pub fn lift_rc(m: &svd::RegisterCluster) -> Rc {
    match m {
        svd::RegisterCluster::Register(r) => Rc::R(lift_reg(r)),
        svd::RegisterCluster::Cluster(c) => Rc::C(lift_clu(c)),
    }
}
pub fn lift_int(i: &svd::Interrupt) -> Int {
    Int {
        name: i.name.clone(),
        desc: i.description.clone(),
        value: i.value,
    }
}
pub fn lift_ab(a: &svd::AddressBlock) -> Ab {
    Ab {
        off: a.offset,
        size: a.size,
        usage: abusage_s(a.usage),
        prot: a.protection.map(prot_s),
    }
}
pub fn lift_per(m: &svd::Peripheral) -> Per {
    let p: &svd::PeripheralInfo = m;
    Per {
        name: p.name.clone(),
        display: p.display_name.clone(),
        version: p.version.clone(),
        desc: p.description.clone(),
        alt: p.alternate_peripheral.clone(),
        group: p.group_name.clone(),
        prepend: p.prepend_to_name.clone(),
        append: p.append_to_name.clone(),
        hdr: p.header_struct_name.clone(),
        base: p.base_address,
        props: lift_props(&p.default_register_properties),
        abs: p.address_block.as_ref().map(|v| v.iter().map(lift_ab).collect()),
        ints: p.interrupt.iter().map(lift_int).collect(),
        regs: p.registers.as_ref().map(|v| v.iter().map(lift_rc).collect()),
        derived: p.derived_from.clone(),
        dim: dim_of(m),
    }
}
pub fn lift_cpu(c: &svd::Cpu) -> Cpu {
    Cpu {
        name: c.name.clone(),
        revision: c.revision.clone(),
        endian: endian_s(c.endian),
        mpu: c.mpu_present,
        fpu: c.fpu_present,
        fpu_dp: c.fpu_double_precision,
        dsp: c.dsp_present,
        icache: c.icache_present,
        dcache: c.dcache_present,
        itcm: c.itcm_present,
        dtcm: c.dtcm_present,
        vtor: c.vtor_present,
        nvic: c.nvic_priority_bits,
        systick: c.has_vendor_systick,
        nint: c.device_num_interrupts,
        sau: c.sau_num_regions,
    }
}
pub fn lift(d: &svd::Device) -> Dev {
    Dev {
        vendor: d.vendor.clone(),
        vendor_id: d.vendor_id.clone(),
        name: d.name.clone(),
        series: d.series.clone(),
        version: d.version.clone(),
        desc: d.description.clone(),
        license: d.license_text.clone(),
        cpu: d.cpu.as_ref().map(lift_cpu),
        hsf: d.header_system_filename.clone(),
        hdp: d.header_definitions_prefix.clone(),
        aub: d.address_unit_bits,
        width: d.width,
        props: lift_props(&d.default_register_properties),
        pers: d.peripherals.iter().map(lift_per).collect(),
        xs: d.xmlns_xs.clone(),
        loc: d.no_namespace_schema_location.clone(),
        schema: d.schema_version.clone(),
    }
}

// ---------------------------------------------------------------- lower: model -> code
// Structures are made by their builders with the mandatory parts only, and every field is then
// assigned directly, so that what the builders do is not trusted here.

pub fn lower_props(p: &Props) -> svd::RegisterProperties {
    let mut r = svd::RegisterProperties::default();
    r.size = p.size;
    r.access = p.access.map(access_v);
    r.protection = p.prot.map(prot_v);
    r.reset_value = p.rval;
    r.reset_mask = p.rmask;
    r
}
/// what no builder may do: refuse an element all mandatory items of which are given
pub const REFUSED: &str = "a builder refuses an element with all its mandatory items: ";
fn refused<T>(e: svd::SvdError) -> T {
    panic!("{REFUSED}{e}")
}

pub fn lower_ev(e: &Ev) -> svd::EnumeratedValue {
    let mut r = svd::EnumeratedValue::builder().name("n".into()).build(Disabled).unwrap_or_else(refused);
    r.name = e.name.clone();
    r.description = e.desc.clone();
    r.value = e.value;
    r.is_default = e.is_default;
    r
}
pub fn lower_evs(e: &Evs) -> svd::EnumeratedValues {
    let mut r = svd::EnumeratedValues::builder().build(Disabled).unwrap_or_else(refused);
    r.name = e.name.clone();
    r.usage = e.usage.map(usage_v);
    r.derived_from = e.derived.clone();
    r.values = e.values.iter().map(lower_ev).collect();
    r
}
pub fn lower_wc(w: &Wc) -> svd::WriteConstraint {
    match *w {
        Wc::AsRead(b) => svd::WriteConstraint::WriteAsRead(b),
        Wc::UseEv(b) => svd::WriteConstraint::UseEnumeratedValues(b),
        Wc::Range(min, max) => svd::WriteConstraint::Range(svd::WriteConstraintRange { min, max }),
    }
}
pub fn lower_dim(d: &Dim) -> svd::DimElement {
    let mut r = svd::DimElement::builder().dim(1).dim_increment(0).build(Disabled).unwrap_or_else(refused);
    r.dim = d.dim;
    r.dim_increment = d.inc;
    r.dim_index = d.index.clone();
    r.dim_name = d.name.clone();
    r.dim_array_index = d.dai.as_ref().map(|a| svd::DimArrayIndex {
        header_enum_name: a.hdr.clone(),
        values: a.values.iter().map(lower_ev).collect(),
    });
    r
}
fn arr<T>(info: T, dim: &Option<Dim>) -> svd::MaybeArray<T> {
    match dim {
        None => svd::MaybeArray::Single(info),
        Some(d) => svd::MaybeArray::Array(info, lower_dim(d)),
    }
}
pub fn lower_br(off: u32, width: u32, t: Brt) -> svd::BitRange {
    svd::BitRange {
        offset: off,
        width,
        range_type: match t {
            Brt::Br => svd::BitRangeType::BitRange,
            Brt::Ow => svd::BitRangeType::OffsetWidth,
            Brt::Ml => svd::BitRangeType::MsbLsb,
        },
    }
}
pub fn lower_field_info(f: &Field) -> svd::FieldInfo {
    let mut r = svd::FieldInfo::builder()
        .name("n".into())
        .bit_range(svd::BitRange::from_offset_width(0, 1))
        .build(Disabled)
        .unwrap_or_else(refused);
    r.name = f.name.clone();
    r.description = f.desc.clone();
    r.bit_range = lower_br(f.off, f.width, f.brt);
    r.access = f.access.map(access_v);
    r.modified_write_values = f.mwv.map(mwv_v);
    r.write_constraint = f.wc.as_ref().map(lower_wc);
    r.read_action = f.ra.map(ra_v);
    r.enumerated_values = f.evs.iter().map(lower_evs).collect();
    r.derived_from = f.derived.clone();
    r
}
pub fn lower_field(f: &Field) -> svd::Field {
    arr(lower_field_info(f), &f.dim)
}
pub fn lower_reg_info(g: &Reg) -> svd::RegisterInfo {
    let mut r = svd::RegisterInfo::builder()
        .name("n".into())
        .address_offset(0)
        .build(Disabled)
        .unwrap_or_else(refused);
    r.name = g.name.clone();
    r.display_name = g.display.clone();
    r.description = g.desc.clone();
    r.alternate_group = g.alt_group.clone();
    r.alternate_register = g.alt_reg.clone();
    r.address_offset = g.off;
    r.properties = lower_props(&g.props);
    r.datatype = g.dtype.map(dtype_v);
    r.modified_write_values = g.mwv.map(mwv_v);
    r.write_constraint = g.wc.as_ref().map(lower_wc);
    r.read_action = g.ra.map(ra_v);
    r.fields = g.fields.as_ref().map(|v| v.iter().map(lower_field).collect());
    r.derived_from = g.derived.clone();
    r
}
pub fn lower_reg(g: &Reg) -> svd::Register {
    arr(lower_reg_info(g), &g.dim)
}
pub fn lower_clu_info(c: &Clu) -> svd::ClusterInfo {
    let mut r = svd::ClusterInfo::builder()
        .name("n".into())
        .address_offset(0)
        .children(vec![])
        .build(Disabled)
        .unwrap_or_else(refused);
    r.name = c.name.clone();
    r.description = c.desc.clone();
    r.alternate_cluster = c.alt.clone();
    r.header_struct_name = c.hdr.clone();
    r.address_offset = c.off;
    r.default_register_properties = lower_props(&c.props);
    r.children = c.children.iter().map(lower_rc).collect();
    r.derived_from = c.derived.clone();
    r
}
pub fn lower_clu(c: &Clu) -> svd::Cluster {
    arr(lower_clu_info(c), &c.dim)
}
pub fn lower_rc(m: &Rc) -> svd::RegisterCluster {
    match m {
        Rc::R(r) => svd::RegisterCluster::Register(lower_reg(r)),
        Rc::C(c) => svd::RegisterCluster::Cluster(lower_clu(c)),
    }
}
pub fn lower_int(i: &Int) -> svd::Interrupt {
    let mut r = svd::Interrupt::builder().name("n".into()).value(0).build(Disabled).unwrap_or_else(refused);
    r.name = i.name.clone();
    r.description = i.desc.clone();
    r.value = i.value;
    r
}
pub fn lower_ab(a: &Ab) -> svd::AddressBlock {
    let mut r = svd::AddressBlock::builder()
        .offset(0)
        .size(0)
        .usage(svd::AddressBlockUsage::Registers)
        .build(Disabled)
        .unwrap_or_else(refused);
    r.offset = a.off;
    r.size = a.size;
    r.usage = abusage_v(a.usage);
    r.protection = a.prot.map(prot_v);
    r
}
pub fn lower_per_info(p: &Per) -> svd::PeripheralInfo {
    let mut r = svd::PeripheralInfo::builder()
        .name("n".into())
        .base_address(0)
        .build(Disabled)
        .unwrap_or_else(refused);
    r.name = p.name.clone();
    r.display_name = p.display.clone();
    r.version = p.version.clone();
    r.description = p.desc.clone();
    r.alternate_peripheral = p.alt.clone();
    r.group_name = p.group.clone();
    r.prepend_to_name = p.prepend.clone();
    r.append_to_name = p.append.clone();
    r.header_struct_name = p.hdr.clone();
    r.base_address = p.base;
    r.default_register_properties = lower_props(&p.props);
    r.address_block = p.abs.as_ref().map(|v| v.iter().map(lower_ab).collect());
    r.interrupt = p.ints.iter().map(lower_int).collect();
    r.registers = p.regs.as_ref().map(|v| v.iter().map(lower_rc).collect());
    r.derived_from = p.derived.clone();
    r
}
pub fn lower_per(p: &Per) -> svd::Peripheral {
    arr(lower_per_info(p), &p.dim)
}
pub fn lower_cpu(c: &Cpu) -> svd::Cpu {
    let mut r = svd::Cpu::builder()
        .name("n".into())
        .revision("r".into())
        .endian(svd::Endian::Little)
        .mpu_present(false)
        .fpu_present(false)
        .nvic_priority_bits(0)
        .has_vendor_systick(false)
        .build(Disabled)
        .unwrap_or_else(refused);
    r.name = c.name.clone();
    r.revision = c.revision.clone();
    r.endian = endian_v(c.endian);
    r.mpu_present = c.mpu;
    r.fpu_present = c.fpu;
    r.fpu_double_precision = c.fpu_dp;
    r.dsp_present = c.dsp;
    r.icache_present = c.icache;
    r.dcache_present = c.dcache;
    r.itcm_present = c.itcm;
    r.dtcm_present = c.dtcm;
    r.vtor_present = c.vtor;
    r.nvic_priority_bits = c.nvic;
    r.has_vendor_systick = c.systick;
    r.device_num_interrupts = c.nint;
    r.sau_num_regions = c.sau;
    r
}
pub fn lower(d: &Dev) -> svd::Device {
    let mut r = svd::Device::builder()
        .name("n".into())
        .version("1".into())
        .description("d".into())
        .address_unit_bits(8)
        .width(32)
        .peripherals(vec![])
        .build(Disabled)
        .unwrap_or_else(refused);
    r.vendor = d.vendor.clone();
    r.vendor_id = d.vendor_id.clone();
    r.name = d.name.clone();
    r.series = d.series.clone();
    r.version = d.version.clone();
    r.description = d.desc.clone();
    r.license_text = d.license.clone();
    r.cpu = d.cpu.as_ref().map(lower_cpu);
    r.header_system_filename = d.hsf.clone();
    r.header_definitions_prefix = d.hdp.clone();
    r.address_unit_bits = d.aub;
    r.width = d.width;
    r.default_register_properties = lower_props(&d.props);
    r.peripherals = d.pers.iter().map(lower_per).collect();
    r.xmlns_xs = d.xs.clone();
    r.no_namespace_schema_location = d.loc.clone();
    r.schema_version = d.schema.clone();
    r
}

/// Explain how two models differ: the first differing line of their pretty debug output
pub fn diff<T: std::fmt::Debug>(want: &T, got: &T) -> String {
    let (a, b) = (format!("{want:#?}"), format!("{got:#?}"));
    let mut ctx: Vec<&str> = Vec::new();
    let (mut la, mut lb) = (a.lines(), b.lines());
    loop {
        match (la.next(), lb.next()) {
            (Some(x), Some(y)) if x == y => {
                ctx.push(x);
            }
            (None, None) => return "no difference".into(),
            (x, y) => {
                let from = ctx.len().saturating_sub(6);
                return format!(
                    "after\n{}\n  expected: {}\n  got:      {}",
                    ctx[from..].join("\n"),
                    x.unwrap_or("<end>").trim(),
                    y.unwrap_or("<end>").trim()
                );
            }
        }
    }
}
