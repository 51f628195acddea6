//! Reference validation rules over the harness's model, and construction of a model through the
//! builders at a given level.

use crate::model::*;
use svd_parser::svd::{
    self, bitrange, cluster, device, enumeratedvalue, enumeratedvalues, field, peripheral, register, registerproperties,
    writeconstraint, SvdError, ValidateLevel,
};

/// Broken rules, each with a word saying which one and where
pub struct Rules {
    pub strict: bool,
    /// judge the element alone, without the parts it contains
    pub own: bool,
    pub broken: Vec<String>,
    /// for each of them the error that tells it
    pub errors: Vec<SvdError>,
}

fn word(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}
fn start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}
pub fn plain_name(n: &str) -> bool {
    n.chars().all(word)
}
fn ident(n: &str) -> bool {
    n.starts_with(start) && plain_name(n)
}
/// `%s`, `%sNAME`, `NAME`, `NAME[%s]`, `NA%sME`
pub fn dim_name(n: &str) -> bool {
    if n == "%s" || ident(n) {
        return true;
    }
    if let Some(rest) = n.strip_prefix("%s") {
        return ident(rest);
    }
    if let Some(head) = n.strip_suffix("[%s]") {
        return ident(head);
    }
    match n.split_once("%s") {
        Some((a, b)) => ident(a) && plain_name(b),
        None => false,
    }
}
pub fn path_name(n: &str) -> bool {
    n.split('.').all(dim_name)
}
fn range(bits: u32) -> std::ops::Range<u64> {
    0..1u64.checked_shl(bits).unwrap_or(0)
}
fn fits(v: u64, bits: u32) -> bool {
    bits >= 64 || v < (1u64 << bits)
}

impl Rules {
    pub fn new(lvl: ValidateLevel) -> Rules {
        Rules {
            strict: lvl == ValidateLevel::Strict,
            own: false,
            broken: vec![],
            errors: vec![],
        }
    }
    fn weak(&mut self, ok: bool, what: &str, e: impl Into<SvdError>) {
        if !ok {
            self.broken.push(what.to_string());
            self.errors.push(e.into());
        }
    }
    fn strict(&mut self, ok: bool, what: &str, e: impl Into<SvdError>) {
        if self.strict && !ok {
            self.broken.push(what.to_string());
            self.errors.push(e.into());
        }
    }
    fn name(&mut self, rule: fn(&str) -> bool, name: &str, item: &str, what: &str) {
        self.strict(rule(name), what, svd::NameError::Invalid(name.into(), item.into()));
    }
    /// a dotted name is judged part by part
    fn path(&mut self, name: &str, what: &str) {
        let bad = name.split('.').find(|p| !dim_name(p));
        self.strict(bad.is_none(), what, svd::NameError::Invalid(bad.unwrap_or("").into(), "derivedFrom".into()));
    }
    /// the error names a rule that is broken, and the values that break it
    pub fn named(&self, e: &SvdError) -> bool {
        self.errors.contains(e)
    }
    pub fn props(&mut self, p: &Props) {
        if let (Some(s), Some(v)) = (p.size, p.rval) {
            self.weak(fits(v, s), "reset value larger than the size", registerproperties::Error::ValueTooLarge(v, s));
        }
        if let (Some(s), Some(v)) = (p.size, p.rmask) {
            self.strict(fits(v, s), "reset mask larger than the size", registerproperties::Error::MaskTooLarge(v, s));
        }
        if let (Some(v), Some(m)) = (p.rval, p.rmask) {
            self.strict(v & m == v, "reset value outside the reset mask", registerproperties::Error::MaskConflict(v, m));
        }
    }
    pub fn ev(&mut self, e: &Ev) {
        self.name(plain_name, &e.name, "name", "enumerated value name");
        let default = e.is_default == Some(true);
        self.weak(e.value.is_some() || default, "enumerated value without value", enumeratedvalue::Error::AbsentValue);
        self.strict(
            !(e.value.is_some() && default),
            "enumerated value with value and default",
            enumeratedvalue::Error::ValueAndDefault(e.value),
        );
    }
    pub fn evs(&mut self, e: &Evs) {
        if let Some(n) = &e.name {
            self.name(plain_name, n, "name", "enumerated values name");
        }
        match &e.derived {
            Some(d) => self.path(d, "enumerated values derivedFrom"),
            None => self.weak(!e.values.is_empty(), "enumerated values empty", enumeratedvalues::Error::Empty),
        }
        if !self.own {
            for v in &e.values {
                self.ev(v);
            }
        }
    }
    pub fn dim(&mut self, d: &Option<Dim>) {
        for v in d.iter().filter_map(|d| d.dai.as_ref()).flat_map(|a| &a.values) {
            self.ev(v);
        }
    }
    pub fn field(&mut self, f: &Field) {
        self.name(dim_name, &f.name, "name", "field name");
        if let Some(d) = &f.derived {
            self.path(d, "field derivedFrom");
        }
        self.weak(f.width != 0, "zero width", bitrange::Error::ZeroWidth);
        for e in &f.evs {
            for v in &e.values {
                if let Some(x) = v.value {
                    let e = enumeratedvalue::Error::OutOfRange(x, range(f.width));
                    self.weak(fits(x, f.width), "enumerated value larger than the field", e);
                }
            }
        }
        let r = |e: &Evs| e.derived.is_some() || e.usage == Some("read");
        let w = |e: &Evs| e.derived.is_some() || e.usage == Some("write");
        let ok = match &f.evs[..] {
            [] | [_] => true,
            [a, b] => (r(a) && w(b)) || (w(a) && r(b)),
            _ => false,
        };
        self.strict(ok, "usages of enumerated values", field::Error::IncompatibleEnumeratedValues);
        if let Some(Wc::Range(a, b)) = f.wc {
            if f.width < 64 {
                self.weak(a <= b, "reversed write range", writeconstraint::Error::ReversedRange(a, b));
                for v in [a, b] {
                    let e = writeconstraint::Error::OutOfRange(v, range(f.width));
                    self.weak(fits(v, f.width), "write range larger than the field", e);
                }
            }
        }
        if !self.own {
            for e in &f.evs {
                self.evs(e);
            }
            self.dim(&f.dim);
        }
    }
    pub fn reg(&mut self, r: &Reg) {
        self.name(dim_name, &r.name, "name", "register name");
        if let Some(n) = &r.alt_group {
            self.name(plain_name, n, "alternateGroup", "alternate group");
        }
        if let Some(n) = &r.alt_reg {
            self.name(dim_name, n, "alternateRegister", "alternate register");
        }
        match &r.derived {
            Some(d) => self.path(d, "register derivedFrom"),
            None => {
                let ok = r.fields.as_ref().map(|f| f.is_empty()) != Some(true);
                self.strict(ok, "empty fields", register::Error::EmptyFields)
            },
        }
        self.props(&r.props);
        if !self.own {
            for f in r.fields.iter().flatten() {
                self.field(f);
            }
            self.dim(&r.dim);
        }
    }
    pub fn rc(&mut self, k: &Rc) {
        match k {
            Rc::R(r) => self.reg(r),
            Rc::C(c) => self.clu(c),
        }
    }
    pub fn clu(&mut self, c: &Clu) {
        self.name(dim_name, &c.name, "name", "cluster name");
        match &c.derived {
            Some(d) => self.path(d, "cluster derivedFrom"),
            None => self.strict(!c.children.is_empty(), "empty cluster", cluster::Error::EmptyCluster),
        }
        self.props(&c.props);
        if !self.own {
            for k in &c.children {
                self.rc(k);
            }
            self.dim(&c.dim);
        }
    }
    pub fn per(&mut self, p: &Per) {
        self.name(dim_name, &p.name, "name", "peripheral name");
        match &p.derived {
            Some(d) => self.name(dim_name, d, "derivedFrom", "peripheral derivedFrom"),
            None => {
                let ok = p.regs.as_ref().map(|f| f.is_empty()) != Some(true);
                self.strict(ok, "empty registers", peripheral::Error::EmptyRegisters)
            },
        }
        self.props(&p.props);
        if !self.own {
            for k in p.regs.iter().flatten() {
                self.rc(k);
            }
            self.dim(&p.dim);
        }
    }
    pub fn dev(&mut self, d: &Dev) {
        self.weak(!d.pers.is_empty(), "no peripherals", device::Error::EmptyDevice);
        self.props(&d.props);
        if !self.own {
            for p in &d.pers {
                self.per(p);
            }
        }
    }
}

/// The rules the device breaks at the level
pub fn judge(d: &Dev, lvl: ValidateLevel) -> Rules {
    let mut r = Rules::new(lvl);
    if lvl != ValidateLevel::Disabled {
        r.dev(d);
    }
    r
}

// ------------------------------------------------------------------ construction by builders

/// items of the device a caller may leave out
#[derive(Clone, Copy, Default, Debug)]
pub struct Omit {
    pub version: bool,
    pub desc: bool,
    pub aub: bool,
    pub width: bool,
}

type B<T> = Result<T, SvdError>;
pub fn b_props(p: &Props, l: ValidateLevel) -> B<svd::RegisterProperties> {
    svd::RegisterProperties::new()
        .size(p.size)
        .access(p.access.map(access_v))
        .protection(p.prot.map(prot_v))
        .reset_value(p.rval)
        .reset_mask(p.rmask)
        .build(l)
}
pub fn b_ev(e: &Ev, l: ValidateLevel) -> B<svd::EnumeratedValue> {
    svd::EnumeratedValue::builder()
        .name(e.name.clone())
        .description(e.desc.clone())
        .value(e.value)
        .is_default(e.is_default)
        .build(l)
}
pub fn b_evs(e: &Evs, l: ValidateLevel) -> B<svd::EnumeratedValues> {
    svd::EnumeratedValues::builder()
        .name(e.name.clone())
        .usage(e.usage.map(usage_v))
        .derived_from(e.derived.clone())
        .values(e.values.iter().map(|v| b_ev(v, l)).collect::<B<_>>()?)
        .build(l)
}
pub fn b_dim(d: &Dim, l: ValidateLevel) -> B<svd::DimElement> {
    let dai = match &d.dai {
        None => None,
        Some(a) => Some(svd::DimArrayIndex {
            header_enum_name: a.hdr.clone(),
            values: a.values.iter().map(|v| b_ev(v, l)).collect::<B<_>>()?,
        }),
    };
    svd::DimElement::builder()
        .dim(d.dim)
        .dim_increment(d.inc)
        .dim_index(d.index.clone())
        .dim_name(d.name.clone())
        .dim_array_index(dai)
        .build(l)
}
fn odim(d: &Option<Dim>, l: ValidateLevel) -> B<Option<svd::DimElement>> {
    d.as_ref().map(|d| b_dim(d, l)).transpose()
}
pub fn b_field(f: &Field, l: ValidateLevel) -> B<svd::Field> {
    let info = svd::FieldInfo::builder()
        .name(f.name.clone())
        .description(f.desc.clone())
        .bit_range(lower_br(f.off, f.width, f.brt))
        .access(f.access.map(access_v))
        .modified_write_values(f.mwv.map(mwv_v))
        .write_constraint(f.wc.as_ref().map(lower_wc))
        .read_action(f.ra.map(ra_v))
        .enumerated_values(f.evs.iter().map(|e| b_evs(e, l)).collect::<B<_>>()?)
        .derived_from(f.derived.clone())
        .build(l)?;
    Ok(info.maybe_array(odim(&f.dim, l)?))
}
pub fn b_reg(r: &Reg, l: ValidateLevel) -> B<svd::Register> {
    let info = svd::RegisterInfo::builder()
        .name(r.name.clone())
        .display_name(r.display.clone())
        .description(r.desc.clone())
        .alternate_group(r.alt_group.clone())
        .alternate_register(r.alt_reg.clone())
        .address_offset(r.off)
        .properties(b_props(&r.props, l)?)
        .datatype(r.dtype.map(dtype_v))
        .modified_write_values(r.mwv.map(mwv_v))
        .write_constraint(r.wc.as_ref().map(lower_wc))
        .read_action(r.ra.map(ra_v))
        .fields(match &r.fields {
            None => None,
            Some(v) => Some(v.iter().map(|f| b_field(f, l)).collect::<B<_>>()?),
        })
        .derived_from(r.derived.clone())
        .build(l)?;
    Ok(info.maybe_array(odim(&r.dim, l)?))
}
pub fn b_rc(k: &Rc, l: ValidateLevel) -> B<svd::RegisterCluster> {
    Ok(match k {
        Rc::R(r) => svd::RegisterCluster::Register(b_reg(r, l)?),
        Rc::C(c) => svd::RegisterCluster::Cluster(b_clu(c, l)?),
    })
}
pub fn b_clu(c: &Clu, l: ValidateLevel) -> B<svd::Cluster> {
    let info = svd::ClusterInfo::builder()
        .name(c.name.clone())
        .description(c.desc.clone())
        .alternate_cluster(c.alt.clone())
        .header_struct_name(c.hdr.clone())
        .address_offset(c.off)
        .default_register_properties(b_props(&c.props, l)?)
        .children(c.children.iter().map(|k| b_rc(k, l)).collect::<B<_>>()?)
        .derived_from(c.derived.clone())
        .build(l)?;
    Ok(info.maybe_array(odim(&c.dim, l)?))
}
pub fn b_int(i: &Int, l: ValidateLevel) -> B<svd::Interrupt> {
    svd::Interrupt::builder()
        .name(i.name.clone())
        .description(i.desc.clone())
        .value(i.value)
        .build(l)
}
pub fn b_ab(a: &Ab, l: ValidateLevel) -> B<svd::AddressBlock> {
    svd::AddressBlock::builder()
        .offset(a.off)
        .size(a.size)
        .usage(abusage_v(a.usage))
        .protection(a.prot.map(prot_v))
        .build(l)
}
pub fn b_per(p: &Per, l: ValidateLevel) -> B<svd::Peripheral> {
    let info = svd::PeripheralInfo::builder()
        .name(p.name.clone())
        .display_name(p.display.clone())
        .version(p.version.clone())
        .description(p.desc.clone())
        .alternate_peripheral(p.alt.clone())
        .group_name(p.group.clone())
        .prepend_to_name(p.prepend.clone())
        .append_to_name(p.append.clone())
        .header_struct_name(p.hdr.clone())
        .base_address(p.base)
        .default_register_properties(b_props(&p.props, l)?)
        .address_block(match &p.abs {
            None => None,
            Some(v) => Some(v.iter().map(|a| b_ab(a, l)).collect::<B<_>>()?),
        })
        .interrupt(Some(p.ints.iter().map(|i| b_int(i, l)).collect::<B<_>>()?))
        .registers(match &p.regs {
            None => None,
            Some(v) => Some(v.iter().map(|k| b_rc(k, l)).collect::<B<_>>()?),
        })
        .derived_from(p.derived.clone())
        .build(l)?;
    Ok(info.maybe_array(odim(&p.dim, l)?))
}
pub fn b_cpu(c: &Cpu, l: ValidateLevel) -> B<svd::Cpu> {
    svd::Cpu::builder()
        .name(c.name.clone())
        .revision(c.revision.clone())
        .endian(endian_v(c.endian))
        .mpu_present(c.mpu)
        .fpu_present(c.fpu)
        .fpu_double_precision(c.fpu_dp)
        .dsp_present(c.dsp)
        .icache_present(c.icache)
        .dcache_present(c.dcache)
        .itcm_present(c.itcm)
        .dtcm_present(c.dtcm)
        .vtor_present(c.vtor)
        .nvic_priority_bits(c.nvic)
        .has_vendor_systick(c.systick)
        .device_num_interrupts(c.nint)
        .sau_num_regions(c.sau)
        .build(l)
}
pub fn b_dev(d: &Dev, o: Omit, l: ValidateLevel) -> B<svd::Device> {
    let mut b = svd::Device::builder()
        .vendor(d.vendor.clone())
        .vendor_id(d.vendor_id.clone())
        .name(d.name.clone())
        .series(d.series.clone())
        .license_text(d.license.clone())
        .cpu(match &d.cpu {
            None => None,
            Some(c) => Some(b_cpu(c, l)?),
        })
        .header_system_filename(d.hsf.clone())
        .header_definitions_prefix(d.hdp.clone())
        .default_register_properties(b_props(&d.props, l)?)
        .peripherals(d.pers.iter().map(|p| b_per(p, l)).collect::<B<_>>()?)
        .xmlns_xs(d.xs.clone())
        .no_namespace_schema_location(d.loc.clone())
        .schema_version(d.schema.clone());
    if !o.version {
        b = b.version(d.version.clone());
    }
    if !o.desc {
        b = b.description(d.desc.clone());
    }
    if !o.aub {
        b = b.address_unit_bits(d.aub);
    }
    if !o.width {
        b = b.width(d.width);
    }
    b.build(l)
}
