//! P20 builders and modification, P21 lookups and iterators
use super::exp::link_input;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::rules::*;
use crate::{ensure, fail};
use std::fmt::Debug;
use svd_parser::svd::{self, SvdError, ValidateLevel};

fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    quietly(f).map_err(|e| Fail::new(format!("{what}: {e}")))
}

// ------------------------------------------------------------------ P20

/// One item of an element
struct Item<M> {
    name: &'static str,
    copy: fn(&mut M, &M),
    /// whether setting it to the value in the model counts as set (an absent option does not)
    some: fn(&M) -> bool,
    must: Must,
}
#[derive(Clone, Copy, PartialEq)]
enum Must {
    No,
    Yes,
    Strict,
}
/// One call on a builder, taking its value from a donor element
struct Setter<M, B> {
    name: &'static str,
    set: fn(B, &M) -> B,
    items: &'static [&'static str],
    /// the call passes no value at all
    none: bool,
}
/// A kind of element
struct Kind<M: 'static, B: 'static, T: 'static> {
    word: &'static str,
    items: &'static [Item<M>],
    setters: &'static [Setter<M, B>],
    new: fn() -> B,
    from: fn(&M) -> B,
    build: fn(B, ValidateLevel) -> Result<T, SvdError>,
    modify: fn(&M, B, ValidateLevel) -> Result<T, SvdError>,
    lift: fn(&T) -> M,
    /// what an element with no item set has
    blank: fn() -> M,
    /// after one call: consequences for other items
    after: fn(&mut M, &mut dyn FnMut(&'static str, Option<bool>) -> bool),
    /// consequences of a modification
    modified: fn(&mut M, &M, &dyn Fn(&'static str) -> bool),
    rules: fn(&mut Rules, &M),
    /// texts that are blank are the same as absent ones
    norm: fn(&mut M),
}

fn blank_none(t: &mut Option<String>) {
    if t.as_deref() == Some("") {
        *t = None;
    }
}

macro_rules! items {
    ($($must:ident $name:ident : $($i:ident).+ $(?$opt:ident)?;)*) => {
        &[$(Item {
            name: stringify!($name),
            copy: |a, b| a.$($i).+ = b.$($i).+.clone(),
            some: |_m| items!(@some _m $($i).+ $(?$opt)?),
            must: Must::$must,
        }),*]
    };
    (@some $m:ident $($i:ident).+ ?$opt:ident) => { $m.$($i).+.is_some() };
    (@some $m:ident $($i:ident).+) => { true };
}
macro_rules! setters {
    ($($name:ident ($m:ident) $e:expr => $($item:ident),+;)*) => {
        &[$(Setter { name: stringify!($name), set: |b, $m| b.$name($e), items: &[$(stringify!($item)),+], none: false }),*]
    };
}

fn nothing<M>(_: &mut M, _: &mut dyn FnMut(&'static str, Option<bool>) -> bool) {}
fn plainly<M>(_: &mut M, _: &M, _: &dyn Fn(&'static str) -> bool) {}

macro_rules! modify {
    ($lower:expr) => {
        |m, b, l| {
            let mut x = $lower(m);
            x.modify_from(b, l)?;
            Ok(x)
        }
    };
}

const FIELD: Kind<Field, svd::FieldInfoBuilder, svd::FieldInfo> = Kind {
    word: "field",
    items: items![Yes name: name; No desc: desc ?o; Yes off: off; Yes width: width; No brt: brt; No access: access ?o;
        No mwv: mwv ?o; No wc: wc ?o; No ra: ra ?o; No evs: evs; No derived: derived ?o;],
    setters: setters![
        name(m) m.name.clone() => name;
        description(m) m.desc.clone() => desc;
        bit_range(m) lower_br(m.off, m.width, m.brt) => off, width, brt;
        bit_offset(m) m.off => off;
        bit_width(m) m.width => width;
        access(m) m.access.map(access_v) => access;
        modified_write_values(m) m.mwv.map(mwv_v) => mwv;
        write_constraint(m) m.wc.as_ref().map(lower_wc) => wc;
        read_action(m) m.ra.map(ra_v) => ra;
        enumerated_values(m) m.evs.iter().map(lower_evs).collect() => evs;
        derived_from(m) m.derived.clone() => derived;
    ],
    new: svd::FieldInfo::builder,
    from: |m| lower_field_info(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_field_info),
    lift: |t| lift_field(&svd::Field::Single(t.clone())),
    blank: Field::default,
    after: |m, told| {
        // offset and width given apart
        if told("off", None) && told("width", None) && !told("brt", None) {
            m.brt = Brt::Ow;
            told("brt", Some(true));
        }
    },
    modified: |m, orig, told| {
        if told("derived") {
            m.mwv = None;
            m.wc = None;
            m.evs = vec![];
            m.ra = orig.ra;
        }
    },
    rules: |r, m| r.field(m),
    norm: |m| blank_none(&mut m.desc),
};
const REG: Kind<Reg, svd::RegisterInfoBuilder, svd::RegisterInfo> = Kind {
    word: "register",
    items: items![Yes name: name; No display: display ?o; No desc: desc ?o; No alt_group: alt_group ?o;
        No alt_reg: alt_reg ?o; Yes off: off; No size: props.size ?o; No access: props.access ?o;
        No prot: props.prot ?o; No rval: props.rval ?o; No rmask: props.rmask ?o; No dtype: dtype ?o;
        No mwv: mwv ?o; No wc: wc ?o; No ra: ra ?o; No fields: fields ?o; No derived: derived ?o;],
    setters: setters![
        name(m) m.name.clone() => name;
        display_name(m) m.display.clone() => display;
        description(m) m.desc.clone() => desc;
        alternate_group(m) m.alt_group.clone() => alt_group;
        alternate_register(m) m.alt_reg.clone() => alt_reg;
        address_offset(m) m.off => off;
        properties(m) lower_props(&m.props) => size, access, prot, rval, rmask;
        size(m) m.props.size => size;
        access(m) m.props.access.map(access_v) => access;
        reset_value(m) m.props.rval => rval;
        reset_mask(m) m.props.rmask => rmask;
        datatype(m) m.dtype.map(dtype_v) => dtype;
        modified_write_values(m) m.mwv.map(mwv_v) => mwv;
        write_constraint(m) m.wc.as_ref().map(lower_wc) => wc;
        read_action(m) m.ra.map(ra_v) => ra;
        fields(m) m.fields.as_ref().map(|v| v.iter().map(lower_field).collect()) => fields;
        derived_from(m) m.derived.clone() => derived;
    ],
    new: svd::RegisterInfo::builder,
    from: |m| lower_reg_info(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_reg_info),
    lift: |t| lift_reg(&svd::Register::Single(t.clone())),
    blank: Reg::default,
    after: nothing,
    modified: |m, orig, told| {
        if told("derived") {
            m.fields = None;
            m.props = Props::default();
            m.dtype = None;
            m.mwv = None;
            m.wc = None;
            m.ra = orig.ra;
        } else if told("fields") && m.fields.as_ref().map(|f| f.is_empty()) == Some(true) {
            m.fields = None;
        }
    },
    rules: |r, m| r.reg(m),
    norm: |m| {
        for t in [&mut m.display, &mut m.desc, &mut m.alt_group, &mut m.alt_reg] {
            blank_none(t);
        }
    },
};
const CLU: Kind<Clu, svd::ClusterInfoBuilder, svd::ClusterInfo> = Kind {
    word: "cluster",
    items: items![Yes name: name; No desc: desc ?o; No alt: alt ?o; No hdr: hdr ?o; Yes off: off;
        No size: props.size ?o; No access: props.access ?o;
        No prot: props.prot ?o; No rval: props.rval ?o; No rmask: props.rmask ?o;
        Yes children: children; No derived: derived ?o;],
    setters: setters![
        name(m) m.name.clone() => name;
        description(m) m.desc.clone() => desc;
        alternate_cluster(m) m.alt.clone() => alt;
        header_struct_name(m) m.hdr.clone() => hdr;
        address_offset(m) m.off => off;
        default_register_properties(m) lower_props(&m.props) => size, access, prot, rval, rmask;
        children(m) m.children.iter().map(lower_rc).collect() => children;
        derived_from(m) m.derived.clone() => derived;
    ],
    new: svd::ClusterInfo::builder,
    from: |m| lower_clu_info(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_clu_info),
    lift: |t| lift_clu(&svd::Cluster::Single(t.clone())),
    blank: Clu::default,
    after: nothing,
    modified: |m, _, told| {
        if told("derived") {
            m.children = vec![];
            m.props = Props::default();
        }
    },
    rules: |r, m| r.clu(m),
    norm: |m| {
        for t in [&mut m.desc, &mut m.alt, &mut m.hdr] {
            blank_none(t);
        }
    },
};
const PER: Kind<Per, svd::PeripheralInfoBuilder, svd::PeripheralInfo> = Kind {
    word: "peripheral",
    items: items![Yes name: name; No display: display ?o; No version: version ?o; No desc: desc ?o; No alt: alt ?o;
        No group: group ?o; No prepend: prepend ?o; No append: append ?o; No hdr: hdr ?o; Yes base: base;
        No size: props.size ?o; No access: props.access ?o;
        No prot: props.prot ?o; No rval: props.rval ?o; No rmask: props.rmask ?o;
        No abs: abs ?o; No ints: ints; No regs: regs ?o; No derived: derived ?o;],
    setters: &[
        Setter { name: "name", set: |b, m| b.name(m.name.clone()), items: &["name"], none: false },
        Setter { name: "display_name", set: |b, m| b.display_name(m.display.clone()), items: &["display"], none: false },
        Setter { name: "version", set: |b, m| b.version(m.version.clone()), items: &["version"], none: false },
        Setter { name: "description", set: |b, m| b.description(m.desc.clone()), items: &["desc"], none: false },
        Setter { name: "alternate_peripheral", set: |b, m| b.alternate_peripheral(m.alt.clone()), items: &["alt"], none: false },
        Setter { name: "group_name", set: |b, m| b.group_name(m.group.clone()), items: &["group"], none: false },
        Setter { name: "prepend_to_name", set: |b, m| b.prepend_to_name(m.prepend.clone()), items: &["prepend"], none: false },
        Setter { name: "append_to_name", set: |b, m| b.append_to_name(m.append.clone()), items: &["append"], none: false },
        Setter { name: "header_struct_name", set: |b, m| b.header_struct_name(m.hdr.clone()), items: &["hdr"], none: false },
        Setter { name: "base_address", set: |b, m| b.base_address(m.base), items: &["base"], none: false },
        Setter {
            name: "default_register_properties",
            set: |b, m| b.default_register_properties(lower_props(&m.props)),
            items: &["size", "access", "prot", "rval", "rmask"],
            none: false,
        },
        Setter {
            name: "address_block",
            set: |b, m| b.address_block(m.abs.as_ref().map(|v| v.iter().map(lower_ab).collect())),
            items: &["abs"],
            none: false,
        },
        Setter {
            name: "interrupt",
            set: |b, m| b.interrupt(Some(m.ints.iter().map(lower_int).collect())),
            items: &["ints"],
            none: false,
        },
        Setter { name: "interrupt(None)", set: |b, _| b.interrupt(None), items: &["ints"], none: true },
        Setter {
            name: "registers",
            set: |b, m| b.registers(m.regs.as_ref().map(|v| v.iter().map(lower_rc).collect())),
            items: &["regs"],
            none: false,
        },
        Setter { name: "derived_from", set: |b, m| b.derived_from(m.derived.clone()), items: &["derived"], none: false },
    ],
    new: svd::PeripheralInfo::builder,
    from: |m| lower_per_info(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_per_info),
    lift: |t| lift_per(&svd::Peripheral::Single(t.clone())),
    blank: Per::default,
    after: nothing,
    modified: |m, _, told| {
        if told("derived") {
            m.regs = None;
            m.abs = None;
            m.props = Props::default();
        } else if told("regs") && m.regs.as_ref().map(|f| f.is_empty()) == Some(true) {
            m.regs = None;
        }
    },
    rules: |r, m| r.per(m),
    norm: |m| {
        for t in [
            &mut m.display, &mut m.version, &mut m.desc, &mut m.alt, &mut m.group, &mut m.prepend, &mut m.append,
            &mut m.hdr,
        ] {
            blank_none(t);
        }
    },
};
const CPU: Kind<Cpu, svd::CpuBuilder, svd::Cpu> = Kind {
    word: "cpu",
    items: items![Yes name: name; Yes revision: revision; Yes endian: endian; Yes mpu: mpu; Yes fpu: fpu;
        No fpu_dp: fpu_dp ?o; No dsp: dsp ?o; No icache: icache ?o; No dcache: dcache ?o; No itcm: itcm ?o;
        No dtcm: dtcm ?o; No vtor: vtor ?o; Yes nvic: nvic; Yes systick: systick; No nint: nint ?o; No sau: sau ?o;],
    setters: setters![
        name(m) m.name.clone() => name;
        revision(m) m.revision.clone() => revision;
        endian(m) endian_v(m.endian) => endian;
        mpu_present(m) m.mpu => mpu;
        fpu_present(m) m.fpu => fpu;
        fpu_double_precision(m) m.fpu_dp => fpu_dp;
        dsp_present(m) m.dsp => dsp;
        icache_present(m) m.icache => icache;
        dcache_present(m) m.dcache => dcache;
        itcm_present(m) m.itcm => itcm;
        dtcm_present(m) m.dtcm => dtcm;
        vtor_present(m) m.vtor => vtor;
        nvic_priority_bits(m) m.nvic => nvic;
        has_vendor_systick(m) m.systick => systick;
        device_num_interrupts(m) m.nint => nint;
        sau_num_regions(m) m.sau => sau;
    ],
    new: svd::Cpu::builder,
    from: |m| lower_cpu(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_cpu),
    lift: lift_cpu,
    blank: Cpu::default,
    after: nothing,
    modified: plainly,
    rules: |_, _| {},
    norm: |_| {},
};
const EV: Kind<Ev, svd::EnumeratedValueBuilder, svd::EnumeratedValue> = Kind {
    word: "enumeratedValue",
    items: items![Yes name: name; No desc: desc ?o; No value: value ?o; No is_default: is_default ?o;],
    setters: setters![
        name(m) m.name.clone() => name;
        description(m) m.desc.clone() => desc;
        value(m) m.value => value;
        is_default(m) m.is_default => is_default;
    ],
    new: svd::EnumeratedValue::builder,
    from: |m| lower_ev(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_ev),
    lift: lift_ev,
    blank: Ev::default,
    after: nothing,
    modified: plainly,
    rules: |r, m| r.ev(m),
    norm: |m| blank_none(&mut m.desc),
};
const EVS: Kind<Evs, svd::EnumeratedValuesBuilder, svd::EnumeratedValues> = Kind {
    word: "enumeratedValues",
    items: items![No name: name ?o; No usage: usage ?o; No derived: derived ?o; No values: values;],
    setters: setters![
        name(m) m.name.clone() => name;
        usage(m) m.usage.map(usage_v) => usage;
        derived_from(m) m.derived.clone() => derived;
        values(m) m.values.iter().map(lower_ev).collect() => values;
    ],
    new: svd::EnumeratedValues::builder,
    from: |m| lower_evs(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_evs),
    lift: lift_evs,
    blank: Evs::default,
    after: nothing,
    modified: |m, _, told| {
        if told("derived") {
            m.name = None;
            m.usage = None;
            m.values = vec![];
        }
    },
    rules: |r, m| r.evs(m),
    norm: |m| blank_none(&mut m.name),
};
const DIM: Kind<Dim, svd::DimElementBuilder, svd::DimElement> = Kind {
    word: "dim",
    items: items![Yes dim: dim; Yes inc: inc; No index: index ?o; No name: name ?o; No dai: dai ?o;],
    setters: setters![
        dim(m) m.dim => dim;
        dim_increment(m) m.inc => inc;
        dim_index(m) m.index.clone() => index;
        dim_name(m) m.name.clone() => name;
        dim_array_index(m) lower_dim(m).dim_array_index => dai;
    ],
    new: svd::DimElement::builder,
    from: |m| lower_dim(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_dim),
    lift: lift_dim,
    blank: Dim::default,
    after: nothing,
    modified: plainly,
    rules: |r, m| r.dim(&Some(m.clone())),
    norm: |m| {
        blank_none(&mut m.name);
        if m.index.as_ref().map(|i| i.is_empty()) == Some(true) {
            m.index = None;
        }
    },
};
const AB: Kind<Ab, svd::addressblock::AddressBlockBuilder, svd::AddressBlock> = Kind {
    word: "addressBlock",
    items: items![Yes off: off; Yes size: size; Yes usage: usage; No prot: prot ?o;],
    setters: setters![
        offset(m) m.off => off;
        size(m) m.size => size;
        usage(m) abusage_v(m.usage) => usage;
        protection(m) m.prot.map(prot_v) => prot;
    ],
    new: svd::AddressBlock::builder,
    from: |m| lower_ab(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_ab),
    lift: lift_ab,
    blank: Ab::default,
    after: nothing,
    modified: plainly,
    rules: |_, _| {},
    norm: |_| {},
};
const INT: Kind<Int, svd::interrupt::InterruptBuilder, svd::Interrupt> = Kind {
    word: "interrupt",
    items: items![Yes name: name; No desc: desc ?o; Yes value: value;],
    setters: setters![
        name(m) m.name.clone() => name;
        description(m) m.desc.clone() => desc;
        value(m) m.value => value;
    ],
    new: svd::Interrupt::builder,
    from: |m| lower_int(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower_int),
    lift: lift_int,
    blank: Int::default,
    after: nothing,
    modified: plainly,
    rules: |_, _| {},
    norm: |m| blank_none(&mut m.desc),
};
const PROPS: Kind<Props, svd::RegisterProperties, svd::RegisterProperties> = Kind {
    word: "properties",
    items: items![No size: size ?o; No access: access ?o; No prot: prot ?o; No rval: rval ?o; No rmask: rmask ?o;],
    setters: setters![
        size(m) m.size => size;
        access(m) m.access.map(access_v) => access;
        protection(m) m.prot.map(prot_v) => prot;
        reset_value(m) m.rval => rval;
        reset_mask(m) m.rmask => rmask;
    ],
    new: svd::RegisterProperties::new,
    from: |m| lower_props(m),
    build: |b, l| b.build(l),
    modify: modify!(lower_props),
    lift: lift_props,
    blank: Props::default,
    after: nothing,
    modified: plainly,
    rules: |r, m| r.props(m),
    norm: |_| {},
};
const DEV: Kind<Dev, svd::DeviceBuilder, svd::Device> = Kind {
    word: "device",
    items: items![No vendor: vendor ?o; No vendor_id: vendor_id ?o; Yes name: name; No series: series ?o;
        Strict version: version; Strict desc: desc; No license: license ?o; No cpu: cpu ?o; No hsf: hsf ?o;
        No hdp: hdp ?o; Strict aub: aub; Strict width: width; No size: props.size ?o; No access: props.access ?o;
        No prot: props.prot ?o; No rval: props.rval ?o; No rmask: props.rmask ?o; Yes pers: pers;
        No xs: xs; No loc: loc; No schema: schema;],
    setters: setters![
        vendor(m) m.vendor.clone() => vendor;
        vendor_id(m) m.vendor_id.clone() => vendor_id;
        name(m) m.name.clone() => name;
        series(m) m.series.clone() => series;
        version(m) m.version.clone() => version;
        description(m) m.desc.clone() => desc;
        license_text(m) m.license.clone() => license;
        cpu(m) m.cpu.as_ref().map(lower_cpu) => cpu;
        header_system_filename(m) m.hsf.clone() => hsf;
        header_definitions_prefix(m) m.hdp.clone() => hdp;
        address_unit_bits(m) m.aub => aub;
        width(m) m.width => width;
        default_register_properties(m) lower_props(&m.props) => size, access, prot, rval, rmask;
        peripherals(m) m.pers.iter().map(lower_per).collect() => pers;
        xmlns_xs(m) m.xs.clone() => xs;
        no_namespace_schema_location(m) m.loc.clone() => loc;
        schema_version(m) m.schema.clone() => schema;
    ],
    new: svd::Device::builder,
    from: |m| lower(m).into(),
    build: |b, l| b.build(l),
    modify: modify!(lower),
    lift,
    blank: || Dev {
        version: "1.0".into(),
        aub: 8,
        width: 32,
        xs: XS.into(),
        loc: LOC.into(),
        schema: "1.1".into(),
        ..Dev::default()
    },
    after: nothing,
    modified: plainly,
    rules: |r, m| r.dev(m),
    norm: |m| {
        for t in [&mut m.vendor, &mut m.vendor_id, &mut m.series, &mut m.license, &mut m.hsf, &mut m.hdp] {
            blank_none(t);
        }
    },
};

const LEVELS: [ValidateLevel; 3] = [ValidateLevel::Disabled, ValidateLevel::Weak, ValidateLevel::Strict];

/// the items that are set, but blank
fn blanks<'a, M: Clone, B, T>(k: &'a Kind<M, B, T>, m: &M) -> Vec<(usize, &'a Item<M>)> {
    let mut bare = m.clone();
    (k.norm)(&mut bare);
    k.items.iter().enumerate().filter(|(_, it)| (it.some)(m) && !(it.some)(&bare)).collect()
}

fn drive<M, B, T>(k: &Kind<M, B, T>, s: &mut Src, cov: &mut Cov, mut make: impl FnMut(&mut Src) -> M) -> Out
where
    M: Clone + PartialEq + Debug,
    B: Clone + Default,
{
    cov.hit(k.word);
    let item = |n: &str| match k.items.iter().position(|i| i.name == n) {
        Some(i) => i,
        None => panic!("no item {n} of {}", k.word),
    };
    let orig = make(s);
    let blank = (k.blank)();
    let from = s.chance(1, 4);
    let mut told: Vec<bool>;
    let mut cur;
    let mut b;
    if from {
        let m = make(s);
        told = k.items.iter().map(|i| (i.some)(&m)).collect();
        b = (k.from)(&m);
        cur = m;
    } else {
        told = vec![false; k.items.len()];
        b = if s.chance(1, 4) { B::default() } else { (k.new)() };
        cur = blank.clone();
    }
    let mut log = vec![if from { format!("from {cur:?}") } else { "new".to_string() }];
    // some runs set everything in a random order, others a few items
    let mut plan: Vec<usize> = vec![];
    if s.flip() {
        plan.extend(0..k.setters.len());
        for i in (1..plan.len()).rev() {
            plan.swap(i, s.idx(i + 1));
        }
        let drop = if s.flip() { 0 } else { s.idx(3) };
        plan.truncate(plan.len().saturating_sub(drop));
    }
    for _ in 0..s.below(5) {
        plan.push(s.idx(k.setters.len()));
    }
    let one = s.opt(1, 2, |s| make(s));
    for i in plan {
        let d = match &one {
            Some(m) => m.clone(),
            None => make(s),
        };
        let st = &k.setters[i];
        b = call(st.name, || (st.set)(b, &d))?;
        for n in st.items {
            let i = item(n);
            let it = &k.items[i];
            told[i] = !st.none && (it.some)(&d);
            (it.copy)(&mut cur, if told[i] { &d } else { &blank });
        }
        (k.after)(&mut cur, &mut |n, v| {
            let i = item(n);
            if let Some(v) = v {
                told[i] = v;
            }
            told[i]
        });
        log.push(st.name.to_string());
    }
    let lvl = *s.pick(&LEVELS);
    let missing: Vec<&str> = (0..told.len())
        .filter(|i| {
            let m = k.items[*i].must;
            !told[*i] && (m == Must::Yes || m == Must::Strict && lvl == ValidateLevel::Strict)
        })
        .map(|i| k.items[i].name)
        .collect();
    let input = format!("{} at {lvl:?}: {log:?}\nset: {cur:#?}\noriginal: {orig:#?}", k.word);
    cov.input(input);
    if told.iter().filter(|t| **t).count() >= 2 {
        cov.nontrivial();
    }
    let broken = |m: &M| {
        let mut r = Rules::new(lvl);
        r.own = true;
        if lvl != ValidateLevel::Disabled {
            (k.rules)(&mut r, m);
        }
        r
    };
    // a builder is a value: building from a copy of it is the same
    let copy = b.clone();
    let mut want = cur.clone();
    let judged = broken(&want);
    let bad = judged.broken.clone();
    (k.norm)(&mut want);
    let got = call("build", || (k.build)(b, lvl))?;
    match got {
        Ok(t) => {
            ensure!(missing.is_empty(), "{} is built without {missing:?}", k.word);
            ensure!(bad.is_empty(), "{} is built although it breaks {bad:?}", k.word);
            let mut got = (k.lift)(&t);
            if !matches!(k.word, "interrupt" | "register" | "device") {
                for (_, it) in blanks(k, &cur).into_iter().filter(|(i, _)| told[*i]) {
                    ensure!(!(it.some)(&got), "{} built with a blank {} has one", k.word, it.name);
                    cov.hit("blank is absent");
                }
            }
            (k.norm)(&mut got);
            ensure!(got == want, "{} built by {log:?} {}", k.word, diff(&want, &got));
            cov.hit("built");
        }
        Err(e) => {
            ensure!(
                !missing.is_empty() || !bad.is_empty(),
                "{} with all mandatory items that keeps all rules is refused: {e}",
                k.word
            );
            if let SvdError::Build(svd::BuildError::Uninitialized(n)) = &e {
                // the error names a setting that is missing
                let plain = |t: &str| t.replace('_', "").to_lowercase();
                ensure!(
                    k.setters
                        .iter()
                        .any(|st| st.items.iter().any(|i| missing.contains(i)) && plain(st.name) == plain(n)),
                    "{} without {missing:?} is refused with: {e}",
                    k.word
                );
            }
            ensure!(
                judged.named(&e) || !missing.is_empty() && matches!(e, SvdError::Build(_)),
                "{} that breaks {bad:?} and misses {missing:?} is refused with {e:?}",
                k.word
            );
            cov.hit(if missing.is_empty() { "refused: rule" } else { "refused: missing" });
        }
    }
    // modification
    let mut want = orig.clone();
    for (i, it) in k.items.iter().enumerate() {
        if told[i] {
            (it.copy)(&mut want, &cur);
        }
    }
    (k.modified)(&mut want, &orig, &|n| told[item(n)]);
    let as_is = broken(&want);
    let judged = {
        let mut m = want.clone();
        (k.norm)(&mut m);
        broken(&m)
    };
    let bad = &judged.broken;
    // a blank text left over in the original is judged as it is
    let doubt = bad.is_empty() != as_is.broken.is_empty();
    (k.norm)(&mut want);
    match call("modify_from", || (k.modify)(&orig, copy, lvl))? {
        Ok(t) => {
            ensure!(bad.is_empty() || doubt, "a modification of {} breaks {bad:?} unnoticed", k.word);
            let mut got = (k.lift)(&t);
            // setting an optional text or list to blank removes it
            if k.word != "interrupt" {
                for (_, it) in blanks(k, &cur).into_iter().filter(|(i, _)| told[*i]) {
                    ensure!(!(it.some)(&got), "{}: a modification with a blank {} leaves one", k.word, it.name);
                    cov.hit("blank removes");
                }
            }
            (k.norm)(&mut got);
            if got != want {
                // what a modification that sets a derivation does to the read action is left open
                let mut alt = want.clone();
                if let Some(i) = k.items.iter().position(|i| i.name == "ra") {
                    if told[i] && told[item("derived")] {
                        (k.items[i].copy)(&mut alt, &cur);
                    }
                }
                ensure!(got == alt, "{} modified by {log:?} {}", k.word, diff(&want, &got));
            }
            cov.hit("modified");
        }
        Err(e) => {
            ensure!(
                !bad.is_empty() || doubt,
                "a modification of {} that keeps all rules is refused: {e}",
                k.word
            );
            ensure!(
                judged.named(&e) || as_is.named(&e),
                "a modification of {} that breaks {bad:?} is refused with {e:?}",
                k.word
            );
            cov.hit("modification refused");
        }
    }
    Ok(())
}

fn blank_some(s: &mut Src, t: &mut Option<String>) {
    if s.chance(1, 12) {
        *t = Some(String::new());
    }
}

/// an element made single or an array keeps its content
fn shapes(s: &mut Src, cov: &mut Cov, g: &G) -> Out {
    let mut u = Default::default();
    macro_rules! kind {
        ($word:literal, $m:expr, $lower:ident, $lift:ident) => {{
            let m = $m;
            let d = dim(s, g, 4);
            cov.input(format!("{m:?} {d:?}"));
            cov.nontrivial();
            let mut want = m.clone();
            for with in [false, true] {
                want.dim = if with { Some(d.clone()) } else { None };
                let x = $lower(&m);
                let e = lower_dim(&d);
                let a = call($word, || if with { x.clone().array(e.clone()) } else { x.clone().single() })?;
                let b = call($word, || x.clone().maybe_array(if with { Some(e.clone()) } else { None }))?;
                ensure!($lift(&a) == want, "{} made {} {}", $word, if with { "an array" } else { "single" }, diff(&want, &$lift(&a)));
                ensure!($lift(&b) == want, "{} made by maybe_array {}", $word, diff(&want, &$lift(&b)));
                ensure!(a.is_array() == with && a.is_single() != with, "{}: is_array and is_single", $word);
            }
            cov.hit("single or array");
        }};
    }
    match s.below(4) {
        0 => kind!("field", field(s, g, &mut u), lower_field_info, lift_field),
        1 => kind!("register", reg(s, g, &mut u), lower_reg_info, lift_reg),
        2 => kind!("cluster", clu(s, g, 1, &mut u), lower_clu_info, lift_clu),
        _ => kind!("peripheral", per(s, g, &mut u), lower_per_info, lift_per),
    }
    Ok(())
}

fn p20(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.small = true;
    g.derive = true;
    let g = &g;
    if s.chance(1, 16) {
        return shapes(s, cov, g);
    }
    match s.below(12) {
        0 | 1 => drive(&FIELD, s, cov, |s| {
            let mut m = field(s, g, &mut Default::default());
            m.dim = None;
            blank_some(s, &mut m.desc);
            match s.below(16) {
                0 => m.width = 0,
                1 => m.evs.clear(),
                2 => m.wc = Some(Wc::Range(s.below(8), s.below(8))),
                3 => m.width = 60 + s.below(8) as u32,
                4 => m.name = "1bad".into(),
                _ => (),
            }
            if s.flip() {
                m.derived = None;
            }
            m
        }),
        2 | 3 => drive(&REG, s, cov, |s| {
            let mut m = reg(s, g, &mut Default::default());
            m.dim = None;
            blank_some(s, &mut m.desc);
            blank_some(s, &mut m.display);
            blank_some(s, &mut m.alt_group);
            blank_some(s, &mut m.alt_reg);
            match s.below(16) {
                0 => m.fields = Some(vec![]),
                1 => m.alt_group = Some("a b".into()),
                2 => m.alt_reg = Some("1".into()),
                3 => m.name = "a-b".into(),
                4 => m.props = props(s, g),
                _ => (),
            }
            if s.flip() {
                m.derived = None;
            }
            m
        }),
        4 => drive(&CLU, s, cov, |s| {
            let mut m = clu(s, g, 1, &mut Default::default());
            m.dim = None;
            blank_some(s, &mut m.desc);
            blank_some(s, &mut m.alt);
            blank_some(s, &mut m.hdr);
            match s.below(12) {
                0 => m.children.clear(),
                1 => m.name = "".into(),
                _ => (),
            }
            if s.flip() {
                m.derived = None;
            }
            m
        }),
        5 => drive(&PER, s, cov, |s| {
            let mut m = per(s, g, &mut Default::default());
            m.dim = None;
            for t in [
                &mut m.display, &mut m.version, &mut m.desc, &mut m.alt, &mut m.group, &mut m.prepend, &mut m.append,
                &mut m.hdr,
            ] {
                blank_some(s, t);
            }
            match s.below(12) {
                0 => m.regs = Some(vec![]),
                1 => m.name = "a b".into(),
                2 => m.abs = Some(vec![]),
                _ => (),
            }
            if s.flip() {
                m.derived = None;
            }
            m
        }),
        6 => drive(&CPU, s, cov, |s| cpu(s, g)),
        7 => drive(&EV, s, cov, |s| {
            let mut m = ev(s, g, 8, &mut Default::default());
            blank_some(s, &mut m.desc);
            match s.below(10) {
                0 => m.value = None,
                1 => m.is_default = Some(s.flip()),
                2 => m.name = "a.b".into(),
                _ => (),
            }
            m
        }),
        8 => drive(&EVS, s, cov, |s| {
            let mut m = evs(s, g, 8, None, &mut Default::default());
            blank_some(s, &mut m.name);
            match s.below(10) {
                0 => m.values.clear(),
                1 => m.name = Some("a b".into()),
                2 => m.usage = Some(kw(s, USAGE)),
                _ => (),
            }
            m
        }),
        9 => drive(&DIM, s, cov, |s| {
            let mut m = dim(s, g, 5);
            blank_some(s, &mut m.name);
            if s.chance(1, 12) {
                m.index = Some(vec![]);
            }
            m
        }),
        10 => match s.below(3) {
            0 => drive(&AB, s, cov, |s| ab(s, g)),
            1 => drive(&INT, s, cov, |s| {
                let mut m = int(s, g, &mut Default::default());
                blank_some(s, &mut m.desc);
                m
            }),
            _ => drive(&PROPS, s, cov, |s| {
                let mut m = props(s, g);
                match s.below(6) {
                    0 => m.size = Some(1 + s.below(70) as u32),
                    1 => m.rval = Some(s.num(64)),
                    2 => m.rmask = Some(s.num(64)),
                    3 => m.prot = Some(kw(s, PROT)),
                    _ => (),
                }
                m
            }),
        },
        _ => drive(&DEV, s, cov, |s| {
            let mut m = dev(s, g);
            for t in [&mut m.vendor, &mut m.vendor_id, &mut m.series, &mut m.license, &mut m.hsf, &mut m.hdp] {
                blank_some(s, t);
            }
            if s.chance(1, 12) {
                m.pers.clear();
            }
            m
        }),
    }
}

pub const P20: Prop = Prop {
    id: "P20",
    title: "Builders and modification set exactly what they are told",
    rule: "at least two items are set",
    quick: 400_000,
    thorough: 20_000_000,
    case: p20,
    directed: &[],
    assumptions: &["a text or list set to blank counts as absent", "the element is compared only if the modification succeeds"],
};

// ------------------------------------------------------------------ P21

fn names_in(d: &Dev, out: &mut Vec<String>) {
    fn rcs(v: &[Rc], out: &mut Vec<String>) {
        for k in v {
            out.push(k.name().to_string());
            match k {
                Rc::R(r) => {
                    for f in r.fields.iter().flatten() {
                        out.push(f.name.clone());
                        for e in &f.evs {
                            out.extend(e.values.iter().map(|v| v.name.clone()));
                        }
                    }
                }
                Rc::C(c) => rcs(&c.children, out),
            }
        }
    }
    for p in &d.pers {
        out.push(p.name.clone());
        out.extend(p.ints.iter().map(|i| i.name.clone()));
        rcs(p.regs.as_deref().unwrap_or(&[]), out);
    }
}
/// give some elements the name of another one
fn twins(s: &mut Src, d: &mut Dev, pool: &[String]) {
    fn rename(s: &mut Src, n: &mut String, pool: &[String]) {
        if s.chance(1, 4) && !pool.is_empty() {
            *n = s.pick(pool).clone();
        }
    }
    fn rcs(s: &mut Src, v: &mut [Rc], pool: &[String]) {
        for k in v {
            match k {
                Rc::R(r) => {
                    rename(s, &mut r.name, pool);
                    for f in r.fields.iter_mut().flatten() {
                        rename(s, &mut f.name, pool);
                        for v in f.evs.iter_mut().flat_map(|e| &mut e.values) {
                            rename(s, &mut v.name, pool);
                        }
                    }
                }
                Rc::C(c) => {
                    rename(s, &mut c.name, pool);
                    rcs(s, &mut c.children, pool);
                }
            }
        }
    }
    for p in &mut d.pers {
        rename(s, &mut p.name, pool);
        for i in &mut p.ints {
            rename(s, &mut i.name, pool);
        }
        rcs(s, p.regs.as_deref_mut().unwrap_or(&mut []), pool);
    }
}

fn same<T>(what: &str, want: &[&T], got: &[&T]) -> Out {
    ensure!(want.len() == got.len(), "{what}: {} elements instead of {}", got.len(), want.len());
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        ensure!(std::ptr::eq(*a, *b), "{what}: element {i} is another one");
    }
    Ok(())
}
fn one<T>(what: &str, want: Option<&T>, got: Option<&T>) -> Out {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) if std::ptr::eq(a, b) => Ok(()),
        (Some(_), Some(_)) => fail!("{what} finds another element than the first of that name"),
        (Some(_), None) => fail!("{what} does not find the element"),
        (None, Some(_)) => fail!("{what} finds an element that is not there"),
    }
}
fn regs_of(v: &[svd::RegisterCluster]) -> Vec<&svd::Register> {
    let mut out = vec![];
    for k in v {
        if let svd::RegisterCluster::Register(r) = k {
            out.push(r);
        }
    }
    out
}
fn clus_of(v: &[svd::RegisterCluster]) -> Vec<&svd::Cluster> {
    let mut out = vec![];
    for k in v {
        if let svd::RegisterCluster::Cluster(c) = k {
            out.push(c);
        }
    }
    out
}
fn all_of<'a>(v: &'a [svd::RegisterCluster], out: &mut Vec<&'a svd::Register>) {
    for k in v {
        match k {
            svd::RegisterCluster::Register(r) => out.push(r),
            svd::RegisterCluster::Cluster(c) => all_of(&c.children, out),
        }
    }
}
/// an iterator goes on saying that it ended
fn drained<T>(what: &str, mut it: impl Iterator<Item = T>) -> Out {
    while it.next().is_some() {}
    ensure!(it.next().is_none() && it.next().is_none(), "{what}: the iterator starts again after its end");
    Ok(())
}

macro_rules! holder {
    ($w:expr, $x:expr, $list:expr, $pool:expr, $s:expr, $cov:expr) => {{
        let (x, list) = ($x, $list);
        let regs = regs_of(list);
        let clus = clus_of(list);
        let mut all = vec![];
        all_of(list, &mut all);
        same(&format!("registers of {}", $w), &regs, &call("registers", || x.registers().collect::<Vec<_>>())?)?;
        same(&format!("clusters of {}", $w), &clus, &call("clusters", || x.clusters().collect::<Vec<_>>())?)?;
        same(&format!("all_registers of {}", $w), &all, &call("all_registers", || x.all_registers().collect::<Vec<_>>())?)?;
        #[allow(deprecated)]
        same(&format!("reg_iter of {}", $w), &all, &call("reg_iter", || x.reg_iter().collect::<Vec<_>>())?)?;
        ensure!(call("count", || x.all_registers().count())? == all.len(), "count of all registers of {}", $w);
        drained("registers", x.registers())?;
        drained("clusters", x.clusters())?;
        drained("all_registers", x.all_registers())?;
        if !all.is_empty() {
            let i = $s.idx(all.len());
            one("all_registers().nth", Some(all[i]), x.all_registers().nth(i))?;
            one("all_registers().skip", all.get(i + 1).copied(), x.all_registers().skip(i).nth(1))?;
        }
        for n in $pool {
            one(
                &format!("get_register({n:?}) of {}", $w),
                regs.iter().copied().find(|r| r.name == *n),
                call("get_register", || x.get_register(n))?,
            )?;
            one(
                &format!("get_cluster({n:?}) of {}", $w),
                clus.iter().copied().find(|r| r.name == *n),
                call("get_cluster", || x.get_cluster(n))?,
            )?;
        }
        $cov.hit_if(!clus.is_empty() && !regs.is_empty(), "registers beside clusters");
        $cov.hit_if(regs.len() != all.len(), "registers in nested clusters");
    }};
}

/// what the name and description traits say, directly and through references
fn called<T: svd::Name + svd::Description + Clone>(what: &str, t: &T, name: &str, desc: Option<&str>) -> Out {
    ensure!(t.name() == name && t.description() == desc, "name and description of {what}");
    fn of<T: svd::Name + svd::Description>(t: T) -> (String, Option<String>) {
        (t.name().to_string(), t.description().map(String::from))
    }
    let want = (name.to_string(), desc.map(String::from));
    ensure!(of(t) == want && of(&mut t.clone()) == want, "name and description of {what} through a reference");
    Ok(())
}
fn look_rcs(s: &mut Src, cov: &mut Cov, v: &[svd::RegisterCluster], m: &[Rc], pool: &[String]) -> Out {
    for (k, m) in v.iter().zip(m) {
        ensure!(k.name() == m.name(), "name of a register or cluster");
        ensure!(k.address_offset() == m.off(), "address_offset of a register or cluster");
        ensure!(k.derived_from() == m.derived(), "derived_from of a register or cluster");
        match (k, m) {
            (svd::RegisterCluster::Register(r), Rc::R(m)) => {
                ensure!(*k.description() == m.desc, "description of a register");
                called("a register", r, &m.name, m.desc.as_deref())?;
                called("the plain part of a register", &**r, &m.name, m.desc.as_deref())?;
                ensure!(r.is_array() == m.dim.is_some() && r.is_single() != r.is_array(), "array nature of a register");
                let fields: Vec<&svd::Field> = match &r.fields {
                    Some(v) => v.iter().collect(),
                    None => vec![],
                };
                same("fields of a register", &fields, &call("fields", || r.fields().collect::<Vec<_>>())?)?;
                for n in pool {
                    one(
                        &format!("get_field({n:?})"),
                        fields.iter().copied().find(|f| f.name == *n),
                        call("get_field", || r.get_field(n))?,
                    )?;
                }
                for (f, m) in fields.into_iter().zip(m.fields.iter().flatten()) {
                    called("a field", f, &m.name, m.desc.as_deref())?;
                    called("the plain part of a field", &**f, &m.name, m.desc.as_deref())?;
                    let evs = &f.enumerated_values;
                    for (e, m) in evs.iter().zip(&m.evs) {
                        for (e, m) in e.values.iter().zip(&m.values) {
                            called("an enumerated value", e, &m.name, m.desc.as_deref())?;
                        }
                    }
                    for u in USAGE {
                        let want = evs.iter().find(|e| e.derived_from.is_none() && e.usage.map(usage_s).unwrap_or("read-write") == *u);
                        let want = if evs.len() <= 2 { want } else { None };
                        one(
                            &format!("get_enumerated_values({u})"),
                            want,
                            call("get_enumerated_values", || f.get_enumerated_values(usage_v(u)))?,
                        )?;
                        cov.hit_if(want.is_some(), "enumerated values by usage");
                    }
                    for e in evs {
                        for n in pool {
                            one(
                                &format!("get_value({n:?})"),
                                e.values.iter().find(|v| v.name == *n),
                                call("get_value", || e.get_value(n))?,
                            )?;
                        }
                        let want = e.values.iter().find(|v| v.is_default == Some(true));
                        one("default_value", want, call("default_value", || e.default_value())?)?;
                        cov.hit_if(want.is_some(), "default enumerated value");
                    }
                }
            }
            (svd::RegisterCluster::Cluster(c), Rc::C(m)) => {
                ensure!(*k.description() == m.desc, "description of a cluster");
                called("a cluster", c, &m.name, m.desc.as_deref())?;
                called("the plain part of a cluster", &**c, &m.name, m.desc.as_deref())?;
                ensure!(c.is_array() == m.dim.is_some(), "array nature of a cluster");
                holder!("a cluster", c, &c.children, pool, s, cov);
                look_rcs(s, cov, &c.children, &m.children, pool)?;
            }
            _ => fail!("registers and clusters are mixed up"),
        }
    }
    Ok(())
}
/// what may follow the start of a core's name
fn core(s: &mut Src) -> String {
    match s.below(4) {
        0 => String::new(),
        1 => ident(s, &mut Used::new()),
        2 if !literals().words.is_empty() => s.pick(&literals().words).clone(),
        _ => s.pick(&["4", "33", "x", "X", "é", "+", " 7", "CM", "m", "0PLUS"]).to_string(),
    }
}
fn look(s: &mut Src, cov: &mut Cov, v: &svd::Device, d: &Dev, pool: &[String]) -> Out {
    called("the device", v, &d.name, Some(&d.desc))?;
    for n in pool {
        one(
            &format!("get_peripheral({n:?})"),
            v.peripherals.iter().find(|p| p.name == *n),
            call("get_peripheral", || v.get_peripheral(n))?,
        )?;
    }
    if let (Some(c), Some(m)) = (&v.cpu, &d.cpu) {
        // the names of the Cortex-M cores, and of no others, start with CM
        let is = |n: &str| n.as_bytes().get(..2) == Some(b"CM");
        ensure!(c.is_cortex_m() == is(&m.name), "is_cortex_m of {:?} is {}", m.name, !is(&m.name));
        let mut c = c.clone();
        c.name = format!("{}{}", s.pick(&["CM", "CM", "Cm", "C", "", "", " CM"]), core(s));
        ensure!(c.is_cortex_m() == is(&c.name), "is_cortex_m of {:?} is {}", c.name, !is(&c.name));
    }
    for (p, m) in v.peripherals.iter().zip(&d.pers) {
        let list = p.registers.as_deref().unwrap_or(&[]);
        ensure!(p.is_array() == m.dim.is_some(), "array nature of a peripheral");
        called("a peripheral", p, &m.name, m.desc.as_deref())?;
        called("the plain part of a peripheral", &**p, &m.name, m.desc.as_deref())?;
        for (i, m) in p.interrupt.iter().zip(&m.ints) {
            called("an interrupt", i, &m.name, m.desc.as_deref())?;
        }
        holder!("a peripheral", p, list, pool, s, cov);
        for n in pool {
            one(
                &format!("get_interrupt({n:?})"),
                p.interrupt.iter().find(|i| i.name == *n),
                call("get_interrupt", || p.get_interrupt(n))?,
            )?;
        }
        look_rcs(s, cov, list, m.regs.as_deref().unwrap_or(&[]), pool)?;
    }
    Ok(())
}

/// one change through mutable access, made to the model by a plain search as well
fn poke(s: &mut Src, cov: &mut Cov, v: &mut svd::Device, d: &mut Dev, pool: &[String]) -> Out {
    let tag = format!("t{}", s.below(1000));
    let n = s.pick(pool).clone();
    let pn = s.pick(&d.pers).name.clone();
    // the peripheral, by mutable lookup
    if s.chance(1, 8) {
        if let Some(p) = call("get_mut_peripheral", || v.get_mut_peripheral(&n))? {
            p.description = Some(tag.clone());
        }
        if let Some(p) = d.pers.iter_mut().find(|p| p.name == n) {
            p.desc = Some(tag);
            cov.hit("peripheral changed");
        }
        return Ok(());
    }
    let Some(p) = call("get_mut_peripheral", || v.get_mut_peripheral(&pn))? else {
        fail!("get_mut_peripheral({pn:?}) finds nothing")
    };
    let Some(m) = d.pers.iter_mut().find(|p| p.name == pn) else { return Ok(()) };
    if s.chance(1, 8) {
        if let Some(i) = call("get_mut_interrupt", || p.get_mut_interrupt(&n))? {
            i.value = 77;
        }
        if let Some(i) = m.ints.iter_mut().find(|i| i.name == n) {
            i.value = 77;
            cov.hit("interrupt changed");
        }
        return Ok(());
    }
    // down to a random holder of registers, by index in the model, by name in the code if unique
    enum At<'a> {
        P(&'a mut svd::Peripheral),
        C(&'a mut svd::Cluster),
    }
    let mut at = At::P(p);
    let mut list: &mut Vec<Rc> = match &mut m.regs {
        Some(l) => l,
        None => {
            let At::P(p) = at else { return Ok(()) };
            ensure!(p.registers_mut().next().is_none(), "registers_mut of a peripheral without registers");
            ensure!(p.clusters_mut().next().is_none(), "clusters_mut of a peripheral without registers");
            ensure!(p.all_registers_mut().next().is_none(), "all_registers_mut of a peripheral without registers");
            return Ok(());
        }
    };
    while s.chance(2, 3) {
        let cs: Vec<usize> = (0..list.len()).filter(|i| matches!(list[*i], Rc::C(_))).collect();
        if cs.is_empty() {
            break;
        }
        let k = s.idx(cs.len());
        let by_name = s.flip();
        let name = list[cs[k]].name().to_string();
        // the first cluster of that name, or the k-th
        let i = if by_name {
            match cs.iter().find(|i| list[**i].name() == name) {
                Some(i) => *i,
                None => cs[k],
            }
        } else {
            cs[k]
        };
        let next = match at {
            At::P(p) if by_name => call("get_mut_cluster", move || p.get_mut_cluster(&name))?,
            At::C(c) if by_name => call("get_mut_cluster", move || c.get_mut_cluster(&name))?,
            At::P(p) => call("clusters_mut", move || p.clusters_mut().nth(k))?,
            At::C(c) => call("clusters_mut", move || c.clusters_mut().nth(k))?,
        };
        let Some(c) = next else { fail!("a cluster is not found by mutable access") };
        at = At::C(c);
        let Rc::C(c) = &mut list[i] else { return Ok(()) };
        list = &mut c.children;
        cov.hit("down into a cluster");
    }
    let n = if s.flip() && !list.is_empty() { s.pick(list).name().to_string() } else { n };
    macro_rules! both {
        ($x:ident => $e:expr) => {
            match at {
                At::P($x) => $e,
                At::C($x) => $e,
            }
        };
    }
    fn every(v: &mut [Rc], f: &mut dyn FnMut(&mut Reg)) {
        for k in v {
            match k {
                Rc::R(r) => f(r),
                Rc::C(c) => every(&mut c.children, f),
            }
        }
    }
    match s.below(7) {
        0 => {
            let mut i = 0;
            call("registers_mut", || {
                both!(x => for r in x.registers_mut() {
                    r.display_name = Some(format!("{tag}{i}"));
                    i += 1;
                })
            })?;
            let mut i = 0;
            for k in list {
                if let Rc::R(r) = k {
                    r.display = Some(format!("{tag}{i}"));
                    i += 1;
                }
            }
            cov.hit_if(i > 0, "all registers changed");
        }
        1 => {
            let mut i = 0;
            call("clusters_mut", || {
                both!(x => for c in x.clusters_mut() {
                    c.header_struct_name = Some(format!("{tag}{i}"));
                    i += 1;
                })
            })?;
            let mut i = 0;
            for k in list {
                if let Rc::C(r) = k {
                    r.hdr = Some(format!("{tag}{i}"));
                    i += 1;
                }
            }
            cov.hit_if(i > 0, "all clusters changed");
        }
        2 => {
            let mut i = 0;
            let old = s.flip();
            call("all_registers_mut", || {
                both!(x => {
                    #[allow(deprecated)]
                    let it = if old { x.reg_iter_mut() } else { x.all_registers_mut() };
                    for r in it {
                        r.alternate_group = Some(format!("{tag}{i}"));
                        i += 1;
                    }
                })
            })?;
            let mut i = 0;
            every(list, &mut |r| {
                r.alt_group = Some(format!("{tag}{i}"));
                i += 1;
            });
            cov.hit_if(i > 0, "all registers below changed");
        }
        3 => {
            let x = call("get_mut_register", || both!(x => x.get_mut_register(&n)))?;
            if let Some(r) = x {
                r.description = Some(tag.clone());
            }
            for k in list {
                if let Rc::R(r) = k {
                    if r.name == n {
                        r.desc = Some(tag);
                        cov.hit("register changed");
                        break;
                    }
                }
            }
        }
        4 => {
            let x = call("get_mut_cluster", || both!(x => x.get_mut_cluster(&n)))?;
            if let Some(r) = x {
                r.description = Some(tag.clone());
            }
            for k in list {
                if let Rc::C(r) = k {
                    if r.name == n {
                        r.desc = Some(tag);
                        cov.hit("cluster changed");
                        break;
                    }
                }
            }
        }
        5 => {
            // the k-th of all registers, and its fields
            let mut count = 0;
            every(list, &mut |_| count += 1);
            if count == 0 {
                return Ok(());
            }
            let k = s.idx(count);
            let x = call("all_registers_mut", || both!(x => x.all_registers_mut().nth(k)))?;
            let Some(r) = x else { fail!("all_registers_mut does not reach register {k} of {count}") };
            let mut i = 0;
            for f in call("fields_mut", || r.fields_mut())? {
                f.description = Some(format!("{tag}{i}"));
                i += 1;
            }
            let mut at = 0;
            every(list, &mut |r| {
                if at == k {
                    for (i, f) in r.fields.iter_mut().flatten().enumerate() {
                        f.desc = Some(format!("{tag}{i}"));
                    }
                }
                at += 1;
            });
            cov.hit_if(i > 0, "all fields changed");
        }
        _ => {
            // a field by name, its enumerated values by usage, a value by name
            let mut count = 0;
            every(list, &mut |_| count += 1);
            if count == 0 {
                return Ok(());
            }
            let k = s.idx(count);
            let u = kw(s, USAGE);
            let x = call("all_registers_mut", || both!(x => x.all_registers_mut().nth(k)))?;
            let Some(r) = x else { fail!("all_registers_mut does not reach register {k} of {count}") };
            let mut names: Vec<String> = vec![n.clone()];
            names.extend(r.fields.iter().flatten().map(|f| f.name.clone()));
            let fname = s.pick(&names).clone();
            let mut vname = n.clone();
            if let Some(f) = call("get_mut_field", || r.get_mut_field(&fname))? {
                f.read_action = Some(svd::ReadAction::Set);
                if let Some(e) = call("get_mut_enumerated_values", || f.get_mut_enumerated_values(usage_v(u)))? {
                    e.name = Some(tag.clone());
                    if let Some(v) = e.values.last() {
                        vname = v.name.clone();
                    }
                    if let Some(v) = call("get_mut_value", || e.get_mut_value(&vname))? {
                        v.description = Some(tag.clone());
                    }
                }
            }
            let mut at = 0;
            let mut deep = 0;
            every(list, &mut |r| {
                if at == k {
                    if let Some(f) = r.fields.iter_mut().flatten().find(|f| f.name == fname) {
                        deep = 1;
                        f.ra = Some("set");
                        if f.evs.len() <= 2 {
                            let e = f.evs.iter_mut().find(|e| e.derived.is_none() && e.usage.unwrap_or("read-write") == u);
                            if let Some(e) = e {
                                e.name = Some(tag.clone());
                                if let Some(v) = e.values.iter_mut().find(|v| v.name == vname) {
                                    v.desc = Some(tag.clone());
                                    deep = 2;
                                }
                            }
                        }
                    }
                }
                at += 1;
            });
            cov.hit_if(deep > 0, "field changed");
            cov.hit_if(deep > 1, "enumerated value changed");
        }
    }
    Ok(())
}

fn p21(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.derive = true;
    let mut d = dev(s, &g);
    if d.pers.is_empty() {
        return Ok(());
    }
    let mut pool = vec![];
    names_in(&d, &mut pool);
    twins(s, &mut d, &pool);
    // lookups go for a few names: existing ones, parts of them, paths, and strangers
    let mut all = vec![];
    names_in(&d, &mut all);
    let mut names: Vec<String> = vec![];
    for _ in 0..12 {
        let n = s.pick(&all).clone();
        names.push(match s.below(10) {
            0 => format!("{n}.{}", s.pick(&all)),
            1 => n.to_lowercase(),
            2 => format!("{n}x"),
            3 => n.replace("%s", "0").replace("[0]", "0"),
            4 => n.chars().take(1).collect(),
            _ => n,
        });
    }
    names.push(String::new());
    cov.input(format!("{names:?}\n{}", link_input(&d)));
    let h = classify(&d, cov);
    if h.regs > 1 {
        cov.nontrivial();
    }
    let mut v = lower(&d);
    look(s, cov, &v, &d, &names)?;
    let mut pool = names;
    for n in &all {
        pool.push(n.clone());
    }
    for _ in 0..1 + s.below(4) {
        poke(s, cov, &mut v, &mut d, &pool)?;
        let got = lift(&v);
        ensure!(got == d, "after a change through mutable access {}", diff(&d, &got));
        cov.sub("change", true);
    }
    let few: Vec<String> = pool.iter().take(6).cloned().collect();
    look(s, cov, &v, &d, &few)
}

/// Iterators and lookups pass over long runs of the other kind
fn long_runs() -> Out {
    super::fuzz::on_thread_stack(|| {
        let n = 200_000u32;
        let lvl = svd::ValidateLevel::Disabled;
        let reg = |name: &str, i: u32| {
            svd::RegisterInfo::builder().name(name.into()).address_offset(i).build(lvl).unwrap().single()
        };
        let clu = |name: &str, i: u32, v: Vec<svd::RegisterCluster>| {
            svd::ClusterInfo::builder().name(name.into()).address_offset(i).children(v).build(lvl).unwrap().single()
        };
        for few_regs in [true, false] {
            let mut v: Vec<svd::RegisterCluster> = vec![];
            for i in 0..n {
                let odd = i == n / 2 || i == n - 1;
                v.push(if few_regs == odd { reg("R", i).into() } else { clu("C", i, vec![]).into() });
            }
            let want = if few_regs { (2, n as usize - 2) } else { (n as usize - 2, 2) };
            let mut p = svd::PeripheralInfo::builder()
                .name("P".into())
                .base_address(0)
                .registers(Some(v.clone()))
                .build(lvl)
                .unwrap()
                .single();
            let mut c = clu("T", 0, v);
            macro_rules! all {
                ($x:expr) => {{
                    let x = &mut $x;
                    let got = (x.registers().count(), x.clusters().count());
                    ensure!(got == want, "registers and clusters counted {got:?} instead of {want:?}");
                    let got = (x.registers_mut().count(), x.clusters_mut().count());
                    ensure!(got == want, "registers and clusters counted {got:?} instead of {want:?} (mutable)");
                    let got = (x.all_registers().count(), x.all_registers_mut().count());
                    ensure!(got == (want.0, want.0), "all registers counted {got:?} instead of {}", want.0);
                    ensure!(x.get_register("R").is_some() && x.get_cluster("C").is_some(), "lookup in a long list");
                    ensure!(x.get_register("X").is_none() && x.get_cluster("X").is_none(), "lookup in a long list");
                    ensure!(x.get_mut_register("R").is_some() && x.get_mut_cluster("C").is_some(), "lookup in a long list");
                }};
            }
            all!(p);
            all!(c);
        }
        Ok(())
    })
}

pub const P21: Prop = Prop {
    id: "P21",
    title: "Lookups and iterators agree with a plain search",
    rule: "the device has at least two registers; every change is counted on its own",
    quick: 200_000,
    thorough: 10_000_000,
    case: p21,
    directed: &[Directed { name: "long-runs", run: long_runs }],
    assumptions: &["of several elements of equal name the first is found"],
};
