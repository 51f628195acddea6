//! The encoder: P04 number formats, P05 sorting, P07 schema order, P23 textual configuration
use super::doc::*;
use super::num::{ref_num, sample};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::xml::*;
use crate::{ensure, fail};
use svd_encoder::{Config, DerivableSorting, IdentifierFormat, NumberFormat, RcSorting, Sorting};
use svd_parser::svd::ValidateLevel;

pub const NF: [(&str, NumberFormat); 8] = [
    ("UpperHex", NumberFormat::UpperHex),
    ("UpperHex8", NumberFormat::UpperHex8),
    ("UpperHex16", NumberFormat::UpperHex16),
    ("LowerHex", NumberFormat::LowerHex),
    ("LowerHex8", NumberFormat::LowerHex8),
    ("LowerHex16", NumberFormat::LowerHex16),
    ("Dec", NumberFormat::Dec),
    ("Bin", NumberFormat::Bin),
];
pub fn ref_format(v: u64, f: &str) -> String {
    let (up, w) = match f {
        "Dec" => return v.to_string(),
        "Bin" => return format!("0b{v:b}"),
        "UpperHex" => (true, 0),
        "LowerHex" => (false, 0),
        "UpperHex8" => (true, 8),
        "LowerHex8" => (false, 8),
        "UpperHex16" => (true, if v > 0xffff_ffff { 16 } else { 8 }),
        "LowerHex16" => (false, if v > 0xffff_ffff { 16 } else { 8 }),
        _ => panic!("format {f}"),
    };
    if up {
        format!("0x{v:0w$X}")
    } else {
        format!("0x{v:0w$x}")
    }
}

/// (option name, default format)
pub const NUMS: [(&str, &str); 12] = [
    ("peripheral_base_address", "UpperHex8"),
    ("address_block_offset", "UpperHex"),
    ("address_block_size", "UpperHex"),
    ("cluster_address_offset", "UpperHex"),
    ("register_address_offset", "UpperHex"),
    ("register_size", "LowerHex"),
    ("register_reset_value", "UpperHex16"),
    ("register_reset_mask", "UpperHex16"),
    ("enumerated_value_value", "Dec"),
    ("dim_dim", "Dec"),
    ("dim_increment", "UpperHex"),
    ("", "Dec"),
];
fn num_slot<'a>(c: &'a mut Config, name: &str) -> &'a mut NumberFormat {
    match name {
        "peripheral_base_address" => &mut c.peripheral_base_address,
        "address_block_offset" => &mut c.address_block_offset,
        "address_block_size" => &mut c.address_block_size,
        "cluster_address_offset" => &mut c.cluster_address_offset,
        "register_address_offset" => &mut c.register_address_offset,
        "register_size" => &mut c.register_size,
        "register_reset_value" => &mut c.register_reset_value,
        "register_reset_mask" => &mut c.register_reset_mask,
        "enumerated_value_value" => &mut c.enumerated_value_value,
        "dim_dim" => &mut c.dim_dim,
        "dim_increment" => &mut c.dim_increment,
        _ => panic!("harness: {name}"),
    }
}
/// which option rules a number in a document; "" when none does (always decimal)
fn ruled_by(parent: &str, tag: &str) -> Option<&'static str> {
    Some(match (parent, tag) {
        ("peripheral", "baseAddress") => "peripheral_base_address",
        ("addressBlock", "offset") => "address_block_offset",
        ("addressBlock", "size") => "address_block_size",
        ("cluster", "addressOffset") => "cluster_address_offset",
        ("register", "addressOffset") => "register_address_offset",
        (_, "size") => "register_size",
        (_, "resetValue") => "register_reset_value",
        (_, "resetMask") => "register_reset_mask",
        ("enumeratedValue", "value") => "enumerated_value_value",
        (_, "dim") => "dim_dim",
        (_, "dimIncrement") => "dim_increment",
        ("interrupt", "value")
        | (_, "minimum")
        | (_, "maximum")
        | (_, "bitOffset")
        | (_, "bitWidth")
        | (_, "lsb")
        | (_, "msb")
        | (_, "addressUnitBits")
        | ("device", "width")
        | (_, "nvicPrioBits")
        | (_, "deviceNumInterrupts")
        | (_, "sauNumRegions") => "",
        _ => return None,
    })
}

pub const IDF: [(&str, IdentifierFormat); 4] = [
    ("Camel", IdentifierFormat::Camel),
    ("Pascal", IdentifierFormat::Pascal),
    ("Snake", IdentifierFormat::Snake),
    ("Constant", IdentifierFormat::Constant),
];
pub const IDS: [&str; 8] = [
    "peripheral_name",
    "interrupt_name",
    "cluster_name",
    "register_name",
    "field_name",
    "enumerated_values_name",
    "enumerated_value_name",
    "dim_array_index_header_enum_name",
];
pub fn id_slot<'a>(c: &'a mut Config, name: &str) -> &'a mut Option<IdentifierFormat> {
    match name {
        "peripheral_name" => &mut c.peripheral_name,
        "interrupt_name" => &mut c.interrupt_name,
        "cluster_name" => &mut c.cluster_name,
        "register_name" => &mut c.register_name,
        "field_name" => &mut c.field_name,
        "enumerated_values_name" => &mut c.enumerated_values_name,
        "enumerated_value_name" => &mut c.enumerated_value_name,
        "dim_array_index_header_enum_name" => &mut c.dim_array_index_header_enum_name,
        _ => panic!("harness: {name}"),
    }
}

pub const BRN: [(&str, Brt); 3] = [
    ("BitRange", Brt::Br),
    ("OffsetWidth", Brt::Ow),
    ("MsbLsb", Brt::Ml),
];

fn set_brt(d: &mut Dev, t: Brt) {
    each_reg(d, &mut |r| {
        for f in r.fields.iter_mut().flatten() {
            f.brt = t;
        }
    });
}
pub fn each_reg(d: &mut Dev, f: &mut impl FnMut(&mut Reg)) {
    fn go(v: &mut [Rc], f: &mut impl FnMut(&mut Reg)) {
        for k in v {
            match k {
                Rc::R(r) => f(r),
                Rc::C(c) => go(&mut c.children, f),
            }
        }
    }
    for p in &mut d.pers {
        if let Some(r) = &mut p.regs {
            go(r, f);
        }
    }
}

/// A random choice of number formats: the configuration and what was chosen
pub fn number_formats(s: &mut Src, c: &mut Config) -> Vec<(&'static str, &'static str)> {
    let mut out = Vec::new();
    for (name, _) in NUMS.iter().filter(|n| !n.0.is_empty()) {
        if s.chance(2, 3) {
            let (f, v) = *s.pick(&NF);
            *num_slot(c, name) = v;
            out.push((*name, f));
        }
    }
    out
}

fn p04(s: &mut Src, cov: &mut Cov) -> Out {
    let g = G::any(s);
    let d = dev(s, &g);
    let mut c = Config::default();
    let chosen = number_formats(s, &mut c);
    let br = s.opt(1, 2, |s| *s.pick(&BRN));
    if let Some((n, _)) = br {
        if s.flip() {
            quietly(|| c.update("field_bit_range", n))?;
        } else {
            c = c.field_bit_range(n.parse().ok());
        }
    } else if s.flip() {
        c = c.field_bit_range(None);
    }
    cov.input(format!("formats {chosen:?}, bit ranges {:?}\n{d:#?}", br.map(|b| b.0)));
    let h = classify(&d, cov);
    let xml = match encode_with(&lower(&d), &c) {
        Ok(x) => x,
        Err(e) => fail!("encode failed: {e}"),
    };
    cov.input(format!("formats {chosen:?}, bit ranges {:?}\n{xml}", br.map(|b| b.0)));
    let back = match parse_at(&xml, ValidateLevel::Weak) {
        Ok(v) => lift(&v),
        Err(e) => fail!("encoded document rejected: {e}"),
    };
    let mut want = d.clone();
    forget(&mut want);
    if let Some((_, t)) = br {
        set_brt(&mut want, t);
    }
    ensure!(
        back == want,
        "the device changed under {chosen:?} {}",
        diff(&want, &back)
    );
    let x = match read(&xml) {
        Ok(x) => x,
        Err(e) => fail!("not well formed: {e}"),
    };
    let mut seen = 0;
    let mut bad = None;
    numbers(&x, &mut |parent, tag, text| {
        let Some(opt) = ruled_by(parent, tag) else {
            return;
        };
        seen += 1;
        let fmt = chosen
            .iter()
            .find(|k| k.0 == opt)
            .map(|k| k.1)
            .unwrap_or_else(|| NUMS.iter().find(|n| n.0 == opt).map(|n| n.1).unwrap_or("Dec"));
        let v = match ref_num(text) {
            Some(Some(v)) => v as u64,
            _ => {
                bad.get_or_insert(format!("{parent}/{tag} is written {text:?}"));
                return;
            }
        };
        let w = ref_format(v, fmt);
        if w != text {
            bad.get_or_insert(format!("{parent}/{tag} is written {text:?}, {fmt} prescribes {w:?}"));
        }
    });
    if let Some(b) = bad {
        fail!("{b}");
    }
    if seen > 3 && h.regs > 0 {
        cov.nontrivial();
    }
    cov.hit_if(br.is_some(), "bit range notation chosen");
    Ok(())
}
fn numbers(x: &X, f: &mut impl FnMut(&str, &str, &str)) {
    for e in x.elems() {
        if e.elems().next().is_none() {
            f(&x.tag, &e.tag, &e.text());
        }
        numbers(e, f);
    }
}

pub const P04: Prop = Prop {
    id: "P04",
    title: "Number and bit range formats never change the meaning",
    rule: "a generated device with an assignment of formats to the configurable numbers; non-trivial if the device has registers and more than three numbers were compared",
    quick: 24_000,
    thorough: 1_500_000,
    case: p04,
    directed: &[],
    assumptions: &[],
};

// ------------------------------------------------------------------------- P05

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Key {
    Off,
    Rev,
    Name,
}
#[derive(Clone, Copy, Debug)]
pub struct Ds {
    pub last: bool,
    pub key: Option<Key>,
}
#[derive(Clone, Copy, Debug)]
pub struct Rs {
    /// 0 as is, 1 registers first, 2 clusters first
    pub group: u64,
    pub ds: Ds,
}
impl Ds {
    pub fn gen(s: &mut Src) -> Ds {
        Ds {
            last: s.flip(),
            key: s.opt(3, 4, |s| *s.pick(&[Key::Off, Key::Rev, Key::Name])),
        }
    }
    pub fn conf(&self) -> DerivableSorting {
        let k = self.key.map(|k| match k {
            Key::Off => Sorting::Offset,
            Key::Rev => Sorting::OffsetReversed,
            Key::Name => Sorting::Name,
        });
        if self.last {
            DerivableSorting::DeriveLast(k)
        } else {
            DerivableSorting::Unchanged(k)
        }
    }
    fn words(&self) -> Vec<&'static str> {
        let mut v = Vec::new();
        if self.last {
            v.push("DerivedLast");
        }
        match self.key {
            Some(Key::Off) => v.push("Offset"),
            Some(Key::Rev) => v.push("OffsetReversed"),
            Some(Key::Name) => v.push("Name"),
            None => {}
        }
        v
    }
    /// sort in place: an insertion of each element after all that are not greater
    fn apply<T: Clone>(
        &self,
        v: &[T],
        off: impl Fn(&T) -> u64,
        name: impl Fn(&T) -> String,
        derived: impl Fn(&T) -> bool,
    ) -> Vec<T> {
        let less = |a: &T, b: &T| -> bool {
            if self.last && derived(a) != derived(b) {
                return derived(b);
            }
            match self.key {
                None => false,
                Some(Key::Off) => off(a) < off(b),
                Some(Key::Rev) => off(a) > off(b),
                Some(Key::Name) => name(a).as_bytes() < name(b).as_bytes(),
            }
        };
        let mut out: Vec<T> = Vec::new();
        for x in v {
            let at = out.iter().position(|y| less(x, y)).unwrap_or(out.len());
            out.insert(at, x.clone());
        }
        out
    }
}
impl Rs {
    pub fn gen(s: &mut Src) -> Rs {
        Rs {
            group: s.below(3),
            ds: Ds::gen(s),
        }
    }
    pub fn conf(&self) -> RcSorting {
        let d = self.ds.conf();
        match self.group {
            0 => RcSorting::Unchanged(d),
            1 => RcSorting::RegistersFirst(d),
            _ => RcSorting::ClustersFirst(d),
        }
    }
    fn words(&self) -> Vec<&'static str> {
        let mut v = self.ds.words();
        match self.group {
            0 => {}
            1 => v.push("RegistersFirst"),
            _ => v.push("ClustersFirst"),
        }
        v
    }
    fn apply(&self, v: &[Rc]) -> Vec<Rc> {
        let sort = |v: &[Rc]| {
            self.ds.apply(
                v,
                |k| k.off() as u64,
                |k| k.name().to_string(),
                |k| k.derived().is_some(),
            )
        };
        let pick = |r: bool| -> Vec<Rc> {
            v.iter().filter(|k| matches!(k, Rc::R(_)) == r).cloned().collect()
        };
        match self.group {
            0 => sort(v),
            1 => [sort(&pick(true)), sort(&pick(false))].concat(),
            _ => [sort(&pick(false)), sort(&pick(true))].concat(),
        }
    }
}

/// Make keys collide and reach the interesting sizes
fn crowd(s: &mut Src, d: &mut Dev) {
    const N: &[&str] = &["A", "B", "a", "AA", "A_", "Z", "Ab", "b1", "b10", "b2"];
    const O: &[u32] = &[0, 4, 8, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, u32::MAX, 12, 16, 5];
    fn rename(s: &mut Src, n: &mut String, arr: bool) {
        if s.chance(2, 3) {
            *n = s.pick(N).to_string();
            if arr {
                n.push_str("%s");
            }
        }
    }
    fn go(s: &mut Src, v: &mut [Rc]) {
        for k in v {
            match k {
                Rc::R(r) => {
                    rename(s, &mut r.name, r.dim.is_some());
                    if s.chance(2, 3) {
                        r.off = *s.pick(O);
                    }
                    for f in r.fields.iter_mut().flatten() {
                        rename(s, &mut f.name, f.dim.is_some());
                        if s.chance(2, 3) {
                            f.off = s.below(4) as u32;
                        }
                    }
                }
                Rc::C(c) => {
                    rename(s, &mut c.name, c.dim.is_some());
                    if s.chance(2, 3) {
                        c.off = *s.pick(O);
                    }
                    go(s, &mut c.children);
                }
            }
        }
    }
    for p in &mut d.pers {
        rename(s, &mut p.name, p.dim.is_some());
        if s.chance(2, 3) {
            p.base = *s.pick(&[
                0u64,
                4,
                0x8000_0000,
                0xffff_ffff,
                0x1_0000_0000,
                0x7fff_ffff_ffff_ffff,
                0x8000_0000_0000_0000,
                u64::MAX,
            ]);
        }
        if let Some(r) = &mut p.regs {
            go(s, r);
        }
    }
}

fn p05(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.strict = false;
    let mut d = dev(s, &g);
    // more elements per list than the general generator makes
    if s.flip() {
        let mut used = Used::new();
        let p = s.idx(d.pers.len());
        let more = s.vec(2, 10, |s| rc(s, &g, 0, &mut used));
        if let Some(v) = &mut d.pers[p].regs {
            v.extend(more);
        }
        let mut used = Used::new();
        let more = s.vec(0, 6, |s| per(s, &g, &mut used));
        d.pers.extend(more);
    }
    crowd(s, &mut d);
    let (ps, rs, fs) = (Ds::gen(s), Rs::gen(s), Ds::gen(s));
    let mut c = Config::default();
    c.peripheral_sorting = ps.conf();
    c.register_cluster_sorting = rs.conf();
    c.field_sorting = fs.conf();
    cov.input(format!("peripherals {ps:?} registers {rs:?} fields {fs:?}\n{d:#?}"));
    let xml = match encode_with(&lower(&d), &c) {
        Ok(x) => x,
        Err(e) => fail!("encode failed: {e}"),
    };
    let got = match parse_at(&xml, ValidateLevel::Disabled) {
        Ok(v) => lift(&v),
        Err(e) => fail!("encoded document rejected: {e}"),
    };
    let mut want = d.clone();
    forget(&mut want);
    let plain = want.clone();
    each_reg(&mut want, &mut |r| {
        if let Some(v) = &mut r.fields {
            *v = fs.apply(
                v,
                |f| f.off as u64,
                |f| f.name.clone(),
                |f| f.derived.is_some() || f.evs.iter().any(|e| e.derived.is_some()),
            );
        }
    });
    for p in &mut want.pers {
        if let Some(v) = &mut p.regs {
            *v = rs.apply(v);
        }
    }
    want.pers = ps.apply(
        &want.pers,
        |p| p.base,
        |p| p.name.clone(),
        |p| p.derived.is_some(),
    );
    ensure!(
        got == want,
        "order under peripherals {ps:?} registers {rs:?} fields {fs:?} {}",
        diff(&want, &got)
    );
    if want != plain {
        cov.nontrivial();
        cov.hit("order changed");
        cov.hit_if(
            want.pers.iter().map(|p| &p.name).ne(plain.pers.iter().map(|p| &p.name)),
            "peripherals moved",
        );
    } else {
        cov.hit("order already right");
    }
    Ok(())
}
pub const P05: Prop = Prop {
    id: "P05",
    title: "Sorting options only permute, by the requested key, stably",
    rule: "a generated device with colliding names and addresses of any size and a choice of the three sorting options; non-trivial if the requested order differs from the given one",
    quick: 30_000,
    thorough: 1_500_000,
    case: p05,
    directed: &[],
    assumptions: &[],
};

// ------------------------------------------------------------------------- P07

/// children in schema order; `*` may repeat, `|` groups elements that may be mixed
fn schema(tag: &str) -> Option<(&'static [&'static str], &'static str)> {
    const PROPS: &str = "size access protection resetValue resetMask";
    let _ = PROPS;
    Some(match tag {
        "device" => (
            &["schemaVersion", "xmlns:xs", "xs:noNamespaceSchemaLocation"],
            "vendor vendorID name series version description licenseText cpu headerSystemFilename headerDefinitionsPrefix addressUnitBits width size access protection resetValue resetMask peripherals",
        ),
        "cpu" => (
            &[],
            "name revision endian mpuPresent fpuPresent fpuDP dspPresent icachePresent dcachePresent itcmPresent dtcmPresent vtorPresent nvicPrioBits vendorSystickConfig deviceNumInterrupts sauNumRegions",
        ),
        "peripherals" => (&[], "peripheral*"),
        "peripheral" => (
            &["derivedFrom"],
            "dim dimIncrement dimIndex dimName dimArrayIndex name displayName version description alternatePeripheral groupName prependToName appendToName headerStructName baseAddress size access protection resetValue resetMask addressBlock* interrupt* registers",
        ),
        "addressBlock" => (&[], "offset size usage protection"),
        "interrupt" => (&[], "name description value"),
        "registers" => (&[], "register|cluster*"),
        "cluster" => (
            &["derivedFrom"],
            "dim dimIncrement dimIndex dimName dimArrayIndex name description alternateCluster headerStructName addressOffset size access protection resetValue resetMask register|cluster*",
        ),
        "register" => (
            &["derivedFrom"],
            "dim dimIncrement dimIndex dimName dimArrayIndex name displayName description alternateGroup alternateRegister addressOffset size access protection resetValue resetMask dataType modifiedWriteValues writeConstraint readAction fields",
        ),
        "fields" => (&[], "field*"),
        "field" => (
            &["derivedFrom"],
            "dim dimIncrement dimIndex dimName dimArrayIndex name description bitOffset bitWidth lsb msb bitRange access modifiedWriteValues writeConstraint readAction enumeratedValues*",
        ),
        "enumeratedValues" => (&["derivedFrom"], "name usage enumeratedValue*"),
        "enumeratedValue" => (&[], "name description value isDefault"),
        "dimArrayIndex" => (&[], "headerEnumName enumeratedValue*"),
        "writeConstraint" => (&[], "writeAsRead|useEnumeratedValues|range"),
        "range" => (&[], "minimum maximum"),
        _ => return None,
    })
}

pub fn in_schema_order(x: &X) -> Out {
    match schema(&x.tag) {
        None => {
            ensure!(x.attrs.is_empty(), "<{}> has attributes {:?}", x.tag, x.attrs);
            ensure!(
                x.elems().next().is_none(),
                "<{}> has child elements",
                x.tag
            );
        }
        Some((attrs, order)) => {
            for (k, _) in &x.attrs {
                ensure!(attrs.contains(&k.as_str()), "<{}> has attribute {k}", x.tag);
            }
            for k in &x.kids {
                if let N::T(t) = k {
                    ensure!(t.trim().is_empty(), "<{}> has text {t:?} between elements", x.tag);
                }
            }
            let slots: Vec<(Vec<&str>, bool)> = order
                .split(' ')
                .map(|o| {
                    (
                        o.trim_end_matches('*').split('|').collect(),
                        o.ends_with('*'),
                    )
                })
                .collect();
            let mut at = 0usize;
            let mut used = false;
            let mut prev = "";
            for e in x.elems() {
                let Some(i) = slots.iter().position(|s| s.0.contains(&e.tag.as_str())) else {
                    fail!("<{}> contains unknown element <{}>", x.tag, e.tag);
                };
                ensure!(i >= at || prev.is_empty(), "<{}>: <{}> comes after <{prev}>", x.tag, e.tag);
                ensure!(
                    !(i == at && used && !slots[i].1),
                    "<{}>: more than one <{}>",
                    x.tag,
                    e.tag
                );
                at = i;
                used = true;
                prev = &e.tag;
                in_schema_order(e)?;
            }
            if x.tag == "field" {
                let n = ["bitRange", "lsb", "bitOffset"]
                    .iter()
                    .filter(|t| x.child(t).is_some())
                    .count();
                ensure!(n == 1, "<field> has {n} bit range notations");
            }
        }
    }
    Ok(())
}

fn p07(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.derive = s.chance(3, 4);
    let d = dev(s, &g);
    let mut c = Config::default();
    let chosen = number_formats(s, &mut c);
    if s.flip() {
        let n = s.pick(&BRN).0;
        quietly(|| c.update("field_bit_range", n))?;
    }
    if s.flip() {
        c.peripheral_sorting = Ds::gen(s).conf();
        c.register_cluster_sorting = Rs::gen(s).conf();
        c.field_sorting = Ds::gen(s).conf();
    }
    if s.flip() {
        for n in IDS {
            if s.flip() {
                *id_slot(&mut c, n) = Some(s.pick(&IDF).1);
            }
        }
    }
    let h = classify(&d, cov);
    cov.input(format!("{chosen:?} {c:?}\n{d:#?}"));
    let dv = lower(&d);
    let xml = match encode_with(&dv, &c) {
        Ok(x) => x,
        Err(e) => fail!("encode failed: {e}"),
    };
    cov.input(format!("{c:?}\n{xml}"));
    let x = match read(&xml) {
        Ok(x) => x,
        Err(e) => fail!("not well formed: {e}"),
    };
    ensure!(x.tag == "device", "the root is <{}>", x.tag);
    in_schema_order(&x)?;
    if h.regs > 0 && h.fields > 0 {
        cov.nontrivial();
    }
    // the roxmltree reader agrees that it is XML
    if let Err(e) = roxmltree::Document::parse(&xml) {
        fail!("not readable: {e}");
    }
    Ok(())
}

pub const P07: Prop = Prop {
    id: "P07",
    title: "Written documents are well formed and in schema order",
    rule: "a generated device written under a generated configuration (formats, sorting, names); non-trivial if it has registers with fields",
    quick: 24_000,
    thorough: 1_500_000,
    case: p07,
    directed: &[],
    assumptions: &["the order table was written by hand from the CMSIS-SVD schema"],
};

// ------------------------------------------------------------------------- P23

/// set an option through the typed builder-style interface
fn typed(c: Config, name: &str, v: &Val) -> Option<Config> {
    Some(match (name, v) {
        ("peripheral_base_address", Val::N(f)) => c.peripheral_base_address(*f),
        ("address_block_offset", Val::N(f)) => c.address_block_offset(*f),
        ("address_block_size", Val::N(f)) => c.address_block_size(*f),
        ("cluster_address_offset", Val::N(f)) => c.cluster_address_offset(*f),
        ("register_address_offset", Val::N(f)) => c.register_address_offset(*f),
        ("register_size", Val::N(f)) => c.register_size(*f),
        ("register_reset_value", Val::N(f)) => c.register_reset_value(*f),
        ("register_reset_mask", Val::N(f)) => c.register_reset_mask(*f),
        ("enumerated_value_value", Val::N(f)) => c.enumerated_value_value(*f),
        ("dim_dim", Val::N(f)) => c.dim_dim(*f),
        ("dim_increment", Val::N(f)) => c.dim_increment(*f),
        ("peripheral_name", Val::I(f)) => c.peripheral_name(Some(*f)),
        ("interrupt_name", Val::I(f)) => c.interrupt_name(Some(*f)),
        ("cluster_name", Val::I(f)) => c.cluster_name(Some(*f)),
        ("register_name", Val::I(f)) => c.register_name(Some(*f)),
        ("field_name", Val::I(f)) => c.field_name(Some(*f)),
        ("enumerated_values_name", Val::I(f)) => c.enumerated_values_name(Some(*f)),
        ("enumerated_value_name", Val::I(f)) => c.enumerated_value_name(Some(*f)),
        ("peripheral_sorting", Val::D(f)) => c.peripheral_sorting(*f),
        ("field_sorting", Val::D(f)) => c.field_sorting(*f),
        ("register_cluster_sorting", Val::R(f)) => c.register_cluster_sorting(*f),
        _ => return None,
    })
}
#[derive(Clone, Copy, Debug)]
enum Val {
    N(NumberFormat),
    I(IdentifierFormat),
    D(DerivableSorting),
    R(RcSorting),
}
/// set an option through the public members
fn direct(mut c: Config, name: &str, v: &Val) -> Config {
    match (name, v) {
        ("peripheral_sorting", Val::D(f)) => c.peripheral_sorting = *f,
        ("field_sorting", Val::D(f)) => c.field_sorting = *f,
        ("register_cluster_sorting", Val::R(f)) => c.register_cluster_sorting = *f,
        (n, Val::N(f)) => *num_slot(&mut c, n) = *f,
        (n, Val::I(f)) => *id_slot(&mut c, n) = Some(*f),
        _ => panic!("harness: {name}"),
    }
    c
}
fn shuffled_words(s: &mut Src, mut w: Vec<&'static str>) -> String {
    if w.len() > 1 && s.flip() {
        w.reverse();
    }
    if w.len() > 2 && s.flip() {
        w.swap(0, 1);
    }
    if w.is_empty() {
        "Unchanged".into()
    } else {
        w.join(",")
    }
}

const OPTIONS: &[&str] = &[
    "peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset",
    "register_address_offset", "register_size", "register_reset_value", "register_reset_mask",
    "enumerated_value_value", "dim_dim", "dim_increment", "peripheral_name", "interrupt_name",
    "cluster_name", "register_name", "field_name", "enumerated_values_name", "enumerated_value_name",
    "dim_array_index_header_enum_name", "peripheral_sorting", "field_sorting", "register_cluster_sorting",
];

fn show(c: &Config) -> String {
    format!("{c:?}")
}

fn p23(s: &mut Src, cov: &mut Cov) -> Out {
    // a device whose output depends on every option
    let d = if s.flip() {
        let mut d = sample();
        crowd(s, &mut d);
        d
    } else {
        let g = G::any(s);
        dev(s, &g)
    };
    let dv = lower(&d);
    let (mut a, mut b, mut t) = (Config::default(), Config::default(), Config::default());
    let mut log = Vec::new();
    for _ in 0..=s.below(4) {
        match s.below(10) {
            0 => {
                // unknown option names change nothing
                let name = s
                    .pick(&["", "peripheral", "register_names", "Register_name", "dim", "field_bitrange", "sorting", " register_name", "description"])
                    .to_string();
                let value = s.pick(&["Snake", "Dec", "Name", "", "x"]).to_string();
                log.push(format!("{name}={value} (unknown)"));
                quietly(|| a.update(&name, &value))?;
                cov.hit("unknown option");
            }
            1 => {
                // values that do not exist are refused
                let opts: Vec<&str> = OPTIONS.iter().copied().filter(|o| !o.ends_with("sorting")).chain(["field_bit_range"]).collect();
                let name = *s.pick(&opts);
                let value = s
                    .pick(&["", "dec", "Hex", "UPPERHEX", "upperhex", "snake", "SNAKE", "Upper", "Kebab", "UpperHex32", "None", " Dec", "Dec ", "Snake,", "bitRange", "Lsb", "0", "true", "Bitrange"])
                    .to_string();
                log.push(format!("{name}={value} (no such value)"));
                let before = show(&a);
                let r = quietly(|| {
                    let mut c = a;
                    c.update(name, &value);
                    c
                });
                if let Ok(c) = r {
                    ensure!(
                        show(&c) == before,
                        "{name} = {value:?} was taken as a value: {} -> {}",
                        before,
                        show(&c)
                    );
                }
                cov.hit("no such value");
            }
            2 => {
                let (n, _) = *s.pick(&BRN);
                log.push(format!("field_bit_range={n}"));
                let mut typed = false;
                for c in [&mut a, &mut b, &mut t] {
                    if typed {
                        *c = c.clone().field_bit_range(n.parse().ok());
                    } else {
                        quietly(|| c.update("field_bit_range", n))?;
                    }
                    typed = true;
                }
                cov.hit("bit range");
            }
            _ => {
                let name = *s.pick(OPTIONS);
                let (text, val) = if name.ends_with("_sorting") {
                    if name.starts_with("register") {
                        let r = Rs::gen(s);
                        (shuffled_words(s, r.words()), Val::R(r.conf()))
                    } else {
                        let d = Ds::gen(s);
                        (shuffled_words(s, d.words()), Val::D(d.conf()))
                    }
                } else if IDS.contains(&name) {
                    let (n, f) = *s.pick(&IDF);
                    (n.to_string(), Val::I(f))
                } else {
                    let (n, f) = *s.pick(&NF);
                    (n.to_string(), Val::N(f))
                };
                log.push(format!("{name}={text}"));
                cov.hit(name);
                quietly(|| a.update(name, &text))?;
                b = direct(b, name, &val);
                t = typed(t, name, &val).unwrap_or_else(|| direct(t, name, &val));
                cov.nontrivial();
            }
        }
    }
    cov.input(format!("{}\n{d:?}", log.join(" ; ")));
    ensure!(
        show(&a) == show(&b),
        "after {}: by text {} by member {}",
        log.join(" ; "),
        show(&a),
        show(&b)
    );
    ensure!(
        show(&t) == show(&b),
        "after {}: typed {} by member {}",
        log.join(" ; "),
        show(&t),
        show(&b)
    );
    let (xa, xb, xt) = (encode_with(&dv, &a)?, encode_with(&dv, &b)?, encode_with(&dv, &t)?);
    ensure!(xa == xb && xt == xb, "after {}: the outputs differ", log.join(" ; "));
    // the sample has every number: the chosen formats and names must be visible there
    for l in &log {
        if let Some((n, v)) = l.split_once('=') {
            if let Some(opt) = NUMS.iter().find(|k| k.0 == n && !n.is_empty()) {
                // the last setting counts
                let last = log.iter().rev().find(|k| k.starts_with(&format!("{n}=")) && !k.contains('('));
                if last != Some(l) {
                    continue;
                }
                let x = match read(&xa) {
                    Ok(x) => x,
                    Err(e) => fail!("{e}"),
                };
                let mut bad = None;
                numbers(&x, &mut |p, t, text| {
                    if ruled_by(p, t) == Some(opt.0) {
                        if let Some(Some(k)) = ref_num(text) {
                            if ref_format(k as u64, v) != text {
                                bad.get_or_insert(format!("after {l}: {p}/{t} is {text:?}"));
                            }
                        }
                    }
                });
                if let Some(b) = bad {
                    fail!("{b}");
                }
            }
        }
    }
    Ok(())
}
pub const P23: Prop = Prop {
    id: "P23",
    title: "Textual configuration equals typed configuration",
    rule: "a sequence of option settings by text, replayed through the typed setters and the public members, over a generated device; non-trivial if at least one known option is set",
    quick: 24_000,
    thorough: 1_000_000,
    case: p23,
    directed: &[],
    assumptions: &["the sorting options take any text; only the documented words are generated for them"],
};
