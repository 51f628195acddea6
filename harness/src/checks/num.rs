//! P08 literals, P09 bit ranges, P24 keywords
use super::doc::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::xml::*;
use crate::{ensure, fail};
use svd_parser::svd::{self, ValidateLevel};

fn ev1(n: &str, v: u64) -> Ev {
    Ev {
        name: n.into(),
        desc: None,
        value: Some(v),
        is_default: Some(false),
    }
}
fn dim1(name: &str) -> Option<Dim> {
    Some(Dim {
        dim: 2,
        inc: 4,
        index: None,
        name: Some(format!("{name}N")),
        dai: Some(Dai {
            hdr: Some(format!("{name}H")),
            values: vec![ev1("a", 0)],
        }),
    })
}
fn props1() -> Props {
    Props {
        size: Some(32),
        access: Some("read-write"),
        prot: Some("n"),
        rval: Some(1),
        rmask: Some(3),
    }
}
fn field1(name: &str, brt: Brt, wc: Wc) -> Field {
    Field {
        name: name.into(),
        desc: None,
        off: 3,
        width: 2,
        brt,
        access: Some("read-only"),
        mwv: Some("set"),
        wc: Some(wc),
        ra: Some("clear"),
        evs: vec![Evs {
            name: Some("E".into()),
            usage: Some("read"),
            derived: None,
            values: vec![ev1("v", 1)],
        }],
        derived: None,
        dim: dim1("F"),
    }
}
fn reg1(name: &str) -> Reg {
    Reg {
        name: name.into(),
        off: 8,
        props: props1(),
        dtype: Some("uint8_t"),
        mwv: Some("clear"),
        wc: Some(Wc::Range(0, 3)),
        ra: Some("set"),
        fields: Some(vec![
            field1("A%s", Brt::Ow, Wc::Range(0, 1)),
            field1("B%s", Brt::Ml, Wc::AsRead(true)),
            field1("C%s", Brt::Br, Wc::UseEv(true)),
        ]),
        dim: dim1("R"),
        ..Default::default()
    }
}
/// A device that has every item there is
pub fn sample() -> Dev {
    let per = Per {
        name: "P%s".into(),
        base: 0x100,
        props: props1(),
        abs: Some(vec![Ab {
            off: 0,
            size: 4,
            usage: "registers",
            prot: Some("s"),
        }]),
        ints: vec![Int {
            name: "I".into(),
            desc: None,
            value: 5,
        }],
        regs: Some(vec![
            Rc::R(reg1("R%s")),
            Rc::C(Clu {
                name: "K%s".into(),
                off: 64,
                props: props1(),
                children: vec![
                    Rc::C(Clu {
                        name: "L%s".into(),
                        off: 16,
                        props: props1(),
                        children: vec![Rc::R(reg1("S%s"))],
                        dim: dim1("L"),
                        ..Default::default()
                    }),
                    Rc::R(reg1("T%s")),
                ],
                dim: dim1("K"),
                ..Default::default()
            }),
        ]),
        dim: dim1("P"),
        ..Default::default()
    };
    Dev {
        name: "D".into(),
        version: "1".into(),
        desc: "d".into(),
        cpu: Some(Cpu {
            name: "CM4".into(),
            revision: "r".into(),
            endian: "little",
            fpu_dp: Some(false),
            dsp: Some(false),
            icache: Some(false),
            dcache: Some(false),
            itcm: Some(false),
            dtcm: Some(false),
            vtor: Some(false),
            nint: Some(1),
            sau: Some(1),
            nvic: 3,
            ..Default::default()
        }),
        aub: 8,
        width: 32,
        props: props1(),
        pers: vec![per],
        xs: XS.into(),
        loc: LOC.into(),
        schema: "1.1".into(),
        ..Default::default()
    }
}
pub fn sample_xml() -> X {
    r_dev(&mut Src::replay(vec![]), PLAIN, &sample())
}

/// `a/b#1/c`: the second `b` child of a and so on
pub fn find<'a>(x: &'a mut X, path: &str) -> &'a mut X {
    let mut cur = x;
    for part in path.split('/') {
        let (tag, n) = match part.split_once('#') {
            Some((t, n)) => (t, n.parse().unwrap()),
            None => (part, 0usize),
        };
        cur = cur
            .elems_mut()
            .filter(|e| e.tag == tag)
            .nth(n)
            .unwrap_or_else(|| panic!("harness: no {path}"));
    }
    cur
}
pub fn set_text(x: &mut X, path: &str, t: &str) {
    let e = find(x, path);
    e.kids.clear();
    e.kids.push(N::T(t.into()));
}

type G64 = fn(&Dev) -> Option<u64>;
macro_rules! reg_at {
    ($d:expr, r) => { match &$d.pers.get(0)?.regs.as_ref()?.get(0)? { Rc::R(r) => r, _ => return None } };
    ($d:expr, k) => { match &$d.pers.get(0)?.regs.as_ref()?.get(1)? { Rc::C(c) => c, _ => return None } };
    ($d:expr, l) => { match &reg_at!($d, k).children.get(0)? { Rc::C(c) => c, _ => return None } };
    ($d:expr, s) => { match &reg_at!($d, l).children.get(0)? { Rc::R(r) => r, _ => return None } };
    ($d:expr, t) => { match &reg_at!($d, k).children.get(1)? { Rc::R(r) => r, _ => return None } };
    ($d:expr, f $i:literal) => { &reg_at!($d, r).fields.as_ref()?.get($i)? };
    ($d:expr, tf $i:literal) => { &reg_at!($d, t).fields.as_ref()?.get($i)? };
    ($d:expr, p) => { &$d.pers.get(0)? };
}
macro_rules! n {
    ($p:expr, $b:expr, |$d:ident| $e:expr) => {{
        fn g($d: &Dev) -> Option<u64> {
            Some(($e) as u64)
        }
        ($p, $b, g as G64)
    }};
}
const PR: &str = "peripherals/peripheral";
const RG: &str = "peripherals/peripheral/registers/register";
const KL: &str = "peripherals/peripheral/registers/cluster";
const TT: &str = "peripherals/peripheral/registers/cluster/register";
const SS: &str = "peripherals/peripheral/registers/cluster/cluster/register";

fn numeric() -> Vec<(String, u32, G64)> {
    let rg = |s: &str| format!("{RG}/{s}");
    let kl = |s: &str| format!("{KL}/{s}");
    let ll = |s: &str| format!("{KL}/cluster/{s}");
    let tt = |s: &str| format!("{TT}/{s}");
    let pr = |s: &str| format!("{PR}/{s}");
    let a = |s: &str| format!("{RG}/fields/field/{s}");
    let s_ = |s: &str| format!("{SS}/{s}");
    let v = |s: &str| s.to_string();
    vec![
        n!(v("addressUnitBits"), 32, |d| d.aub),
        n!(v("width"), 32, |d| d.width),
        n!(v("size"), 32, |d| d.props.size?),
        n!(v("resetValue"), 64, |d| d.props.rval?),
        n!(v("resetMask"), 64, |d| d.props.rmask?),
        n!(v("cpu/nvicPrioBits"), 32, |d| d.cpu.as_ref()?.nvic),
        n!(v("cpu/deviceNumInterrupts"), 32, |d| d.cpu.as_ref()?.nint?),
        n!(v("cpu/sauNumRegions"), 32, |d| d.cpu.as_ref()?.sau?),
        n!(pr("baseAddress"), 64, |d| reg_at!(d, p).base),
        n!(pr("size"), 32, |d| reg_at!(d, p).props.size?),
        n!(pr("resetValue"), 64, |d| reg_at!(d, p).props.rval?),
        n!(pr("resetMask"), 64, |d| reg_at!(d, p).props.rmask?),
        n!(pr("dim"), 32, |d| reg_at!(d, p).dim.as_ref()?.dim),
        n!(pr("dimIncrement"), 32, |d| reg_at!(d, p).dim.as_ref()?.inc),
        n!(pr("dimArrayIndex/enumeratedValue/value"), 64, |d| reg_at!(d, p)
            .dim
            .as_ref()?
            .dai
            .as_ref()?
            .values
            .first()?
            .value?),
        n!(pr("addressBlock/offset"), 32, |d| reg_at!(d, p).abs.as_ref()?.first()?.off),
        n!(pr("addressBlock/size"), 32, |d| reg_at!(d, p).abs.as_ref()?.first()?.size),
        n!(pr("interrupt/value"), 32, |d| reg_at!(d, p).ints.first()?.value),
        n!(rg("addressOffset"), 32, |d| reg_at!(d, r).off),
        n!(rg("size"), 32, |d| reg_at!(d, r).props.size?),
        n!(rg("resetValue"), 64, |d| reg_at!(d, r).props.rval?),
        n!(rg("resetMask"), 64, |d| reg_at!(d, r).props.rmask?),
        n!(rg("dim"), 32, |d| reg_at!(d, r).dim.as_ref()?.dim),
        n!(rg("dimIncrement"), 32, |d| reg_at!(d, r).dim.as_ref()?.inc),
        n!(rg("writeConstraint/range/minimum"), 64, |d| match reg_at!(d, r).wc? {
            Wc::Range(a, _) => a,
            _ => return None,
        }),
        n!(rg("writeConstraint/range/maximum"), 64, |d| match reg_at!(d, r).wc? {
            Wc::Range(_, b) => b,
            _ => return None,
        }),
        n!(kl("addressOffset"), 32, |d| reg_at!(d, k).off),
        n!(kl("size"), 32, |d| reg_at!(d, k).props.size?),
        n!(kl("resetValue"), 64, |d| reg_at!(d, k).props.rval?),
        n!(kl("resetMask"), 64, |d| reg_at!(d, k).props.rmask?),
        n!(kl("dim"), 32, |d| reg_at!(d, k).dim.as_ref()?.dim),
        n!(kl("dimIncrement"), 32, |d| reg_at!(d, k).dim.as_ref()?.inc),
        n!(ll("addressOffset"), 32, |d| reg_at!(d, l).off),
        n!(ll("dim"), 32, |d| reg_at!(d, l).dim.as_ref()?.dim),
        n!(tt("addressOffset"), 32, |d| reg_at!(d, t).off),
        n!(tt("resetValue"), 64, |d| reg_at!(d, t).props.rval?),
        n!(s_("addressOffset"), 32, |d| reg_at!(d, s).off),
        n!(s_("resetMask"), 64, |d| reg_at!(d, s).props.rmask?),
        n!(a("dim"), 32, |d| reg_at!(d, f 0).dim.as_ref()?.dim),
        n!(a("dimIncrement"), 32, |d| reg_at!(d, f 0).dim.as_ref()?.inc),
        n!(a("dimArrayIndex/enumeratedValue/value"), 64, |d| reg_at!(d, f 0)
            .dim
            .as_ref()?
            .dai
            .as_ref()?
            .values
            .first()?
            .value?),
        n!(a("enumeratedValues/enumeratedValue/value"), 64, |d| reg_at!(d, f 0)
            .evs
            .first()?
            .values
            .first()?
            .value?),
        n!(a("writeConstraint/range/minimum"), 64, |d| match reg_at!(d, f 0).wc? {
            Wc::Range(a, _) => a,
            _ => return None,
        }),
        n!(a("writeConstraint/range/maximum"), 64, |d| match reg_at!(d, f 0).wc? {
            Wc::Range(_, b) => b,
            _ => return None,
        }),
        n!(format!("{TT}/fields/field/enumeratedValues/enumeratedValue/value"), 64, |d| {
            reg_at!(d, tf 0).evs.first()?.values.first()?.value?
        }),
        n!(a("bitOffset"), 32, |d| reg_at!(d, f 0).off),
        n!(a("bitWidth"), 32, |d| reg_at!(d, f 0).width),
        n!(format!("{RG}/fields/field#1/lsb"), 32, |d| reg_at!(d, f 1).off),
        n!(format!("{RG}/fields/field#1/msb"), 32, |d| reg_at!(d, f 1).off as u64
            + reg_at!(d, f 1).width as u64
            - 1),
    ]
}

fn booleans() -> Vec<(String, G64)> {
    fn b(p: String, g: (G64,)) -> (String, G64) {
        (p, g.0)
    }
    macro_rules! bb {
        ($p:expr, |$d:ident| $e:expr) => {{
            fn g($d: &Dev) -> Option<u64> {
                Some(($e) as u64)
            }
            b($p.to_string(), (g as G64,))
        }};
    }
    vec![
        bb!("cpu/mpuPresent", |d| d.cpu.as_ref()?.mpu),
        bb!("cpu/fpuPresent", |d| d.cpu.as_ref()?.fpu),
        bb!("cpu/fpuDP", |d| d.cpu.as_ref()?.fpu_dp?),
        bb!("cpu/dspPresent", |d| d.cpu.as_ref()?.dsp?),
        bb!("cpu/icachePresent", |d| d.cpu.as_ref()?.icache?),
        bb!("cpu/dcachePresent", |d| d.cpu.as_ref()?.dcache?),
        bb!("cpu/itcmPresent", |d| d.cpu.as_ref()?.itcm?),
        bb!("cpu/dtcmPresent", |d| d.cpu.as_ref()?.dtcm?),
        bb!("cpu/vtorPresent", |d| d.cpu.as_ref()?.vtor?),
        bb!("cpu/vendorSystickConfig", |d| d.cpu.as_ref()?.systick),
        bb!(format!("{RG}/fields/field#1/writeConstraint/writeAsRead"), |d| {
            match reg_at!(d, f 1).wc? {
                Wc::AsRead(b) => b,
                _ => return None,
            }
        }),
        bb!(format!("{RG}/fields/field#2/writeConstraint/useEnumeratedValues"), |d| {
            match reg_at!(d, f 2).wc? {
                Wc::UseEv(b) => b,
                _ => return None,
            }
        }),
        bb!(format!("{RG}/fields/field/enumeratedValues/enumeratedValue/isDefault"), |d| {
            reg_at!(d, f 0).evs.first()?.values.first()?.is_default?
        }),
    ]
}

/// The number a literal denotes. None: unspecified. Some(None): not a number.
pub fn ref_num(t: &str) -> Option<Option<u128>> {
    let t = t.trim_matches(|c: char| " \t\r\n".contains(c));
    if t.contains('+') || t.starts_with("0B") || t.contains(|c: char| !c.is_ascii()) {
        return None;
    }
    let (radix, digits) = if let Some(r) = t.strip_prefix("0x").or(t.strip_prefix("0X")) {
        (16, r.to_string())
    } else if let Some(r) = t.strip_prefix('#').or(t.strip_prefix("0b")) {
        (2, r.chars().map(|c| if c == 'x' || c == 'X' { '0' } else { c }).collect())
    } else {
        (10, t.to_string())
    };
    if digits.is_empty() {
        return Some(None);
    }
    let mut v = 0u128;
    for c in digits.chars() {
        match c.to_digit(radix) {
            None => return Some(None),
            Some(d) => v = (v * radix as u128 + d as u128).min(1 << 100),
        }
    }
    Some(Some(v))
}

fn literal(s: &mut Src, bits: u32, cov: &mut Cov) -> String {
    let st = Style {
        vary: true,
        omit: false,
    };
    let kinds = if s.chance(1, 40) { 7 } else { 6 };
    let mut t = match s.below(kinds) {
        0 | 1 | 2 => {
            let v = s.num(bits);
            lit(s, st, v)
        }
        6 => {
            // many leading zeros, and perhaps something among them
            let v = s.num(bits);
            let mut z: Vec<char> = vec!['0'; s.idx(300)];
            if s.chance(1, 3) && !z.is_empty() {
                let i = s.idx(z.len());
                z[i] = *s.pick(&['1', 'x', '_', 'f', ' ', '2']);
            }
            let z: String = z.into_iter().collect();
            cov.hit("long literal");
            match s.below(5) {
                0 => format!("{z}{v}"),
                1 => format!("0x{z}{v:x}"),
                2 => format!("0X{z}{v:X}"),
                3 => format!("#{z}{v:b}"),
                _ => format!("0b{z}{v:b}"),
            }
        }
        3 => {
            // around the limits of the types
            let base: u128 = 1u128 << *s.pick(&[8u32, 31, 32, 33, 63, 64, 65, 96]);
            let v = base + s.below(3) as u128 - 1;
            match s.below(5) {
                0 => format!("{v}"),
                1 => format!("0x{v:x}"),
                2 => format!("0X{v:X}"),
                3 => format!("#{v:b}"),
                _ => format!("0b{v:b}"),
            }
        }
        4 => {
            let n = s.below(8);
            let mut t = String::from(*s.pick(&["", "0x", "0X", "#", "0b", "0", "-", "0b0b"]));
            for _ in 0..n {
                t.push(*s.pick(&[
                    '0', '1', '2', '7', '9', 'a', 'F', 'g', 'x', 'X', 'b', 'B', '_', '-', '.', ' ',
                    'k', 'e', '#', 'h', 'u',
                ]));
            }
            t
        }
        _ => {
            // one edit of a valid literal
            let v = s.num(bits);
            let mut c: Vec<char> = lit(s, st, v).chars().collect();
            let i = s.idx(c.len() + 1);
            let k = *s.pick(&['0', '1', '9', 'f', 'G', 'x', '#', ' ', '_', '-', ',', 'b']);
            match s.below(3) {
                0 => c.insert(i, k),
                1 if i < c.len() => {
                    c.remove(i);
                }
                _ if i < c.len() => c[i] = k,
                _ => c.push(k),
            }
            c.into_iter().collect()
        }
    };
    if s.chance(1, 4) {
        t = format!("{}{t}{}", *s.pick(&["", " ", "\n  "]), *s.pick(&["", " ", "\t"]));
        cov.hit("padded");
    }
    t
}

fn p08(s: &mut Src, cov: &mut Cov) -> Out {
    let mut x = sample_xml();
    if s.chance(1, 6) {
        let all = booleans();
        let (path, get) = s.pick(&all);
        let tolerant = path.ends_with("isDefault");
        let t = match s.below(4) {
            0 | 1 => s.pick(&["true", "false", "1", "0", " true", "0\n", " 1 "]).to_string(),
            _ if tolerant => "true".to_string(),
            2 => s
                .pick(&["yes", "TRUE", "True", "2", "", "no", "on", "truefalse", "01", "0x1", "tru", "t", "00", "#1"])
                .to_string(),
            _ => literal(s, 8, cov),
        };
        let want = match t.trim() {
            "true" | "1" => Some(1),
            "false" | "0" => Some(0),
            _ => None,
        };
        set_text(&mut x, path, &t);
        let xml = x.print();
        cov.input(format!("{path} = {t:?}"));
        cov.nontrivial();
        cov.hit(if want.is_some() { "boolean" } else { "not a boolean" });
        match (parse_at(&xml, ValidateLevel::Disabled), want) {
            (Ok(d), Some(w)) => {
                let got = get(&lift(&d));
                ensure!(got == Some(w), "{path} = {t:?} was read as {got:?}");
            }
            (Ok(d), None) => fail!("{path} = {t:?} was read as {:?}", get(&lift(&d))),
            (Err(e), Some(_)) => fail!("{path} = {t:?} was rejected: {e}"),
            (Err(e), None) => ensure!(!e.contains("panicked"), "{path} = {t:?}: {e}"),
        }
        return Ok(());
    }
    let all = numeric();
    let (path, bits, get) = s.pick(&all);
    let t = literal(s, *bits, cov);
    set_text(&mut x, path, &t);
    let last = path.rsplit('/').next().unwrap_or("");
    if last == "lsb" {
        set_text(&mut x, &path.replace("lsb", "msb"), "4294967294");
    } else if last == "msb" {
        set_text(&mut x, &path.replace("msb", "lsb"), "0");
    } else if last == "bitWidth" {
        set_text(&mut x, &path.replace("bitWidth", "bitOffset"), "0");
    } else if last == "bitOffset" {
        set_text(&mut x, &path.replace("bitOffset", "bitWidth"), "0");
    }
    let limit: u128 = match last {
        "lsb" | "msb" => (1 << 32) - 1,
        _ => 1u128 << bits,
    };
    let xml = x.print();
    cov.input(format!("{path} = {t:?}"));
    let want = match ref_num(&t) {
        None => {
            cov.hit("unspecified");
            let r = parse_at(&xml, ValidateLevel::Disabled);
            ensure!(!matches!(&r, Err(e) if e.contains("panicked")), "{path} = {t:?}: {r:?}");
            return Ok(());
        }
        Some(v) => v.filter(|v| *v < limit),
    };
    cov.nontrivial();
    let class = if want.is_some() {
        if t.trim().starts_with(['#']) || t.trim().starts_with("0b") {
            "binary"
        } else if t.trim().starts_with("0x") || t.trim().starts_with("0X") {
            "hexadecimal"
        } else {
            "decimal"
        }
    } else if matches!(ref_num(&t), Some(Some(_))) {
        "too large"
    } else {
        "not a number"
    };
    cov.hit(class);
    match (parse_at(&xml, ValidateLevel::Disabled), want) {
        (Ok(d), Some(w)) => {
            let got = get(&lift(&d));
            ensure!(
                got.map(|g| g as u128) == Some(w),
                "{path} = {t:?} was read as {got:?} instead of {w}"
            );
        }
        (Ok(d), None) => fail!("{path} = {t:?} was read as {:?} instead of rejected", get(&lift(&d))),
        (Err(e), Some(w)) => fail!("{path} = {t:?} (which is {w}) was rejected: {e}"),
        (Err(e), None) => ensure!(!e.contains("panicked"), "{path} = {t:?}: {e}"),
    }
    Ok(())
}

pub const P08: Prop = Prop {
    id: "P08",
    title: "Numeric and boolean literals mean what the format says",
    rule: "one literal (valid in some notation, at a type limit, mutated or random) put into one of the numeric or boolean positions of a device that has them all; non-trivial unless the literal has a leading plus sign or 0B prefix (unspecified)",
    quick: 80_000,
    thorough: 4_000_000,
    case: p08,
    directed: &[],
    assumptions: &["an unreadable isDefault is tolerated by design and not generated"],
};

// ------------------------------------------------------------------------- P09

fn field_doc(inner: Vec<X>, regsize: u64) -> String {
    let mut f = X::new("field");
    f.add("name", "F");
    for i in inner {
        f.push(i);
    }
    let mut fs = X::new("fields");
    fs.push(f);
    let mut r = X::new("register");
    r.add("name", "R");
    r.add("addressOffset", "0");
    r.add("size", regsize.to_string());
    r.push(fs);
    let mut rs = X::new("registers");
    rs.push(r);
    let mut p = X::new("peripheral");
    p.add("name", "P");
    p.add("baseAddress", "0");
    p.push(rs);
    let mut ps = X::new("peripherals");
    ps.push(p);
    let mut d = X::new("device");
    d.add("name", "D");
    d.push(ps);
    d.print()
}
/// (offset, width, notation) of the field read from a document
fn read_field(xml: &str, lvl: ValidateLevel) -> Result<Option<(u32, u32, Brt)>, Fail> {
    match parse_at(xml, lvl) {
        Ok(d) => {
            let m = lift(&d);
            let f = m.pers.first().and_then(|p| match p.regs.as_ref()?.first()? {
                Rc::R(r) => r.fields.as_ref()?.first().cloned(),
                _ => None,
            });
            match f {
                Some(f) => Ok(Some((f.off, f.width, f.brt))),
                None => Err(Fail::new("the field is missing from the device")),
            }
        }
        Err(e) if e.contains("panicked") => Err(Fail::new(e)),
        Err(_) => Ok(None),
    }
}
/// reference reader of `[msb:lsb]`: None unspecified, Some(None) malformed
fn ref_range(t: &str, pad: bool) -> Option<Option<(u32, u32)>> {
    let u = if pad {
        t.trim_matches(|c: char| " \t\r\n".contains(c))
    } else {
        t
    };
    let Some(i) = u.strip_prefix('[').and_then(|u| u.strip_suffix(']')) else {
        return Some(None);
    };
    if i.contains(|c: char| c == '+' || c.is_whitespace()) {
        return None;
    }
    let p: Vec<&str> = i.split(':').collect();
    if p.len() != 2 || p.iter().any(|k| k.is_empty() || !k.bytes().all(|b| b.is_ascii_digit())) {
        return Some(None);
    }
    let k: Vec<u128> = p
        .iter()
        .map(|d| d.bytes().fold(0u128, |v, b| (v * 10 + (b - b'0') as u128).min(1 << 100)))
        .collect();
    if k[0] >= u32::MAX as u128 || k[1] > k[0] {
        return Some(None);
    }
    Some(Some((k[1] as u32, (k[0] - k[1] + 1) as u32)))
}

fn range_text(s: &mut Src) -> String {
    let a = s.num(33);
    let b = if s.flip() { s.num(6) } else { a };
    let mut t = format!("[{}:{}]", a.max(b), a.min(b));
    match s.below(6) {
        0 | 1 => t,
        2 => format!("[{b}:{a}]"),
        3 => {
            let mut c: Vec<char> = t.chars().collect();
            for _ in 0..=s.below(2) {
                let i = s.idx(c.len() + 1);
                let k = *s.pick(&['[', ']', ':', '0', '9', '-', 'x', '.', ',', ' ', 'a', ';']);
                match s.below(3) {
                    0 => c.insert(i, k),
                    1 if i < c.len() => {
                        c.remove(i);
                    }
                    _ if i < c.len() => c[i] = k,
                    _ => c.push(k),
                }
                if c.is_empty() {
                    c.push('[');
                }
            }
            c.into_iter().collect()
        }
        4 => s
            .pick(&["", "[]", "[:]", "[3]", "[3:]", "[:3]", "[3:2:1]", "3:2", "[3:2", "3:2]", "[[3:2]]", "(3:2)", "[3-2]", "[", "]", "][", "[0x3:0]", "[03:00]", "[-1:0]"])
            .to_string(),
        _ => {
            t = format!("{}{t}{}", *s.pick(&["", " ", "\n"]), *s.pick(&["", " ", "\t "]));
            t
        }
    }
}

fn p09(s: &mut Src, cov: &mut Cov) -> Out {
    let br = |o: u64, m: u64| vec![X::leaf("bitRange", format!("[{m}:{o}]"))];
    let pair = |a: &str, x: u64, b: &str, y: u64| vec![X::leaf(a, x.to_string()), X::leaf(b, y.to_string())];
    match s.below(4) {
        0 | 1 => {
            // the three notations of the same two numbers
            let (lsb, msb) = match s.below(4) {
                0 => {
                    let l = s.below(64);
                    (l, l + s.below(64 - l))
                }
                1 => (s.below(64), s.below(64)),
                2 => (s.num(32), s.num(32)),
                _ => {
                    let l = s.num(33);
                    (l, l.wrapping_add(s.below(3)))
                }
            };
            let lvl = *s.pick(&LEVELS[..2]);
            cov.input(format!("lsb {lsb} msb {msb} {lvl:?}"));
            let ok = lsb <= msb && msb < u32::MAX as u64;
            let want = if ok {
                Some((lsb as u32, (msb - lsb + 1) as u32))
            } else {
                None
            };
            cov.hit(if ok { "valid range" } else { "invalid range" });
            cov.nontrivial();
            let docs = [
                ("bitRange", Brt::Br, br(lsb, msb)),
                ("lsb/msb", Brt::Ml, {
                    let mut v = pair("lsb", lsb, "msb", msb);
                    if s.flip() {
                        v.reverse();
                    }
                    v
                }),
                ("bitOffset/bitWidth", Brt::Ow, {
                    let mut v = pair("bitOffset", lsb, "bitWidth", (msb + 1).wrapping_sub(lsb));
                    if s.flip() {
                        v.reverse();
                    }
                    v
                }),
            ];
            for (n, t, d) in docs {
                if n == "bitOffset/bitWidth" && lsb == msb + 1 && lvl == ValidateLevel::Disabled {
                    continue; // zero width
                }
                let got = read_field(&field_doc(d, 64), lvl)?;
                let w = want.map(|(o, w)| (o, w, t));
                ensure!(got == w, "{n} of bits {msb}..{lsb} read as {got:?}, expected {w:?}");
                cov.sub(n, true);
            }
            // the standalone reader and serialized data
            let text = format!("[{msb}:{lsb}]");
            let got = quietly(|| svd::BitRange::from_bit_range(&text))?;
            let got = got.map(|b| (b.offset, b.width));
            ensure!(got == want, "from_bit_range({text}) is {got:?}, expected {want:?}");
            let js = [
                (Brt::Br, serde_json::json!({"bitRange": text})),
                (Brt::Ml, serde_json::json!({"lsb": lsb, "msb": msb})),
                (
                    Brt::Ow,
                    serde_json::json!({"bitOffset": lsb, "bitWidth": (msb + 1).wrapping_sub(lsb)}),
                ),
            ];
            for (t, j) in js {
                if t == Brt::Ow && lsb == msb + 1 {
                    continue;
                }
                let jj = j.clone();
                let got = quietly(move || serde_json::from_value::<svd::BitRange>(jj).ok())?;
                let g = got.map(|b| (b.offset, b.width));
                ensure!(g == want, "serialized {j} read as {g:?}, expected {want:?}");
                if let Some(b) = got {
                    let back = quietly(move || serde_json::to_value(b).ok())?;
                    ensure!(back == Some(j.clone()), "{j} serialized again as {back:?}");
                }
            }
            if let Some((o, w)) = want {
                arithmetic(s, o, w)?;
            }
        }
        2 => {
            // free range texts
            let t = range_text(s);
            cov.input(format!("range text {t:?}"));
            let xml = field_doc(vec![X::leaf("bitRange", t.clone())], 64);
            if let Some(want) = ref_range(&t, true) {
                cov.nontrivial();
                cov.hit(if want.is_some() { "valid text" } else { "malformed text" });
                let got = read_field(&xml, ValidateLevel::Weak)?;
                let w = want.map(|(o, w)| (o, w, Brt::Br));
                ensure!(got == w, "bitRange {t:?} read as {got:?}, expected {w:?}");
            } else {
                read_field(&xml, ValidateLevel::Weak)?;
            }
            let got = quietly(|| svd::BitRange::from_bit_range(&t))?;
            let inner_space = t != t.trim();
            if let (Some(want), false) = (ref_range(&t, false), inner_space) {
                let g = got.map(|b| (b.offset, b.width));
                ensure!(g == want, "from_bit_range({t:?}) is {g:?}, expected {want:?}");
            }
        }
        _ => {
            // incomplete notations
            let (a, b) = (s.below(32), s.below(32));
            let all = [
                ("lsb", a.min(b)),
                ("msb", a.max(b)),
                ("bitOffset", a),
                ("bitWidth", b + 1),
            ];
            let mut v = Vec::new();
            let mut has = [false; 4];
            for (i, (t, n)) in all.iter().enumerate() {
                if s.flip() {
                    has[i] = true;
                    v.push(X::leaf(t, n.to_string()));
                }
            }
            let want = if has[0] && has[1] {
                Some((a.min(b) as u32, (a.max(b) - a.min(b) + 1) as u32, Brt::Ml))
            } else if has[2] && has[3] {
                Some((a as u32, b as u32 + 1, Brt::Ow))
            } else {
                None
            };
            cov.input(format!("{has:?} {a} {b}"));
            if (has[0] && has[1]) && (has[2] && has[3]) {
                cov.hit("two notations (unspecified)");
                return Ok(());
            }
            cov.nontrivial();
            cov.hit(if want.is_some() { "complete" } else { "incomplete" });
            let got = read_field(&field_doc(v, 64), ValidateLevel::Weak)?;
            ensure!(got == want, "with {has:?}: read {got:?}, expected {want:?}");
        }
    }
    Ok(())
}

fn arithmetic(s: &mut Src, o: u32, w: u32) -> Out {
    let msb = o + w - 1;
    let a = quietly(|| svd::BitRange::from_offset_width(o, w))?;
    let b = quietly(|| svd::BitRange::from_msb_lsb(msb, o))?;
    ensure!((b.offset, b.width) == (o, w), "from_msb_lsb({msb}, {o}) is {b:?}");
    ensure!((a.offset, a.width) == (o, w), "from_offset_width({o}, {w}) is {a:?}");
    for r in [a, b] {
        let (l, m, t) = quietly(|| (r.lsb(), r.msb(), r.bit_range()))?;
        ensure!(
            (l, m) == (o, msb) && t == format!("[{msb}:{o}]"),
            "{r:?} has lsb {l}, msb {m}, text {t}"
        );
    }
    let f = lower_field_info(&Field {
        name: "F".into(),
        off: o,
        width: w,
        ..Default::default()
    });
    let (l, m, bo, bw) = quietly(|| (f.lsb(), f.msb(), f.bit_offset(), f.bit_width()))?;
    ensure!(
        (l, m, bo, bw) == (o, msb, o, w),
        "field at {o} width {w}: lsb {l} msb {m} offset {bo} width {bw}"
    );
    if msb < 64 {
        let want = (0..64).filter(|i| (o..=msb).contains(i)).fold(0u64, |x, i| x | 1 << i);
        let got = quietly(|| f.bitmask())?;
        ensure!(got == want, "bitmask of {msb}..{o} is {got:#x}, expected {want:#x}");
        // an array of the field and the register holding it
        let inc = if s.flip() { w + (o % 3) } else { s.below(70) as u32 };
        let fit = (63 - msb).checked_div(inc).map_or(5, |n| n + 1);
        let dim = if s.flip() { fit } else { 1 + s.below(fit as u64) as u32 };
        let arr = lower_field(&Field {
            name: "F%s".into(),
            off: o,
            width: w,
            dim: Some(Dim {
                dim,
                inc,
                ..Default::default()
            }),
            ..Default::default()
        });
        let wa = (0..dim).fold(0u64, |x, i| x | want << (i * inc));
        let got = quietly(|| arr.bitmask())?;
        ensure!(got == wa, "bitmask of {dim} x {inc} x {want:#x} is {got:#x}");
        let r = lower_reg_info(&Reg {
            name: "R".into(),
            fields: Some(vec![
                Field {
                    name: "F".into(),
                    off: o,
                    width: w,
                    ..Default::default()
                },
                Field {
                    name: "G".into(),
                    off: 63 - msb,
                    width: 1,
                    ..Default::default()
                },
            ]),
            ..Default::default()
        });
        let wr = want | 1u64 << (63 - msb);
        let got = quietly(|| r.bitmask())?;
        ensure!(got == wr, "register bitmask is {got:#x}, expected {wr:#x}");
    }
    Ok(())
}

pub const P09: Prop = Prop {
    id: "P09",
    title: "The bit range notations are equivalent and checked",
    rule: "a pair of bit positions written in all notations and read from documents, range text and serialized data; or a range text with edits; or a subset of the position elements; non-trivial unless the text is of a form left unspecified (plus signs, inner blanks, two notations at once)",
    quick: 60_000,
    thorough: 3_000_000,
    case: p09,
    directed: &[],
    assumptions: &["zero widths without validation are left out"],
};

// ------------------------------------------------------------------------- P24

type GK = fn(&Dev) -> Option<Kw>;
struct KwClass {
    name: &'static str,
    words: &'static [Kw],
    /// serialized names, in the same order
    serde: &'static [&'static str],
    pos: Vec<(String, GK)>,
    /// (parse_str, as_str of the value) as strings
    text: fn(&str) -> Option<String>,
    /// to serialized data and back
    ser: fn(&str) -> Option<serde_json::Value>,
    de: fn(serde_json::Value) -> Option<String>,
}
macro_rules! k {
    ($p:expr, |$d:ident| $e:expr) => {{
        fn g($d: &Dev) -> Option<Kw> {
            Some($e)
        }
        ($p.to_string(), g as GK)
    }};
}
macro_rules! kwclass {
    ($n:expr, $w:expr, $s:expr, $t:ty, $v:ident, $a:ident, $pos:expr) => {
        KwClass {
            name: $n,
            words: $w,
            serde: $s,
            pos: $pos,
            text: |s| {
                let v = <$t>::parse_str(s)?;
                let back = v.as_str().to_string();
                // the value itself must be the one the model knows under that keyword
                if $a(v) != back {
                    return Some(format!("{} (a value otherwise written {back})", $a(v)));
                }
                Some(back)
            },
            ser: |s| serde_json::to_value($v(s)).ok(),
            de: |j| serde_json::from_value::<$t>(j).ok().map(|v| $a(v).to_string()),
        }
    };
}
const DTYPE_SERDE: &[&str] = &[
    "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u8_ptr", "u16_ptr", "u32_ptr", "u64_ptr",
    "i8_ptr", "i16_ptr", "i32_ptr", "i64_ptr",
];
fn classes() -> Vec<KwClass> {
    let rg = |s: &str| format!("{RG}/{s}");
    let a = |s: &str| format!("{RG}/fields/field/{s}");
    let b = |s: &str| format!("{RG}/fields/field#1/{s}");
    vec![
        kwclass!("access", ACCESS, ACCESS, svd::Access, access_v, access_s, vec![
            k!("access", |d| d.props.access?),
            k!(format!("{PR}/access"), |d| reg_at!(d, p).props.access?),
            k!(format!("{KL}/access"), |d| reg_at!(d, k).props.access?),
            k!(format!("{KL}/cluster/access"), |d| reg_at!(d, l).props.access?),
            k!(rg("access"), |d| reg_at!(d, r).props.access?),
            k!(format!("{TT}/access"), |d| reg_at!(d, t).props.access?),
            k!(a("access"), |d| reg_at!(d, f 0).access?),
            k!(b("access"), |d| reg_at!(d, f 1).access?),
        ]),
        kwclass!("protection", PROT, PROT, svd::Protection, prot_v, prot_s, vec![
            k!("protection", |d| d.props.prot?),
            k!(format!("{PR}/protection"), |d| reg_at!(d, p).props.prot?),
            k!(format!("{KL}/protection"), |d| reg_at!(d, k).props.prot?),
            k!(rg("protection"), |d| reg_at!(d, r).props.prot?),
            k!(format!("{PR}/addressBlock/protection"), |d| reg_at!(d, p)
                .abs
                .as_ref()?
                .first()?
                .prot?),
        ]),
        kwclass!("usage", USAGE, USAGE, svd::Usage, usage_v, usage_s, vec![
            k!(a("enumeratedValues/usage"), |d| reg_at!(d, f 0).evs.first()?.usage?),
            k!(format!("{TT}/fields/field/enumeratedValues/usage"), |d| reg_at!(d, tf 0)
                .evs
                .first()?
                .usage?),
        ]),
        kwclass!("address block usage", ABUSAGE, ABUSAGE, svd::AddressBlockUsage, abusage_v, abusage_s, vec![
            k!(format!("{PR}/addressBlock/usage"), |d| reg_at!(d, p)
                .abs
                .as_ref()?
                .first()?
                .usage),
        ]),
        kwclass!("endian", ENDIAN, ENDIAN, svd::Endian, endian_v, endian_s, vec![
            k!("cpu/endian", |d| d.cpu.as_ref()?.endian),
        ]),
        kwclass!("modifiedWriteValues", MWV, MWV, svd::ModifiedWriteValues, mwv_v, mwv_s, vec![
            k!(rg("modifiedWriteValues"), |d| reg_at!(d, r).mwv?),
            k!(a("modifiedWriteValues"), |d| reg_at!(d, f 0).mwv?),
            k!(format!("{SS}/modifiedWriteValues"), |d| reg_at!(d, s).mwv?),
        ]),
        kwclass!("readAction", RA, RA, svd::ReadAction, ra_v, ra_s, vec![
            k!(rg("readAction"), |d| reg_at!(d, r).ra?),
            k!(b("readAction"), |d| reg_at!(d, f 1).ra?),
        ]),
        kwclass!("dataType", DTYPE, DTYPE_SERDE, svd::DataType, dtype_v, dtype_s, vec![
            k!(rg("dataType"), |d| reg_at!(d, r).dtype?),
            k!(format!("{TT}/dataType"), |d| reg_at!(d, t).dtype?),
        ]),
    ]
}

fn keyword_everywhere(c: &KwClass, i: usize, pos: usize) -> Out {
    let w = c.words[i];
    let got = quietly(|| (c.text)(w))?;
    ensure!(got.as_deref() == Some(w), "{} {w:?} is read and written as {got:?}", c.name);
    let ser = quietly(|| (c.ser)(w))?;
    ensure!(
        ser == Some(serde_json::json!(c.serde[i])),
        "{} {w:?} is serialized as {ser:?}",
        c.name
    );
    let de = quietly(|| (c.de)(serde_json::json!(c.serde[i])))?;
    ensure!(de.as_deref() == Some(w), "{} {:?} deserializes as {de:?}", c.name, c.serde[i]);
    let (path, get) = &c.pos[pos];
    let mut x = sample_xml();
    set_text(&mut x, path, w);
    let d = match parse_at(&x.print(), ValidateLevel::Weak) {
        Ok(d) => d,
        Err(e) => fail!("{path} = {w:?} rejected: {e}"),
    };
    let m = lift(&d);
    ensure!(get(&m) == Some(w), "{path} = {w:?} read as {:?}", get(&m));
    let xml = encode(&d)?;
    let mut y = match read(&xml) {
        Ok(y) => y,
        Err(e) => fail!("the written document is not well formed: {e}"),
    };
    // keep to the written document's own structure
    let mut t = &mut y;
    for part in path.split('/') {
        let (tag, n) = match part.split_once('#') {
            Some((t, n)) => (t, n.parse().unwrap()),
            None => (part, 0usize),
        };
        match t.elems_mut().filter(|e| e.tag == tag).nth(n) {
            Some(e) => t = e,
            None => fail!("{path} = {w:?} is missing from the written document"),
        }
    }
    ensure!(t.text().trim() == w, "{path} = {w:?} written as {:?}", t.text());
    Ok(())
}

fn p24(s: &mut Src, cov: &mut Cov) -> Out {
    let cs = classes();
    let c = s.pick(&cs);
    let pos = s.idx(c.pos.len());
    if s.chance(1, 4) {
        let i = s.idx(c.words.len());
        cov.input(format!("{} = {:?}", c.pos[pos].0, c.words[i]));
        cov.nontrivial();
        cov.hit("keyword");
        return keyword_everywhere(c, i, pos);
    }
    // near misses
    let mut t: String = match s.below(4) {
        0 => {
            let o = s.pick(&cs);
            s.pick(o.words).to_string()
        }
        _ => s.pick(c.words).to_string(),
    };
    for _ in 0..if s.chance(1, 3) { 2 } else { 1 } {
        mangle(s, &mut t);
    }
    near_miss(s, cov, c, pos, t)
}

fn split_words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut new = true;
    for ch in t.chars() {
        if matches!(ch, '-' | ' ' | '_') {
            new = true;
            continue;
        }
        if new || ch.is_uppercase() {
            v.push(String::new());
        }
        new = false;
        v.last_mut().unwrap().push(ch);
    }
    v
}

/// other ways to spell a keyword, or slips
fn mangle(s: &mut Src, t: &mut String) {
    let cap = |w: &String| {
        let mut c = w.chars();
        c.next().map(|a| a.to_uppercase().chain(c.flat_map(|x| x.to_lowercase())).collect::<String>())
            .unwrap_or_default()
    };
    let words = split_words(t);
    match s.below(15) {
        14 => *t = words.join("-").to_lowercase(),
        13 => *t = words.join("_").to_lowercase(),
        12 => *t = words.iter().map(cap).collect(),
        11 => *t = words.join(" ").to_lowercase(),
        10 => *t = words.first().cloned().unwrap_or_default(),
        9 => *t = words.iter().filter_map(|w| w.chars().next()).collect(),
        8 => {
            *t = s
                .pick(&[
                    "", "rw", "RW", "ro", "RO", "wo", "W1C", "w1c", "rc_w1", "none", "any", "p", "S", "N",
                    "nonsecure", "secure", "privileged", "privilege", "unsecure", "read", "write", "read-write-once",
                    "readwrite", "little-endian", "big-endian", "LE", "configurable", "mixed", "buffers", "register",
                    "reserve", "u8", "U8", "uint8_t*", "uint8_t  *", "uint8", "int", "char", "float", "uint128_t",
                    "clears", "modifyExtern", "modify_external", "oneToClr", "onesToClear", "true", "0", "1", "null",
                    "default", "%s", "read-write,write-only",
                ])
                .to_string()
        }
        0 => *t = t.to_uppercase(),
        1 => *t = t.to_lowercase(),
        2 => {
            t.pop();
        }
        3 => t.push(*s.pick(&['s', ' ', 'e', '*', '_', '1', '\u{a0}', '\0'])),
        4 => *t = t.replace('-', ""),
        5 => *t = t.replace(['-', ' '], *s.pick(&["_", " ", "--", "", "\u{2010}"])),
        6 => {
            let mut cs: Vec<char> = t.chars().collect();
            if !cs.is_empty() {
                let i = s.idx(cs.len());
                let c0 = cs[i];
                cs[i] = if c0.is_uppercase() {
                    c0.to_ascii_lowercase()
                } else {
                    c0.to_ascii_uppercase()
                };
            }
            *t = cs.into_iter().collect();
        }
        _ => {
            let mut cs: Vec<char> = t.chars().collect();
            if cs.len() > 1 {
                let i = s.idx(cs.len() - 1);
                cs.swap(i, i + 1);
            }
            *t = cs.into_iter().collect();
        }
    }
}

fn near_miss(s: &mut Src, cov: &mut Cov, c: &KwClass, pos: usize, t: String) -> Out {
    cov.input(format!("{} = {t:?}", c.pos[pos].0));
    let want = c.words.iter().find(|w| **w == t);
    let got = quietly(|| (c.text)(&t))?;
    ensure!(
        got.as_deref() == want.copied(),
        "{} text {t:?} is read as {got:?}",
        c.name
    );
    let swant = c.serde.iter().position(|w| *w == t).map(|i| c.words[i].to_string());
    let sgot = quietly(|| (c.de)(serde_json::json!(t)))?;
    ensure!(sgot == swant, "{} serialized as {t:?} is read as {sgot:?}", c.name);
    let j = match s.below(4) {
        0 => serde_json::json!(s.below(16)),
        1 => serde_json::Value::Null,
        2 => serde_json::json!([t]),
        _ => serde_json::json!(s.flip()),
    };
    let sgot = quietly(|| (c.de)(j.clone()))?;
    ensure!(sgot.is_none(), "{} serialized as {j} is read as {sgot:?}", c.name);
    let dwant = c.words.iter().find(|w| **w == t.trim()).copied();
    cov.hit(if dwant.is_some() { "keyword" } else { "near miss" });
    cov.nontrivial();
    let (path, get) = &c.pos[pos];
    let mut x = sample_xml();
    set_text(&mut x, path, &t);
    match (parse_at(&x.print(), ValidateLevel::Disabled), dwant) {
        (Ok(d), Some(w)) => {
            let g = get(&lift(&d));
            ensure!(g == Some(w), "{path} = {t:?} read as {g:?}");
        }
        (Ok(d), None) => fail!("{path} = {t:?} was accepted as {:?}", get(&lift(&d))),
        (Err(e), Some(_)) => fail!("{path} = {t:?} rejected: {e}"),
        (Err(e), None) => ensure!(!e.contains("panicked"), "{e}"),
    }
    Ok(())
}
/// what the documentation says of each keyword: its permissions, and which is the default
fn meanings() -> Out {
    for (w, r, wr) in [
        ("read-only", true, false),
        ("read-write", true, true),
        ("read-writeOnce", true, true),
        ("writeOnce", false, true),
        ("write-only", false, true),
    ] {
        let a = access_v(w);
        ensure!(a.can_read() == r, "{w}: can_read is {}", !r);
        ensure!(a.can_write() == wr, "{w}: can_write is {}", !wr);
    }
    let got = quietly(|| {
        [
            access_s(Default::default()),
            usage_s(Default::default()),
            abusage_s(Default::default()),
            endian_s(Default::default()),
            mwv_s(Default::default()),
        ]
    })?;
    let want = ["read-write", "read-write", "registers", "little", "modify"];
    ensure!(got == want, "the default keywords are {got:?}, expected {want:?}");
    Ok(())
}
fn all_keywords() -> Out {
    for c in classes() {
        for i in 0..c.words.len() {
            for p in 0..c.pos.len() {
                keyword_everywhere(&c, i, p)?;
            }
        }
    }
    Ok(())
}

pub const P24: Prop = Prop {
    id: "P24",
    title: "Keywords map one to one in every direction",
    rule: "one keyword or near-miss text in one position of a device that has every item; the fixed input enumerates every keyword in every position",
    quick: 40_000,
    thorough: 1_500_000,
    case: p24,
    directed: &[Directed {
        name: "all-keywords",
        run: all_keywords,
    },
    Directed {
        name: "meanings",
        run: meanings,
    }],
    assumptions: &[],
};
