//! Generators of model devices, and the renderer that writes a model as an SVD document with
//! freely chosen number, boolean, bit range and index notations.

use crate::engine::{literals, Cov, Src};
use crate::model::*;
use crate::xml::X;
use std::collections::HashSet;

/// What the generated device may contain
#[derive(Clone, Copy)]
pub struct G {
    /// acceptable at the strict level (otherwise at the weak one)
    pub strict: bool,
    pub arrays: bool,
    /// free-form `derivedFrom` strings (not meant to resolve)
    pub derive: bool,
    /// at most this many nested cluster levels
    pub depth: u32,
    /// plain one-word texts
    pub plain: bool,
    /// every number fits in 31 bits and every range in 32 bits
    pub small: bool,
    /// lists may have elements equal or nearly equal to others, and now and then many of them
    pub dup: bool,
}
impl G {
    pub fn any(s: &mut Src) -> G {
        G {
            strict: s.flip(),
            arrays: s.chance(3, 4),
            derive: s.flip(),
            depth: s.below(4) as u32,
            plain: s.chance(1, 4),
            small: false,
            dup: s.chance(1, 3),
        }
    }
}

pub type Used = HashSet<String>;

const WORDS: &[&str] = &[
    "A", "CR", "ctrl", "Status", "DATA_OUT", "gpio_a", "TIMER", "camelCase", "PascalName", "x",
    "_priv", "MODER", "I2C", "Reg", "AHB_Ctl", "IDx", "b0", "Q_q",
];

pub fn ident(s: &mut Src, used: &mut Used) -> String {
    let mut n = s.pick(WORDS).to_string();
    if s.chance(1, 3) {
        n.push_str(*s.pick(&["_1", "2", "_x", "Z", "_EN", "10", "_"]));
    }
    let lit = &literals().idents;
    if !lit.is_empty() && s.chance(1, 16) {
        let w = s.pick(lit);
        n = match s.below(4) {
            0 => w.clone(),
            1 => format!("{n}{w}"),
            2 => format!("{w}{n}"),
            _ => format!("{n}_{w}"),
        };
    }
    if s.chance(1, 100) {
        for _ in 0..2 + s.below(40) {
            n.push('_');
            n.push_str(*s.pick(WORDS));
        }
    }
    while !used.insert(n.clone()) {
        n.push_str(*s.pick(&["_b", "X", "7", "_A"]));
    }
    n
}

const PIECES: &[&str] = &[
    "d", "word", "a & b", "<tag>", "x > y", "\"quoted\"", "it's", "é", "日本語", "ß—", "𝄞", "0x10",
    "[%s]", "%s", "]]>", "--", "&amp;", "&#10;", "tab\there", "two\nlines", "line\n    indented",
    "a  b", "100%", "\\n", ";", "{}", "\u{a0}x", "\u{feff}", "\u{200b}", "\u{ad}", "x\u{2028}y", "C:\\dir", "é́", "-", ".",
];

/// Non-blank text without surrounding white space
pub fn text(s: &mut Src, g: &G) -> String {
    if g.plain {
        return s.pick(WORDS).to_string();
    }
    let piece = |s: &mut Src| -> &'static str {
        let lit = &literals().words;
        if !lit.is_empty() && s.chance(1, 16) {
            s.pick(lit)
        } else {
            s.pick(PIECES)
        }
    };
    let mut t = String::from(piece(s));
    for _ in 0..s.below(4) {
        t.push_str(*s.pick(&[" ", "", "_", "\n", " "]));
        t.push_str(piece(s));
    }
    if s.chance(1, 60) {
        for _ in 0..s.below(300) {
            t.push_str(*s.pick(PIECES));
        }
    }
    let mut t = t.trim().to_string();
    if s.chance(1, 4000) {
        // longer than any buffer
        let n = 1 + (1usize << s.below(17)) / t.len().max(1);
        t = t.repeat(n).trim().to_string();
    }
    if t.is_empty() {
        "d".into()
    } else {
        t
    }
}
/// text for name-kind elements: an identifier at strict level, anything otherwise
pub fn nametext(s: &mut Src, g: &G, used: &mut Used) -> String {
    if g.strict || g.plain || s.chance(3, 4) {
        ident(s, used)
    } else {
        let mut t = text(s, g).replace("%s", "%");
        while !used.insert(t.clone()) {
            t.push('_');
        }
        t
    }
}

fn otext(s: &mut Src, g: &G, num: u64, den: u64) -> Option<String> {
    s.opt(num, den, |s| text(s, g))
}

pub fn kw(s: &mut Src, k: &'static [Kw]) -> Kw {
    *s.pick(k)
}

pub fn num32(s: &mut Src, g: &G) -> u32 {
    if g.small {
        s.below(0x1000) as u32
    } else {
        s.num(32) as u32
    }
}
pub fn num64(s: &mut Src, g: &G) -> u64 {
    if g.small {
        s.num(30)
    } else {
        s.num(64)
    }
}

fn below_pow(s: &mut Src, width: u32) -> u64 {
    s.num(width.min(64))
}

pub fn props(s: &mut Src, g: &G) -> Props {
    if !s.flip() {
        return Props::default();
    }
    let size = s.opt(1, 2, |s| if s.chance(1, 4) { 1 + s.below(64) as u32 } else { *s.pick(&[32u32, 8, 16, 64, 1, 24, 7, 48]) });
    let access = s.opt(1, 3, |s| kw(s, ACCESS));
    let prot = s.opt(1, 4, |s| kw(s, PROT));
    let bits = size.unwrap_or(64).min(64);
    let mut rmask = s.opt(1, 3, |s| {
        if g.strict {
            s.num(bits)
        } else {
            s.num(64)
        }
    });
    let mut rval = s.opt(1, 2, |s| s.num(bits));
    if g.strict {
        if let (Some(v), Some(m)) = (rval, rmask) {
            rval = Some(v & m);
        }
    }
    if g.small {
        // keep clear of anything a later composition of properties could make inconsistent
        rmask = rmask.map(|_| 0xff);
        rval = rval.map(|v| v & 1);
    }
    Props {
        size,
        access,
        prot,
        rval,
        rmask,
    }
}

pub fn ev(s: &mut Src, g: &G, width: u32, used: &mut Used) -> Ev {
    let name = nametext(s, g, used);
    let desc = otext(s, g, 1, 2);
    let (value, is_default) = match s.below(8) {
        6 => (None, Some(true)),
        7 if !g.strict => (Some(below_pow(s, width)), Some(true)),
        5 => (Some(below_pow(s, width)), Some(false)),
        _ => (Some(below_pow(s, width)), None),
    };
    Ev {
        name,
        desc,
        value,
        is_default,
    }
}

pub fn derived_text(s: &mut Src, g: &G) -> String {
    if !g.strict && s.chance(1, 4) {
        let t = text(s, g).replace(['\n', '\t'], " ");
        return match s.below(12) {
            0 => String::new(),
            1 => format!(" {t}"),
            2 => format!("{t} "),
            _ => t,
        };
    }
    let mut u = Used::new();
    let mut p = ident(s, &mut u);
    for _ in 0..s.below(3) {
        p.push('.');
        p.push_str(&ident(s, &mut u));
    }
    p
}

pub fn evs(s: &mut Src, g: &G, width: u32, usage: Option<Kw>, used: &mut Used) -> Evs {
    let derived = if g.derive {
        s.opt(1, 5, |s| derived_text(s, g))
    } else {
        None
    };
    let name = s.opt(1, 2, |s| nametext(s, g, used));
    let min = if derived.is_some() { 0 } else { 1 };
    let mut u = Used::new();
    let values = s.vec(min, 6, |s| ev(s, g, width, &mut u));
    Evs {
        name,
        usage,
        derived,
        values,
    }
}

fn wc(s: &mut Src, width: u32) -> Wc {
    match s.below(4) {
        0 => Wc::AsRead(s.flip()),
        1 => Wc::UseEv(s.flip()),
        _ => {
            let a = below_pow(s, width);
            let b = below_pow(s, width);
            Wc::Range(a.min(b), a.max(b))
        }
    }
}

pub fn dim(s: &mut Src, g: &G, max: u32) -> Dim {
    // once in a while a long one
    let long = if max > 3 && s.chance(1, 50) { 20 + s.below(130) } else { 0 };
    let index = s.opt(2, 3, |s| {
        let n = (long + 1 + s.below(max as u64)) as usize;
        let mut v: Vec<String> = match s.below(5) {
            0 => (0..n as u32).map(|i| i.to_string()).collect(),
            1 => {
                let b = if s.chance(1, 8) {
                    u32::MAX - n as u32 + 1
                } else {
                    s.below(20) as u32
                };
                (0..n as u32).map(|i| (b + i).to_string()).collect()
            }
            2 => {
                let b = if s.flip() { b'A' } else { b'a' };
                let k = s.below((26 - n.min(26) + 1) as u64) as u8;
                (0..n.min(26) as u8).map(|i| ((b + k + i) as char).to_string()).collect()
            }
            3 => {
                let mut u = Used::new();
                (0..n).map(|_| ident(s, &mut u)).collect::<Vec<_>>()
            }
            _ => (0..n)
                .map(|i| {
                    s.pick(&["0", "00", "01", "7", "A", "x1", "4294967295", "3", "B2"])
                        .to_string()
                        + if i > 2 { "_" } else { "" }
                })
                .collect(),
        };
        // numbers in a form of their own
        if v.iter().all(|x| x.parse::<u32>().is_ok()) && s.chance(1, 8) {
            let w = v.iter().map(|x| x.len()).max().unwrap_or(0) + s.idx(2);
            let how = s.below(3);
            let only = if s.flip() { Some(s.idx(v.len())) } else { None };
            for (k, x) in v.iter_mut().enumerate() {
                if only.is_none() || only == Some(k) {
                    *x = match how {
                        0 => format!("+{x}"),
                        1 => format!("{x:0>w$}"),
                        _ => format!("0x{x}"),
                    };
                }
            }
        }
        // the same indexes out of order
        if v.len() > 1 && s.chance(1, 5) {
            match s.below(4) {
                0 => v.reverse(),
                1 if v.len() > 3 => {
                    let k = 1 + s.below(v.len() as u64 - 3) as usize;
                    v.swap(k, k + 1);
                }
                _ => {
                    let (a, b) = (s.idx(v.len()), s.idx(v.len()));
                    v.swap(a, b);
                }
            }
        }
        v
    });
    let n = match &index {
        Some(v) => v.len() as u32,
        None => (long + s.below(max as u64 + 1)) as u32,
    };
    let mut u = Used::new();
    Dim {
        dim: n,
        inc: num32(s, g),
        index,
        name: s.opt(1, 6, |s| ident(s, &mut u)),
        dai: s.opt(1, 6, |s| Dai {
            hdr: s.opt(1, 2, |s| ident(s, &mut u)),
            values: s.vec(0, 4, |s| {
                let name = nametext(s, g, &mut u);
                let desc = otext(s, g, 1, 2);
                let value = Some(s.below(8));
                let (value, is_default) = match s.below(12) {
                    0 => (None, Some(true)),
                    1 if !g.strict => (value, Some(true)),
                    2 => (value, Some(false)),
                    _ => (value, None),
                };
                Ev { name, desc, value, is_default }
            }),
        }),
    }
}
pub fn array_name(s: &mut Src, base: &str) -> String {
    match s.below(6) {
        0 | 1 | 2 => format!("{base}%s"),
        3 => format!("{base}[%s]"),
        4 if base.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') => {
            format!("%s{base}")
        }
        _ => format!("{base}%s_{base}"),
    }
}
/// As `array_name`, or with the placeholder more than once (which is no strict name)
pub fn array_name_free(s: &mut Src, base: &str) -> String {
    match s.below(5) {
        0 => format!("{base}%s_x%s"),
        1 => format!("%s{base}[%s]"),
        2 => format!("{base}[%s]_x[%s]"),
        _ => array_name(s, base),
    }
}

fn named(s: &mut Src, g: &G, used: &mut Used) -> (String, Option<Dim>) {
    if g.arrays && s.chance(1, 4) {
        let d = dim(s, g, 5);
        let b = ident(s, used);
        let n = if !g.strict && s.chance(1, 6) {
            array_name_free(s, &b)
        } else {
            array_name(s, &b)
        };
        (n, Some(d))
    } else {
        (nametext(s, g, used), None)
    }
}

pub fn field(s: &mut Src, g: &G, used: &mut Used) -> Field {
    let (name, dim) = named(s, g, used);
    let brt = *s.pick(&[Brt::Br, Brt::Ow, Brt::Ml]);
    let (off, width) = if s.chance(1, 10) {
        // all of a register
        (0, *s.pick(if g.small { &[8, 16, 31, 32][..] } else { &[8, 16, 32, 63, 64][..] }))
    } else if g.small || g.strict || !s.chance(1, 12) {
        let off = s.below(if g.small { 31 } else { 64 }) as u32;
        let lim = (if g.small { 32 } else { 64 }) - off as u64;
        (off, 1 + s.below(lim) as u32)
    } else {
        // legal for a document, though no register is that wide
        let off = s.num(31) as u32;
        (off, 1 + s.num(31) as u32)
    };
    let derived = if g.derive {
        s.opt(1, 6, |s| derived_text(s, g))
    } else {
        None
    };
    let mut eu = Used::new();
    let n = s.below(6);
    let evl = if g.strict {
        match n {
            4 => {
                let u = s.opt(1, 2, |s| kw(s, USAGE));
                vec![evs(s, g, width, u, &mut eu)]
            }
            5 => {
                let (a, b) = if s.flip() {
                    ("write", "read")
                } else {
                    ("read", "write")
                };
                vec![
                    evs(s, g, width, Some(a), &mut eu),
                    evs(s, g, width, Some(b), &mut eu),
                ]
            }
            _ => vec![],
        }
    } else if n > 3 {
        (0..=s.below(3))
            .map(|_| {
                let u = s.opt(2, 3, |s| kw(s, USAGE));
                evs(s, g, width, u, &mut eu)
            })
            .collect()
    } else {
        vec![]
    };
    Field {
        name,
        desc: otext(s, g, 1, 2),
        off,
        width,
        brt,
        access: s.opt(1, 3, |s| kw(s, ACCESS)),
        mwv: s.opt(1, 5, |s| kw(s, MWV)),
        wc: s.opt(1, 5, |s| wc(s, width)),
        ra: s.opt(1, 5, |s| kw(s, RA)),
        evs: evl,
        derived,
        dim,
    }
}

pub fn reg(s: &mut Src, g: &G, used: &mut Used) -> Reg {
    let (name, dim) = named(s, g, used);
    let derived = if g.derive {
        s.opt(1, 6, |s| derived_text(s, g))
    } else {
        None
    };
    let fields = s.opt(3, 4, |s| {
        let mut u = Used::new();
        let min = if g.strict && derived.is_none() { 1 } else { 0 };
        s.vec(min, 5, |s| field(s, g, &mut u))
    });
    let mut u = Used::new();
    Reg {
        name,
        display: otext(s, g, 1, 4),
        desc: otext(s, g, 1, 2),
        alt_group: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        alt_reg: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        off: num32(s, g),
        props: props(s, g),
        dtype: s.opt(1, 6, |s| kw(s, DTYPE)),
        mwv: s.opt(1, 6, |s| kw(s, MWV)),
        wc: s.opt(1, 8, |s| wc(s, 64)),
        ra: s.opt(1, 6, |s| kw(s, RA)),
        fields,
        derived,
        dim,
    }
}

pub fn clu(s: &mut Src, g: &G, depth: u32, used: &mut Used) -> Clu {
    let (name, dim) = named(s, g, used);
    let derived = if g.derive {
        s.opt(1, 5, |s| derived_text(s, g))
    } else {
        None
    };
    let min = if g.strict && derived.is_none() { 1 } else { 0 };
    let mut u = Used::new();
    let children = s.vec(min, 4, |s| rc(s, g, depth + 1, &mut u));
    let mut u = Used::new();
    Clu {
        name,
        desc: otext(s, g, 1, 2),
        alt: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        hdr: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        off: num32(s, g),
        props: props(s, g),
        children,
        derived,
        dim,
    }
}

pub fn rc(s: &mut Src, g: &G, depth: u32, used: &mut Used) -> Rc {
    if depth < g.depth && s.chance(1, 3) {
        Rc::C(clu(s, g, depth, used))
    } else {
        Rc::R(reg(s, g, used))
    }
}

pub fn ab(s: &mut Src, g: &G) -> Ab {
    Ab {
        off: num32(s, g),
        size: num32(s, g),
        usage: kw(s, ABUSAGE),
        prot: s.opt(1, 3, |s| kw(s, PROT)),
    }
}
pub fn int(s: &mut Src, g: &G, used: &mut Used) -> Int {
    Int {
        name: nametext(s, g, used),
        desc: otext(s, g, 1, 2),
        value: num32(s, g),
    }
}

pub fn per(s: &mut Src, g: &G, used: &mut Used) -> Per {
    let (name, dim) = named(s, g, used);
    let mut u = Used::new();
    let derived = if g.derive {
        s.opt(1, 5, |s| {
            if g.strict {
                ident(s, &mut Used::new())
            } else {
                derived_text(s, g)
            }
        })
    } else {
        None
    };
    let regs = s.opt(5, 6, |s| {
        let min = if g.strict && derived.is_none() { 1 } else { 0 };
        s.vec(min, 6, |s| rc(s, g, 0, &mut u))
    });
    let mut u = Used::new();
    Per {
        name,
        display: otext(s, g, 1, 6),
        version: otext(s, g, 1, 6),
        desc: otext(s, g, 1, 2),
        alt: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        group: s.opt(1, 6, |s| nametext(s, g, &mut u)),
        prepend: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        append: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        hdr: s.opt(1, 8, |s| nametext(s, g, &mut u)),
        base: num64(s, g),
        props: props(s, g),
        abs: s.opt(1, 2, |s| s.vec(1, 3, |s| ab(s, g))),
        ints: s.vec(0, 3, |s| int(s, g, &mut u)),
        regs,
        derived,
        dim,
    }
}

pub fn cpu(s: &mut Src, g: &G) -> Cpu {
    let mut c = Cpu {
        name: s
            .pick(&[
                "CM4", "CM0PLUS", "CA9", "SC000", "other", "M7", "ACM", "CM", "CM0", "CM0+", "CM1", "CM3", "CM7", "CM23", "CM33",
                "CM35P", "CM52", "CM55", "CM85", "SMC1", "SC300", "ARMV8MBL", "ARMV8MML", "ARMV81MML", "CA5", "CA15", "CR5",
                "cm4", "Cm4", "cM4", "C", "M", "CMX", "CMx", "CM 4", "CM_4", "C M4", "XCM4", "MC4", "CCM4",
            ])
            .to_string(),
        revision: if s.flip() { "r0p1".into() } else { text(s, g) },
        endian: kw(s, ENDIAN),
        mpu: s.flip(),
        fpu: s.flip(),
        nvic: num32(s, g),
        systick: s.flip(),
        ..Default::default()
    };
    let ob = |s: &mut Src| s.opt(1, 3, |s| s.flip());
    c.fpu_dp = ob(s);
    c.dsp = ob(s);
    c.icache = ob(s);
    c.dcache = ob(s);
    c.itcm = ob(s);
    c.dtcm = ob(s);
    c.vtor = ob(s);
    c.nint = s.opt(1, 3, |s| num32(s, g));
    c.sau = s.opt(1, 3, |s| num32(s, g));
    c
}

pub fn dev(s: &mut Src, g: &G) -> Dev {
    let mut used = Used::new();
    let mut pers = s.vec(1, 4, |s| per(s, g, &mut used));
    if g.depth > 2 && s.chance(1, 12) {
        bury(s, g, &mut pers);
    }
    if g.dup {
        echo_pers(s, g, &mut pers);
    }
    Dev {
        vendor: otext(s, g, 1, 4),
        vendor_id: otext(s, g, 1, 4),
        name: {
            if s.flip() {
                text(s, g)
            } else {
                "DEV".into()
            }
        },
        series: otext(s, g, 1, 4),
        version: if s.flip() { text(s, g) } else { "1.0".into() },
        desc: if !g.strict && s.chance(1, 4) {
            String::new()
        } else {
            text(s, g)
        },
        license: otext(s, g, 1, 4),
        cpu: s.opt(1, 2, |s| cpu(s, g)),
        hsf: otext(s, g, 1, 6),
        hdp: otext(s, g, 1, 6),
        aub: if s.flip() { num32(s, g) } else { 8 },
        width: if s.flip() { num32(s, g) } else { 32 },
        props: props(s, g),
        pers,
        xs: if s.chance(1, 6) { s.pick(&["http://example.com/other", "urn:x?a=1&b=<2>", "u", " http://x ", "urn"]).to_string() } else { XS.into() },
        loc: if s.chance(1, 4) { s.pick(&["other.xsd", "a&b \"c\" <d>.xsd", "", "x y.xsd", " x.xsd", "x.xsd  ", " ", "CMSIS-SVD_Schema_1_1.xsd"]).to_string() } else { LOC.into() },
        schema: s.pick(&["1.1", "1.3", "1.3.9", "2.0", "1.10", " 1.1", "", "01.1"]).to_string(),
    }
}

/// Put one register or cluster under several more clusters
fn bury(s: &mut Src, g: &G, pers: &mut [Per]) {
    let n = s.idx(pers.len().max(1));
    let list = match pers.get_mut(n).and_then(|p| p.regs.as_mut()) {
        Some(v) if !v.is_empty() => v,
        _ => return,
    };
    let k = s.idx(list.len());
    let mut e = list.remove(k);
    let (mut used, outer) = (Used::new(), match &e {
        Rc::R(r) => r.name.clone(),
        Rc::C(c) => c.name.clone(),
    });
    let n = if s.chance(1, 20) { 12 + s.below(12) } else { 3 + s.below(7) };
    // at most one level of them is an array, as the numbers of items multiply
    let array = s.below(n);
    for i in 0..n {
        let mut c = clu(s, g, g.depth, &mut used);
        if (i != array || s.flip()) && c.dim.take().is_some() {
            c.name = ident(s, &mut used);
        }
        c.off = s.below(16) as u32;
        if s.chance(2, 3) {
            c.children.clear();
        }
        if s.chance(3, 4) {
            c.derived = None;
        }
        let at = s.idx(c.children.len() + 1);
        let mut names: Vec<&str> = vec![];
        for k in &c.children {
            names.push(match k {
                Rc::R(r) => &r.name,
                Rc::C(c) => &c.name,
            });
        }
        let own = match &e {
            Rc::R(r) => &r.name,
            Rc::C(c) => &c.name,
        };
        if names.contains(&own.as_str()) {
            c.children.clear();
            c.children.push(e);
        } else {
            c.children.insert(at, e);
        }
        e = Rc::C(c);
    }
    // the outermost takes the place and the name of the buried one where it can
    if let Rc::C(c) = &mut e {
        if c.dim.is_none() && !outer.contains('%') {
            c.name = outer;
        }
    }
    list.insert(k, e);
}

// ------------------------------------------------------------------ near-equal siblings

/// number of elements in an element, so that repeated lists in repeated lists stay small
trait Weight {
    fn weight(&self) -> usize {
        1
    }
}
impl Weight for Int {}
impl Weight for Ab {}
impl Weight for Ev {}
impl Weight for Field {
    fn weight(&self) -> usize {
        1 + self.evs.iter().map(|e| 1 + e.values.len()).sum::<usize>()
    }
}
impl Weight for Rc {
    fn weight(&self) -> usize {
        1 + match self {
            Rc::R(r) => r.fields.iter().flatten().map(Weight::weight).sum::<usize>(),
            Rc::C(c) => c.children.iter().map(Weight::weight).sum(),
        }
    }
}
impl Weight for Per {
    fn weight(&self) -> usize {
        1 + self.ints.len() + self.regs.iter().flatten().map(Weight::weight).sum::<usize>()
    }
}
/// Repeat some elements of a list, changed in at most one item, next to the original or anywhere;
/// once in a while so many of them that no small-list special case of anything applies.
fn echo<T: Clone + Weight>(s: &mut Src, v: &mut Vec<T>, many: bool, tweak: &mut dyn FnMut(&mut Src, &mut T)) {
    if v.is_empty() || !s.chance(1, 4) {
        return;
    }
    let n = if many && s.chance(1, 12) {
        match s.below(16) {
            0 => 300 + s.below(1500),
            1..=4 => 64 + s.below(240),
            _ => 20 + s.below(50),
        }
    } else {
        1 + s.below(2)
    };
    let mut room = if n < 300 { 600 } else { 2000 };
    for _ in 0..n {
        let i = s.idx(v.len());
        match v[i].weight() {
            w if w > room => break,
            w => room -= w,
        }
        let mut e = v[i].clone();
        if !s.chance(1, 4) {
            tweak(s, &mut e);
        }
        let at = match s.below(3) {
            0 => i + 1,
            1 => v.len(),
            _ => s.idx(v.len() + 1),
        };
        v.insert(at, e);
    }
}
/// a text that is also found elsewhere in the element
fn same(s: &mut Src, name: &str, other: &mut Option<String>) {
    if s.chance(1, 6) {
        *other = Some(name.to_string());
    }
}
fn echo_pers(s: &mut Src, g: &G, v: &mut Vec<Per>) {
    for p in v.iter_mut() {
        let n = p.name.clone();
        same(s, &n, &mut p.display);
        same(s, &n, &mut p.desc);
        if !n.contains('%') {
            same(s, &n, &mut p.group);
            same(s, &n, &mut p.prepend);
        }
        for i in &mut p.ints {
            let n = i.name.clone();
            same(s, &n, &mut i.desc);
        }
        echo(s, &mut p.ints, true, &mut |s, i| match s.below(3) {
            0 => i.desc = otext(s, g, 1, 2),
            1 => i.value = num32(s, g),
            _ => i.name = ident(s, &mut Used::new()),
        });
        if let Some(a) = &mut p.abs {
            echo(s, a, true, &mut |s, a| match s.below(4) {
                0 => a.off = num32(s, g),
                1 => a.size = num32(s, g),
                2 => a.usage = kw(s, ABUSAGE),
                _ => a.prot = s.opt(1, 2, |s| kw(s, PROT)),
            });
        }
        if let Some(r) = &mut p.regs {
            echo_rcs(s, g, r);
        }
    }
    echo(s, v, true, &mut |s, p| match s.below(4) {
        0 => p.desc = otext(s, g, 1, 2),
        1 => p.base = num64(s, g),
        2 if p.dim.is_none() => p.name = ident(s, &mut Used::new()),
        _ => p.props = props(s, g),
    });
}
fn echo_rcs(s: &mut Src, g: &G, v: &mut Vec<Rc>) {
    for k in v.iter_mut() {
        match k {
            Rc::C(c) => {
                let n = c.name.clone();
                same(s, &n, &mut c.desc);
                if !n.contains('%') {
                    same(s, &n, &mut c.hdr);
                }
                echo_rcs(s, g, &mut c.children);
            }
            Rc::R(r) => {
                let n = r.name.clone();
                same(s, &n, &mut r.display);
                same(s, &n, &mut r.desc);
                if !n.contains('%') {
                    same(s, &n, &mut r.alt_reg);
                    same(s, &n, &mut r.alt_group);
                }
                if let Some(f) = &mut r.fields {
                    echo_fields(s, g, f);
                }
            }
        }
    }
    echo(s, v, true, &mut |s, k| match k {
        Rc::R(r) => match s.below(4) {
            0 => r.desc = otext(s, g, 1, 2),
            1 => r.off = num32(s, g),
            2 if r.dim.is_none() => r.name = ident(s, &mut Used::new()),
            _ => r.props = props(s, g),
        },
        Rc::C(c) => match s.below(4) {
            0 => c.desc = otext(s, g, 1, 2),
            1 => c.off = num32(s, g),
            2 if c.dim.is_none() => c.name = ident(s, &mut Used::new()),
            _ => c.props = props(s, g),
        },
    });
}
fn echo_fields(s: &mut Src, g: &G, v: &mut Vec<Field>) {
    for f in v.iter_mut() {
        let n = f.name.clone();
        same(s, &n, &mut f.desc);
        for e in &mut f.evs {
            let width = f.width;
            for x in &mut e.values {
                let n = x.name.clone();
                same(s, &n, &mut x.desc);
            }
            echo(s, &mut e.values, true, &mut |s, x| match s.below(3) {
                0 => x.desc = otext(s, g, 1, 2),
                1 if x.value.is_some() => x.value = Some(below_pow(s, width)),
                _ => x.name = ident(s, &mut Used::new()),
            });
        }
    }
    echo(s, v, true, &mut |s, f| match s.below(3) {
        0 => f.desc = otext(s, g, 1, 2),
        1 if f.dim.is_none() => f.name = ident(s, &mut Used::new()),
        // moving a field keeps its width, so that what was in range stays so
        _ => f.off = s.below(64 - f.width.min(63) as u64) as u32,
    });
}

// ------------------------------------------------------------------ rendering

/// How a model is written
#[derive(Clone, Copy)]
pub struct Style {
    /// choose between the notations of numbers, booleans and index lists
    pub vary: bool,
    /// leave out device items equal to the defaults of the lenient levels
    pub omit: bool,
}
pub const PLAIN: Style = Style {
    vary: false,
    omit: false,
};

pub fn lit(s: &mut Src, st: Style, v: u64) -> String {
    if !st.vary {
        return v.to_string();
    }
    match s.below(9) {
        0 => format!("{v}"),
        1 => format!("0x{v:X}"),
        2 => format!("0x{v:x}"),
        3 => format!("0X{v:X}"),
        4 => format!("0x{:0w$X}", v, w = *s.pick(&[2usize, 4, 8, 9, 16, 20, 33, 90])),
        5 => format!("{:0w$}", v, w = *s.pick(&[2usize, 5, 12, 24, 48])),
        6 => {
            let t = format!("#{:0w$b}", v, w = *s.pick(&[1usize, 8, 32, 70, 200]));
            dontcare(s, t, 1)
        }
        7 => {
            let t = format!("0b{:0w$b}", v, w = *s.pick(&[1usize, 8, 32, 70, 200]));
            dontcare(s, t, 2)
        }
        _ => format!("0x{v:#X}").replacen("0x0x", "0x", 1),
    }
}
/// replace some zero digits by don't-care digits
fn dontcare(s: &mut Src, t: String, skip: usize) -> String {
    if !s.flip() {
        return t;
    }
    t.chars()
        .enumerate()
        .map(|(i, c)| {
            if i >= skip && c == '0' && s.flip() {
                *s.pick(&['x', 'X'])
            } else {
                c
            }
        })
        .collect()
}
pub fn boolean(s: &mut Src, st: Style, b: bool) -> String {
    if st.vary && s.flip() {
        (b as u8).to_string()
    } else {
        b.to_string()
    }
}

/// the shortest range notation of an index list, if there is one
pub fn as_range(v: &[String]) -> Option<String> {
    let n = v.len();
    let nums: Option<Vec<u32>> = v
        .iter()
        .map(|x| x.parse::<u32>().ok().filter(|k| k.to_string() == *x))
        .collect();
    if let Some(k) = nums {
        if k.windows(2).all(|w| w[0].checked_add(1) == Some(w[1])) {
            return Some(format!("{}-{}", k[0], k[n - 1]));
        }
        return None;
    }
    let cs: Option<Vec<u8>> = v
        .iter()
        .map(|x| {
            let b = x.as_bytes();
            if b.len() == 1 && b[0].is_ascii_alphabetic() {
                Some(b[0])
            } else {
                None
            }
        })
        .collect();
    let c = cs?;
    let same = c.iter().all(|x| x.is_ascii_lowercase()) || c.iter().all(|x| x.is_ascii_uppercase());
    if same && c.windows(2).all(|w| w[0] + 1 == w[1]) {
        Some(format!("{}-{}", c[0] as char, c[n - 1] as char))
    } else {
        None
    }
}
pub fn index_text(s: &mut Src, st: Style, v: &[String]) -> String {
    if st.vary && s.flip() {
        if let Some(r) = as_range(v) {
            return r;
        }
    }
    let sep = if st.vary && s.chance(1, 4) { ", " } else { "," };
    v.join(sep)
}

pub fn r_props(s: &mut Src, st: Style, x: &mut X, p: &Props) {
    if let Some(v) = p.size {
        x.add("size", lit(s, st, v as u64));
    }
    if let Some(v) = p.access {
        x.add("access", v);
    }
    if let Some(v) = p.prot {
        x.add("protection", v);
    }
    if let Some(v) = p.rval {
        x.add("resetValue", lit(s, st, v));
    }
    if let Some(v) = p.rmask {
        x.add("resetMask", lit(s, st, v));
    }
}
pub fn r_ev(s: &mut Src, st: Style, e: &Ev) -> X {
    let mut x = X::new("enumeratedValue");
    x.add("name", e.name.clone());
    x.add_opt("description", &e.desc);
    if let Some(v) = e.value {
        x.add("value", lit(s, st, v));
    }
    if let Some(v) = e.is_default {
        x.add("isDefault", boolean(s, st, v));
    }
    x
}
pub fn r_evs(s: &mut Src, st: Style, e: &Evs) -> X {
    let mut x = X::new("enumeratedValues");
    if let Some(d) = &e.derived {
        x.attr("derivedFrom", d.clone());
    }
    x.add_opt("name", &e.name);
    if let Some(u) = e.usage {
        x.add("usage", u);
    }
    for v in &e.values {
        x.push(r_ev(s, st, v));
    }
    x
}
pub fn r_wc(s: &mut Src, st: Style, w: &Wc) -> X {
    let mut x = X::new("writeConstraint");
    match *w {
        Wc::AsRead(b) => x.add("writeAsRead", boolean(s, st, b)),
        Wc::UseEv(b) => x.add("useEnumeratedValues", boolean(s, st, b)),
        Wc::Range(a, b) => {
            let mut r = X::new("range");
            r.add("minimum", lit(s, st, a));
            r.add("maximum", lit(s, st, b));
            x.push(r);
        }
    }
    x
}
pub fn r_dim(s: &mut Src, st: Style, x: &mut X, d: &Option<Dim>) {
    if let Some(d) = d {
        x.add("dim", lit(s, st, d.dim as u64));
        x.add("dimIncrement", lit(s, st, d.inc as u64));
        if let Some(i) = &d.index {
            x.add("dimIndex", index_text(s, st, i));
        }
        x.add_opt("dimName", &d.name);
        if let Some(a) = &d.dai {
            let mut y = X::new("dimArrayIndex");
            y.add_opt("headerEnumName", &a.hdr);
            for v in &a.values {
                y.push(r_ev(s, st, v));
            }
            x.push(y);
        }
    }
}
pub fn r_bits(s: &mut Src, st: Style, x: &mut X, f: &Field) {
    let msb = (f.off as u64 + f.width as u64).wrapping_sub(1);
    match f.brt {
        Brt::Br => x.add("bitRange", format!("[{msb}:{}]", f.off)),
        Brt::Ml => {
            x.add("lsb", lit(s, st, f.off as u64));
            x.add("msb", lit(s, st, msb));
        }
        Brt::Ow => {
            x.add("bitOffset", lit(s, st, f.off as u64));
            x.add("bitWidth", lit(s, st, f.width as u64));
        }
    }
}
pub fn r_field(s: &mut Src, st: Style, f: &Field) -> X {
    let mut x = X::new("field");
    if let Some(d) = &f.derived {
        x.attr("derivedFrom", d.clone());
    }
    r_dim(s, st, &mut x, &f.dim);
    x.add("name", f.name.clone());
    x.add_opt("description", &f.desc);
    r_bits(s, st, &mut x, f);
    if let Some(v) = f.access {
        x.add("access", v);
    }
    if let Some(v) = f.mwv {
        x.add("modifiedWriteValues", v);
    }
    if let Some(v) = &f.wc {
        x.push(r_wc(s, st, v));
    }
    if let Some(v) = f.ra {
        x.add("readAction", v);
    }
    for e in &f.evs {
        x.push(r_evs(s, st, e));
    }
    x
}
pub fn r_reg(s: &mut Src, st: Style, r: &Reg) -> X {
    let mut x = X::new("register");
    if let Some(d) = &r.derived {
        x.attr("derivedFrom", d.clone());
    }
    r_dim(s, st, &mut x, &r.dim);
    x.add("name", r.name.clone());
    x.add_opt("displayName", &r.display);
    x.add_opt("description", &r.desc);
    x.add_opt("alternateGroup", &r.alt_group);
    x.add_opt("alternateRegister", &r.alt_reg);
    x.add("addressOffset", lit(s, st, r.off as u64));
    r_props(s, st, &mut x, &r.props);
    if let Some(v) = r.dtype {
        x.add("dataType", v);
    }
    if let Some(v) = r.mwv {
        x.add("modifiedWriteValues", v);
    }
    if let Some(v) = &r.wc {
        x.push(r_wc(s, st, v));
    }
    if let Some(v) = r.ra {
        x.add("readAction", v);
    }
    if let Some(fs) = &r.fields {
        let mut y = X::new("fields");
        for f in fs {
            y.push(r_field(s, st, f));
        }
        x.push(y);
    }
    x
}
pub fn r_clu(s: &mut Src, st: Style, c: &Clu) -> X {
    let mut x = X::new("cluster");
    if let Some(d) = &c.derived {
        x.attr("derivedFrom", d.clone());
    }
    r_dim(s, st, &mut x, &c.dim);
    x.add("name", c.name.clone());
    x.add_opt("description", &c.desc);
    x.add_opt("alternateCluster", &c.alt);
    x.add_opt("headerStructName", &c.hdr);
    x.add("addressOffset", lit(s, st, c.off as u64));
    r_props(s, st, &mut x, &c.props);
    for k in &c.children {
        x.push(r_rc(s, st, k));
    }
    x
}
pub fn r_rc(s: &mut Src, st: Style, k: &Rc) -> X {
    match k {
        Rc::R(r) => r_reg(s, st, r),
        Rc::C(c) => r_clu(s, st, c),
    }
}
pub fn r_int(s: &mut Src, st: Style, i: &Int) -> X {
    let mut x = X::new("interrupt");
    x.add("name", i.name.clone());
    x.add_opt("description", &i.desc);
    x.add("value", lit(s, st, i.value as u64));
    x
}
pub fn r_per(s: &mut Src, st: Style, p: &Per) -> X {
    let mut x = X::new("peripheral");
    if let Some(d) = &p.derived {
        x.attr("derivedFrom", d.clone());
    }
    r_dim(s, st, &mut x, &p.dim);
    x.add("name", p.name.clone());
    x.add_opt("displayName", &p.display);
    x.add_opt("version", &p.version);
    x.add_opt("description", &p.desc);
    x.add_opt("alternatePeripheral", &p.alt);
    x.add_opt("groupName", &p.group);
    x.add_opt("prependToName", &p.prepend);
    x.add_opt("appendToName", &p.append);
    x.add_opt("headerStructName", &p.hdr);
    x.add("baseAddress", lit(s, st, p.base));
    r_props(s, st, &mut x, &p.props);
    for a in p.abs.iter().flatten() {
        let mut y = X::new("addressBlock");
        y.add("offset", lit(s, st, a.off as u64));
        y.add("size", lit(s, st, a.size as u64));
        y.add("usage", a.usage);
        if let Some(v) = a.prot {
            y.add("protection", v);
        }
        x.push(y);
    }
    for i in &p.ints {
        x.push(r_int(s, st, i));
    }
    if let Some(rs) = &p.regs {
        let mut y = X::new("registers");
        for r in rs {
            y.push(r_rc(s, st, r));
        }
        x.push(y);
    }
    x
}
pub fn r_cpu(s: &mut Src, st: Style, c: &Cpu) -> X {
    let mut x = X::new("cpu");
    x.add("name", c.name.clone());
    x.add("revision", c.revision.clone());
    x.add("endian", c.endian);
    x.add("mpuPresent", boolean(s, st, c.mpu));
    x.add("fpuPresent", boolean(s, st, c.fpu));
    for (t, v) in [
        ("fpuDP", c.fpu_dp),
        ("dspPresent", c.dsp),
        ("icachePresent", c.icache),
        ("dcachePresent", c.dcache),
        ("itcmPresent", c.itcm),
        ("dtcmPresent", c.dtcm),
        ("vtorPresent", c.vtor),
    ] {
        if let Some(v) = v {
            x.add(t, boolean(s, st, v));
        }
    }
    x.add("nvicPrioBits", lit(s, st, c.nvic as u64));
    x.add("vendorSystickConfig", boolean(s, st, c.systick));
    if let Some(v) = c.nint {
        x.add("deviceNumInterrupts", lit(s, st, v as u64));
    }
    if let Some(v) = c.sau {
        x.add("sauNumRegions", lit(s, st, v as u64));
    }
    x
}
pub fn r_dev(s: &mut Src, st: Style, d: &Dev) -> X {
    let mut x = X::new("device");
    let omit = |s: &mut Src| st.omit && s.flip();
    if !(d.schema == "1.1" && omit(s)) {
        x.attr("schemaVersion", d.schema.clone());
    }
    if !(d.loc == LOC && d.xs == XS && omit(s)) {
        x.attr("xmlns:xs", d.xs.clone());
        if !(d.loc == LOC && omit(s)) {
            x.attr("xs:noNamespaceSchemaLocation", d.loc.clone());
        }
    }
    x.add_opt("vendor", &d.vendor);
    x.add_opt("vendorID", &d.vendor_id);
    x.add("name", d.name.clone());
    x.add_opt("series", &d.series);
    if !(d.version == "1.0" && omit(s)) {
        x.add("version", d.version.clone());
    }
    if !(d.desc.is_empty() && omit(s)) {
        x.add("description", d.desc.clone());
    }
    x.add_opt("licenseText", &d.license);
    if let Some(c) = &d.cpu {
        x.push(r_cpu(s, st, c));
    }
    x.add_opt("headerSystemFilename", &d.hsf);
    x.add_opt("headerDefinitionsPrefix", &d.hdp);
    if !(d.aub == 8 && omit(s)) {
        x.add("addressUnitBits", lit(s, st, d.aub as u64));
    }
    if !(d.width == 32 && omit(s)) {
        x.add("width", lit(s, st, d.width as u64));
    }
    r_props(s, st, &mut x, &d.props);
    let mut y = X::new("peripherals");
    for p in &d.pers {
        y.push(r_per(s, st, p));
    }
    x.push(y);
    x
}

// ------------------------------------------------------------------ walking

pub fn each_rc<'a>(v: &'a [Rc], f: &mut impl FnMut(&'a Rc, u32), depth: u32) {
    for k in v {
        f(k, depth);
        if let Rc::C(c) = k {
            each_rc(&c.children, f, depth + 1);
        }
    }
}
#[derive(Default, Clone, Copy)]
pub struct Shape {
    pub regs: u64,
    pub clus: u64,
    pub fields: u64,
    pub evs: u64,
    pub arrays: u64,
    pub derived: u64,
    pub depth: u32,
}
pub fn shape(d: &Dev) -> Shape {
    let mut h = Shape::default();
    for p in &d.pers {
        h.arrays += p.dim.is_some() as u64;
        h.derived += p.derived.is_some() as u64;
        each_rc(
            p.regs.as_deref().unwrap_or(&[]),
            &mut |k, dep| {
                h.depth = h.depth.max(dep);
                h.derived += k.derived().is_some() as u64;
                match k {
                    Rc::C(c) => {
                        h.clus += 1;
                        h.arrays += c.dim.is_some() as u64;
                    }
                    Rc::R(r) => {
                        h.regs += 1;
                        h.arrays += r.dim.is_some() as u64;
                        for f in r.fields.iter().flatten() {
                            h.fields += 1;
                            h.arrays += f.dim.is_some() as u64;
                            h.derived += f.derived.is_some() as u64;
                            for e in &f.evs {
                                h.evs += 1;
                                h.derived += e.derived.is_some() as u64;
                            }
                        }
                    }
                }
            },
            0,
        );
    }
    h
}
/// Record what kind of device the case had
pub fn classify(d: &Dev, cov: &mut Cov) -> Shape {
    let h = shape(d);
    cov.hit_if(h.regs > 0, "has registers");
    cov.hit_if(h.clus > 0, "has clusters");
    cov.hit_if(h.depth > 0 && h.clus > 1, "nested clusters");
    cov.hit_if(h.fields > 0, "has fields");
    cov.hit_if(h.evs > 0, "has enumeratedValues");
    cov.hit_if(h.arrays > 0, "has arrays");
    cov.hit_if(h.derived > 0, "has derivedFrom");
    cov.hit_if(d.cpu.is_some(), "has cpu");
    h
}
