//! P01: totality of the reader, and of everything a user does with what it read
use super::doc::{encode_with, LEVELS};
use super::enc::{number_formats, BRN, IDF, IDS};
use crate::engine::*;
use crate::gen::*;
use crate::link;
use crate::model::*;
use crate::xml::*;
use crate::{ensure, fail};
use svd_encoder::Config;
use svd_parser::expand::{self, BlockPath, Index, RegisterPath};
use svd_parser::svd::{self, MaybeArray, RegisterCluster, ValidateLevel};

pub const TAGS: &[&str] = &[
    "device", "vendor", "vendorID", "name", "series", "version", "description", "licenseText", "cpu",
    "headerSystemFilename", "headerDefinitionsPrefix", "addressUnitBits", "width", "size", "access",
    "protection", "resetValue", "resetMask", "peripherals", "peripheral", "revision", "endian",
    "mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent",
    "dtcmPresent", "vtorPresent", "nvicPrioBits", "vendorSystickConfig", "deviceNumInterrupts",
    "sauNumRegions", "displayName", "groupName", "prependToName", "appendToName", "headerStructName",
    "disableCondition", "baseAddress", "addressBlock", "offset", "usage", "interrupt", "value",
    "registers", "register", "cluster", "alternatePeripheral", "alternateGroup", "alternateRegister",
    "alternateCluster", "addressOffset", "dataType", "modifiedWriteValues", "writeConstraint",
    "writeAsRead", "useEnumeratedValues", "range", "minimum", "maximum", "readAction", "fields", "field",
    "bitRange", "lsb", "msb", "bitOffset", "bitWidth", "enumeratedValues", "enumeratedValue",
    "headerEnumName", "isDefault", "dim", "dimIncrement", "dimIndex", "dimName", "dimArrayIndex",
    "vendorExtensions", "sauRegionsConfig", "region", "bogus",
];
const NUMBERS: &[&str] = &[
    "0", "1", "2", "3", "8", "31", "32", "33", "63", "64", "65", "255", "0x10", "0xFFFFFFFF", "4294967295",
    "4294967296", "0x80000000", "0x7fffffff", "0xFFFFFFFFFFFFFFFF", "18446744073709551615",
    "18446744073709551616", "0x1FFFFFFFFFFFFFFFF", "-1", "+1", "0b101", "0b", "0x", "#1x0", "#", "#xxxx", "0B1", "0X1f",
    "00", "007", " 5 ", "5u", "5UL", "1k", "1M", "0b1x", "#1X", "١", "1_000", "1e3", "1.0", "", " ", "\u{a0}5", "0xéé", "0é", "é0", "#é",
    "0b2", "0xg", "x", "99999999999999999999999999999999999999999",
];
const RANGES: &[&str] = &[
    "[0:0]", "[1:0]", "[0:1]", "[31:0]", "[63:0]", "[64:0]", "[63:63]", "[4294967295:0]",
    "[4294967295:4294967295]", "[4294967296:0]", "[:]", "[]", "[", "]", "", "[1:]", "[:1]", "[1]", "1:0",
    "[7:4:2]", " [3:1] ", "[ 3 : 1 ]", "[é:é]", "é", "[-1:0]", "[0:-1]", "[1:0", "1:0]", "[[1:0]]", "[1:0]é", "é[1:0]",
];
const INDEXES: &[&str] = &[
    "0-3", "3-0", "0-0", "1-2", "A-D", "D-A", "A-A", "a-d", "A-d", "Z-a", "AA-AB", "-", "0-", "-3", "A-", "A,B", "A,B,C",
    "A,,B", ",", "", " ", "0-9999", "1,2", "0", "é", "é-ü", "a-é", "0-é", "1-2-3", "1,2-3", "A-3", "%s", "%s,%s", "0x0-0x3", "4294967290-4294967295",
    "4294967295-4294967295", "4294967296-4294967297", "99999999999999999999-1", "+1-+3", "A - C", " 0-3 ",
];
const NAMES: &[&str] = &[
    "A", "REG", "REG%s", "REG[%s]", "%s", "[%s]", "%sREG", "%s%s", "A%s%s", "%", "%S", "%sé", "é%s", "é", "",
    " ", "a b", "a-b", "a.b", ".", "..", "A.B", "A.B.C", "A.B.C.D", "A.B.C.D.E", "_", "__", "1", "ẞß", "ǅ", "İ", "ŉ", "\u{301}", "𝔄", "A_", "_A", "aB", "Ab", "ABc",
    "%s.A", "A.%s", "A[%s].B", "%s_%s", "]%s[", "[%s", "%s]", "REG[%s]_X", "self", "a\tb", "\u{200b}", "\u{fffd}", "A%s_[%s]", "%s\u{301}",
];
const WORDS: &[&str] = &[
    "read-only", "write-only", "read-write", "writeOnce", "read-writeOnce", "s", "n", "p", "read", "write",
    "registers", "buffer", "reserved", "little", "big", "selectable", "other", "CM0", "CM4", "true", "false", "oneToClear",
    "zeroToClear", "modify", "clear", "set", "modifyExternal", "uint8_t", "int64_t *", "int64_t", "TRUE", "é", "&", "<", "]]>", "\"",
];

fn hostile(s: &mut Src, tag: &str) -> String {
    let t = if s.chance(1, 6) { "" } else { tag };
    let pool: &[&str] = match t {
        "bitRange" => RANGES,
        "dimIndex" => INDEXES,
        "name" | "displayName" | "dimName" | "headerEnumName" | "alternateRegister" | "alternateGroup" | "description" => NAMES,
        "access" | "protection" | "usage" | "endian" | "dataType" | "modifiedWriteValues" | "readAction" | "writeAsRead"
        | "useEnumeratedValues" | "isDefault" => WORDS,
        "" => *s.pick(&[NUMBERS, RANGES, INDEXES, NAMES, WORDS]),
        _ => NUMBERS,
    };
    if s.chance(1, 8) {
        let b = *s.pick(&[1u32, 8, 16, 31, 32, 33, 63, 64]);
        let n = s.num(b);
        return match s.below(4) {
            0 => format!("{n}"),
            1 => format!("{n:#x}"),
            2 => format!("{n:#b}"),
            _ => format!("[{}:{}]", n, s.num(6)),
        };
    }
    s.pick(pool).to_string()
}

fn any_path(s: &mut Src, x: &X) -> Vec<usize> {
    let v = x.find_all(&mut |_| true);
    if v.is_empty() {
        vec![]
    } else {
        s.pick(&v).clone()
    }
}
fn of_tag(s: &mut Src, x: &X, tags: &[&str]) -> Option<Vec<usize>> {
    let v = x.find_all(&mut |e| tags.contains(&e.tag.as_str()));
    if v.is_empty() {
        None
    } else {
        Some(s.pick(&v).clone())
    }
}
const BOXES: &[&str] = &["device", "peripheral", "cluster", "register", "field", "peripherals", "registers", "fields"];

fn edit(s: &mut Src, x: &mut X) -> &'static str {
    match s.below(14) {
        0 | 1 | 2 => {
            let v = x.find_all(&mut |e| e.is_leaf());
            if v.is_empty() {
                return "nothing";
            }
            let p = s.pick(&v).clone();
            let e = x.at_mut(&p);
            let t = hostile(s, &e.tag.clone());
            e.kids = vec![N::T(t)];
            "text"
        }
        3 => {
            let p = any_path(s, x);
            if let Some((&i, up)) = p.split_last() {
                x.at_mut(up).kids.remove(i);
            }
            "removal"
        }
        4 => {
            // a copy elsewhere
            let p = any_path(s, x);
            let c = x.at(&p).clone();
            if c.count() > 400 {
                return "nothing";
            }
            let q = any_path(s, x);
            let e = x.at_mut(&q);
            let i = s.idx(e.kids.len() + 1);
            e.kids.insert(i, N::E(c));
            "copy"
        }
        5 => {
            // a copy beside
            let p = any_path(s, x);
            let c = x.at(&p).clone();
            if let Some((&i, up)) = p.split_last() {
                if c.count() < 400 {
                    x.at_mut(up).kids.insert(i, N::E(c));
                }
            }
            "twin"
        }
        6 => {
            let p = any_path(s, x);
            let t = *s.pick(TAGS);
            x.at_mut(&p).tag = t.into();
            "tag"
        }
        7 | 8 => {
            let t = *s.pick(TAGS);
            let h = hostile(s, t);
            let p = of_tag(s, x, BOXES).unwrap_or_default();
            let e = x.at_mut(&p);
            if s.flip() {
                e.kids.retain(|k| !matches!(k, N::E(c) if c.tag == t && c.is_leaf()));
            }
            let i = s.idx(e.kids.len() + 1);
            e.kids.insert(i, N::E(X::leaf(t, h)));
            "leaf"
        }
        9 | 10 => {
            let p = of_tag(s, x, &["peripheral", "cluster", "register", "field", "enumeratedValues"]).unwrap_or_default();
            // often the name of some element, or a path of such
            let names: Vec<String> = x
                .find_all(&mut |e| e.tag == "name")
                .iter()
                .map(|p| x.at(p).text())
                .collect();
            let mut t = String::new();
            for i in 0..1 + s.below(5) {
                if i > 0 {
                    t.push('.');
                }
                if !names.is_empty() && s.chance(4, 5) {
                    t.push_str(&s.pick(&names[..]).replace("%s", *s.pick(&["%s", "0", "1", "A"])));
                } else {
                    t.push_str(*s.pick(NAMES));
                }
            }
            let e = x.at_mut(&p);
            e.attrs.retain(|a| a.0 != "derivedFrom");
            e.attr("derivedFrom", t);
            "reference"
        }
        11 => {
            // an array
            let p = of_tag(s, x, &["peripheral", "cluster", "register", "field"]).unwrap_or_default();
            let e = x.at_mut(&p);
            e.kids.retain(|k| !matches!(k, N::E(c) if c.tag.starts_with("dim")));
            let n = s.pick(&["0", "1", "2", "3", "4", "10", "4294967295", "1000000"]).to_string();
            e.add("dim", n);
            if s.chance(7, 8) {
                let n = s.pick(&["0", "1", "4", "32", "0x7fffffff", "0x80000000", "0xffffffff"]).to_string();
                e.add("dimIncrement", n);
            }
            if s.flip() {
                e.add("dimIndex", *s.pick(INDEXES));
            }
            if s.chance(3, 4) {
                if let Some(n) = e.child_mut("name") {
                    let t = n.text();
                    let t = match s.below(4) {
                        0 => format!("{t}[%s]"),
                        1 => format!("%s{t}"),
                        _ => format!("{t}%s"),
                    };
                    n.kids = vec![N::T(t)];
                }
            }
            "array"
        }
        12 => {
            // clusters in clusters
            let n = 1 + s.below(12);
            let p = of_tag(s, x, &["registers", "cluster"]).unwrap_or_default();
            let mut c = X::new("register");
            c.add("name", "DEEP");
            c.add("addressOffset", "0x40000000");
            for k in 0..n {
                let mut o = X::new("cluster");
                o.add("name", if s.flip() { "DEEP".to_string() } else { format!("C{k}") });
                let a = hostile(s, "addressOffset");
                o.add("addressOffset", if s.flip() { a } else { "0x40000000".into() });
                o.push(c);
                c = o;
            }
            x.at_mut(&p).push(c);
            "nesting"
        }
        _ => {
            let p = any_path(s, x);
            let raw = s
                .pick(&["<!-- c -->", "<?pi x?>", "<![CDATA[x]]>", "text", "&#0;", "&amp;", "&bogus;", "\u{0}", "<a/>", "&#x10FFFF;", "\r", "]]>"])
                .to_string();
            let e = x.at_mut(&p);
            let i = s.idx(e.kids.len() + 1);
            e.kids.insert(i, N::Raw(raw));
            "markup"
        }
    }
}

const TOKENS: &[&str] = &[
    "<", ">", "/", "</", "/>", "\"", "'", "=", "&", ";", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE d>",
    "%s", "[%s]", ".", "-", ",", "0x", "#", "0b", "0", "9", "F", ":", "[", "]", "\n", "\r\n", "\t", " ", "é", "\u{feff}", "\u{0}", "\u{1}",
    "\u{fffe}", "𝔄", "derivedFrom=\"A\"", "<dim>2</dim>", "<dimIncrement>4</dimIncrement>", "<name>", "</name>", "<cluster>", "</cluster>", "<writeConstraint/>",
    "<fields/>", "<registers/>", "<enumeratedValues/>", "&#x", "xmlns=\"u\"", "xmlns:a=\"u\"", "a:",
];

/// cut and paste in the text itself
fn garble(s: &mut Src, t: &mut String) {
    let n = t.chars().count();
    let at = |t: &str, i: usize| t.char_indices().nth(i).map(|c| c.0).unwrap_or(t.len());
    let a = s.idx(n + 1);
    match s.below(6) {
        0 => {
            let b = (a + 1 + s.idx(8)).min(n);
            let (i, j) = (at(t, a.min(b)), at(t, b));
            t.replace_range(i..j, "");
        }
        1 | 2 => {
            let i = at(t, a);
            t.insert_str(i, *s.pick(TOKENS));
        }
        3 => {
            let b = (a + 1).min(n);
            let (i, j) = (at(t, a.min(b)), at(t, b));
            t.replace_range(i..j, *s.pick(TOKENS));
        }
        4 => {
            let b = (a + s.idx(60)).min(n);
            let c = t[at(t, a)..at(t, b)].to_string();
            let i = at(t, s.idx(n + 1));
            t.insert_str(i, &c);
        }
        _ => {
            if s.chance(1, 3) {
                let i = at(t, a);
                t.truncate(i);
            } else {
                let i = at(t, a);
                t.insert(i, char::from_u32(s.below(0x3000) as u32).unwrap_or('x'));
            }
        }
    }
}

/// index ranges that only fill the memory
fn huge(t: &str) -> bool {
    let Ok(x) = roxmltree::Document::parse(t) else { return false };
    x.descendants().filter(|n| n.has_tag_name("dimIndex")).any(|n| {
        let t = n.text().unwrap_or("");
        match t.split_once('-') {
            Some((a, b)) => match (a.trim().parse::<u64>(), b.trim().parse::<u64>()) {
                (Ok(a), Ok(b)) => b.saturating_sub(a) > 50_000,
                _ => false,
            },
            None => false,
        }
    })
}
/// how many elements expansion makes, without counting what derivations copy; and how many of these
fn cost(d: &Dev) -> (u64, u64) {
    fn n(d: &Option<Dim>) -> u64 {
        d.as_ref().map(|d| d.dim as u64 + 1).unwrap_or(1)
    }
    fn rcs(v: &[Rc], refs: &mut u64) -> u64 {
        let mut t = 0u64;
        for k in v {
            *refs += k.derived().is_some() as u64;
            t = t.saturating_add(match k {
                Rc::C(c) => n(&c.dim).saturating_mul(rcs(&c.children, refs).saturating_add(1)),
                Rc::R(r) => {
                    let mut f = 1u64;
                    for x in r.fields.iter().flatten() {
                        *refs += x.derived.is_some() as u64;
                        *refs += x.evs.iter().filter(|e| e.derived.is_some()).count() as u64;
                        f = f.saturating_add(n(&x.dim).saturating_mul(1 + x.evs.len() as u64));
                    }
                    n(&r.dim).saturating_mul(f)
                }
            });
        }
        t
    }
    let (mut t, mut refs) = (0u64, 0);
    for p in &d.pers {
        refs += p.derived.is_some() as u64;
        t = t.saturating_add(n(&p.dim).saturating_mul(rcs(p.regs.as_deref().unwrap_or(&[]), &mut refs).saturating_add(1)));
    }
    (t, refs)
}

fn step<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    quietly(f).map_err(|e| Fail::new(format!("{what}: {e}")))
}

fn probe_field(f: &svd::Field, names: &[String], small: bool) {
    let _ = (f.bit_offset(), f.bit_width(), f.lsb(), f.msb(), f.bit_range.bit_range());
    if f.bit_range.offset as u64 + f.bit_range.width as u64 <= 64 && f.bit_range.width > 0 {
        // bits of array items may be beyond
        match f {
            MaybeArray::Single(i) => {
                let _ = i.bitmask();
            }
            MaybeArray::Array(..) => {}
        }
    }
    for u in [svd::Usage::Read, svd::Usage::Write, svd::Usage::ReadWrite] {
        if let Some(e) = f.get_enumerated_values(u) {
            let _ = (e.usage(), e.default_value());
            for n in names {
                let _ = e.get_value(n);
            }
        }
    }
    if let MaybeArray::Array(i, d) = f {
        probe_dim(d, small);
        if small {
            let _ = svd::array::names(i, d).count();
            let _ = svd::array::descriptions(i, d).count();
        }
    }
}
fn probe_dim(d: &svd::DimElement, small: bool) {
    if small {
        let _ = d.indexes_as_range();
        let _ = d.indexes().count();
    }
}
fn probe_rcs(v: &[RegisterCluster], names: &[String], small: bool) {
    for k in v {
        let _ = (k.name(), k.description(), k.derived_from(), k.address_offset());
        match k {
            RegisterCluster::Register(r) => {
                for f in r.fields() {
                    probe_field(f, names, small);
                }
                for n in names {
                    let _ = r.get_field(n);
                }
                if let MaybeArray::Array(i, d) = r {
                    probe_dim(d, small);
                    if small {
                        let _ = svd::array::names(i, d).count();
                    }
                }
            }
            RegisterCluster::Cluster(c) => {
                let _ = (c.registers().count(), c.clusters().count(), c.all_registers().count());
                for n in names {
                    let _ = (c.get_register(n), c.get_cluster(n));
                }
                if let MaybeArray::Array(i, d) = c {
                    probe_dim(d, small);
                    if small {
                        let _ = svd::array::names(i, d).count();
                    }
                }
                probe_rcs(&c.children, names, small);
            }
        }
    }
}
fn probe(d: &svd::Device, names: &[String], small: bool) {
    for n in names {
        let _ = d.get_peripheral(n);
    }
    if let Some(c) = &d.cpu {
        let _ = c.is_cortex_m();
    }
    for p in &d.peripherals {
        let _ = (p.registers().count(), p.clusters().count(), p.all_registers().count());
        for n in names {
            let _ = (p.get_register(n), p.get_cluster(n), p.get_interrupt(n));
        }
        if let MaybeArray::Array(i, d) = p {
            probe_dim(d, small);
            if small {
                let _ = svd::array::names(i, d).count();
            }
        }
        probe_rcs(p.registers.as_deref().unwrap_or(&[]), names, small);
    }
}

fn any_config(s: &mut Src) -> Config {
    let mut c = Config::default();
    number_formats(s, &mut c);
    for n in IDS {
        if s.chance(1, 3) {
            let v = s.pick(&IDF).0;
            c.update(n, v);
        }
    }
    if s.flip() {
        let v = s.pick(&BRN).0;
        c.update("field_bit_range", v);
    }
    for o in ["peripheral_sorting", "registers_sorting", "field_sorting", "peripherals_sorting", "fields_sorting"] {
        let v = *s.pick(&["", "Address", "OffsetReversed", "Name", "Offset", "AddressReversed", "DerivedLast,Name", "RegistersFirst", "ClustersFirst,Offset"]);
        if !v.is_empty() && s.flip() {
            let _ = quietly(|| c.update(o, v));
        }
    }
    c
}

fn p01(s: &mut Src, cov: &mut Cov) -> Out {
    // a document to start from
    let mode = s.below(40);
    let (mut t, kind) = if mode == 39 {
        let n = s.below(60);
        let t: String = (0..n)
            .map(|_| {
                if s.flip() {
                    s.pick(TOKENS).to_string()
                } else {
                    format!("<{}>", s.pick(TAGS))
                }
            })
            .collect();
        (t, "tokens")
    } else {
        let d = if mode % 3 == 0 {
            let g = G::any(s);
            dev(s, &g)
        } else {
            let plain = s.flip();
            link::linked(s, link::L { plain, arrays: true, grow: true, apart: true, simple: false, max_refs: 4 })
        };
        let st = Style { vary: s.flip(), omit: s.chance(1, 4) };
        let mut x = r_dev(s, st, &d);
        let n = s.below(6);
        for _ in 0..n {
            let k = edit(s, &mut x);
            cov.hit(k);
        }
        let t = if s.chance(1, 3) {
            let n = Noise::gen(s);
            x.print_noisy(s, n)
        } else {
            x.print()
        };
        (t, "document")
    };
    cov.hit(kind);
    if s.chance(1, 4) {
        for _ in 0..1 + s.below(3) {
            garble(s, &mut t);
        }
        cov.hit("text garbled");
    }
    cov.input(&t);
    if huge(&t) {
        cov.hit("left out: index range that only fills the memory");
        return Ok(());
    }
    // reading, with all levels
    let ignore = s.chance(1, 4);
    let props = s.chance(1, 3);
    let mut read: Vec<Option<svd::Device>> = vec![];
    for &lvl in &LEVELS {
        let cfg = svd_parser::Config::default().validate_level(lvl).ignore_enums(ignore).expand_properties(props);
        let r = step("reading", || svd_parser::parse_with_config(&t, &cfg).map_err(|e| format!("{e:#} {e:?} {e}")))?;
        cov.sub(&format!("{lvl:?}"), r.is_ok());
        read.push(r.ok());
    }
    let base = step("parse", || svd_parser::parse(&t).ok())?;
    if !ignore && !props {
        ensure!(base == read[1], "the default entry point differs from the weak level");
    }
    ensure!(
        read[1].is_none() || read[0] == read[1],
        "accepted at the weak level but not so without validation"
    );
    ensure!(
        read[2].is_none() || read[1] == read[2],
        "accepted at the strict level but not so at the weak one"
    );
    let Some(off) = &read[0] else {
        cov.hit("rejected");
        return Ok(());
    };
    cov.nontrivial();
    let (n, refs) = cost(&lift(off));
    let small = n <= 3000 && refs <= 9;
    if !small {
        cov.hit("left out: expansion of many items");
    }
    if small {
        for _ in 0..2 {
            let lvl = *s.pick(&LEVELS);
            let (ignore, props) = (s.flip(), s.flip());
            let cfg = svd_parser::Config::default()
                .validate_level(lvl)
                .ignore_enums(ignore)
                .expand_properties(props)
                .expand(true);
            let r = step("reading with expansion", || svd_parser::parse_with_config(&t, &cfg).map_err(|e| format!("{e:#}")))?;
            cov.hit(if r.is_ok() { "expanded while reading" } else { "not expanded while reading" });
        }
    }
    let Some(v) = &read[1] else {
        cov.hit("accepted without validation only");
        return Ok(());
    };
    cov.hit(if read[2].is_some() { "accepted at strict" } else { "accepted at weak" });
    // what a user does with it
    let mut names: Vec<String> = (0..3).map(|_| hostile(s, "name")).collect();
    for p in v.peripherals.iter().take(3) {
        names.push(p.name.clone());
        for k in p.registers.iter().flatten().take(3) {
            names.push(k.name().clone());
            names.push(format!("{}.{}", p.name, k.name()));
        }
    }
    step("querying", || probe(v, &names, small))?;
    for &lvl in &LEVELS {
        step("validating", || v.validate_all(lvl).map_err(|e| e.to_string()))?.ok();
    }
    let text = match encode_with(v, &Config::default()) {
        Ok(x) => x,
        Err(e) if e.starts_with("panicked") || e.contains("panic") => fail!("writing: {e}"),
        Err(e) => fail!("writing fails: {e}"),
    };
    step("reading what was written", || svd_parser::parse(&text).map_err(|e| e.to_string()))?.ok();
    let c = any_config(s);
    if let Err(e) = encode_with(v, &c) {
        fail!("writing with {c:?} fails: {e}");
    }
    step("serializing", || {
        let j = serde_json::to_string(v).map_err(|e| e.to_string())?;
        serde_json::from_str::<svd::Device>(&j).map_err(|e| e.to_string())
    })?
    .ok();
    if s.chance(1, 8) {
        step("serializing (YAML)", || {
            let j = serde_yaml::to_string(v).map_err(|e| e.to_string())?;
            serde_yaml::from_str::<svd::Device>(&j).map_err(|e| e.to_string())
        })?
        .ok();
    }
    let mut w = v.clone();
    step("expanding properties", || expand::expand_properties(&mut w))?;
    if small {
        let r = step("expanding", || expand::expand(v).map_err(|e| format!("{e:#}")))?;
        if let Ok(x) = r {
            let (n, _) = cost(&lift(&x));
            if n < 20_000 {
                step("querying the expanded device", || probe(&x, &names, true))?;
                if let Err(e) = encode_with(&x, &c) {
                    fail!("writing the expanded device fails: {e}");
                }
            }
        }
        step("indexing", || {
            let ix = Index::create(v);
            for n in &names {
                let (b, n) = RegisterPath::parse_str(n);
                if let Some(b) = b {
                    let _ = ix.registers.get(&b.new_register(n));
                    let _ = ix.clusters.get(&b);
                }
                let (b, n) = BlockPath::parse_str(n);
                let _ = b.map(|b| b.new_cluster(n).parent());
            }
        })?;
    }
    cov.sub("used", true);
    Ok(())
}

const CRASHERS: &[&str] = &[
    "", " ", "<", "<device/>", "<device></device>", "\u{feff}", "\u{feff}<device/>", "<?xml?>", "<a><b></a></b>",
    "<device><name>A</name><peripherals/></device>",
    "<device><name>A</name><peripherals><peripheral/></peripherals></device>",
    "<peripheral><name>A</name><baseAddress>0</baseAddress></peripheral>",
    "<d:device xmlns:d=\"u\"><d:name>A</d:name></d:device>",
    "<!DOCTYPE device [<!ENTITY a \"b\">]><device><name>&a;</name></device>",
];
fn crashers() -> Out {
    for t in CRASHERS {
        for lvl in LEVELS {
            for k in 0..8 {
                let cfg = svd_parser::Config::default()
                    .validate_level(lvl)
                    .ignore_enums(k & 1 > 0)
                    .expand(k & 2 > 0)
                    .expand_properties(k & 4 > 0);
                step(t, || svd_parser::parse_with_config(t, &cfg).is_ok())?;
            }
        }
    }
    Ok(())
}
/// thousand nested clusters
fn deep() -> Out {
    let n = 300;
    let mut t = String::from("<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers>");
    for _ in 0..n {
        t.push_str("<cluster><name>C</name><addressOffset>4</addressOffset>");
    }
    t.push_str("<register><name>R</name><addressOffset>0</addressOffset></register>");
    for _ in 0..n {
        t.push_str("</cluster>");
    }
    t.push_str("</registers></peripheral></peripherals></device>");
    for ex in [false, true] {
        let cfg = svd_parser::Config::default().expand(ex).validate_level(ValidateLevel::Weak);
        let d = step("deep nesting", || svd_parser::parse_with_config(&t, &cfg))?;
        if let Ok(d) = d {
            step("writing deep nesting", || encode_with(&d, &Config::default()))?.ok();
        }
    }
    Ok(())
}

/// Runs on a stack of the size threads have by default
pub fn on_thread_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap()
}
/// Long lists of every kind need no stack
fn wide() -> Out {
    on_thread_stack(|| {
        let n = 30_000;
        let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let reg = |i: usize| format!("<register><name>R{i}</name><addressOffset>{i}</addressOffset></register>");
        let clu = |i: usize| {
            format!("<cluster><name>C{i}</name><addressOffset>{i}</addressOffset><register><name>R</name><addressOffset>0</addressOffset></register></cluster>")
        };
        let per = |inner: &str| {
            format!("<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress>{inner}</peripheral></peripherals></device>")
        };
        let one = |inner: &str| {
            per(&format!("<registers><register><name>R</name><addressOffset>0</addressOffset>{inner}</register></registers>"))
        };
        let docs = [
            ("registers and a cluster", per(&format!("<registers>{}{}</registers>", rep(&reg), clu(0)))),
            ("clusters and a register", per(&format!("<registers>{}{}</registers>", rep(&clu), reg(0)))),
            ("interrupts", per(&rep(&|i| format!("<interrupt><name>I{i}</name><value>{i}</value></interrupt>")))),
            ("address blocks", per(&rep(&|i| format!("<addressBlock><offset>{i}</offset><size>1</size><usage>registers</usage></addressBlock>")))),
            ("fields", one(&format!("<fields>{}</fields>", rep(&|i| format!("<field><name>F{i}</name><bitRange>[{}:{}]</bitRange></field>", i % 32, i % 32))))),
            (
                "enumerated values",
                one(&format!(
                    "<fields><field><name>F</name><bitRange>[20:0]</bitRange><enumeratedValues>{}</enumeratedValues></field></fields>",
                    rep(&|i| format!("<enumeratedValue><name>E{i}</name><value>{i}</value></enumeratedValue>"))
                )),
            ),
            ("comments", per(&rep(&|i| format!("<!-- {i} --><x/>\n")))),
            (
                "peripherals",
                format!(
                    "<device><name>D</name><peripherals>{}</peripherals></device>",
                    rep(&|i| format!("<peripheral><name>P{i}</name><baseAddress>{i}</baseAddress></peripheral>"))
                ),
            ),
        ];
        for (what, t) in docs {
            for ex in [false, true] {
                let cfg = svd_parser::Config::default().expand(ex).expand_properties(ex).validate_level(ValidateLevel::Weak);
                let d = step(what, || svd_parser::parse_with_config(&t, &cfg))?;
                let d = match d {
                    Ok(d) => d,
                    Err(e) => fail!("{n} {what} are refused: {e:?}"),
                };
                step(what, || encode_with(&d, &Config::default()))?.ok();
                step(what, || {
                    let all = |p: &svd::Peripheral| p.registers().count() + p.clusters().count() + p.all_registers().count();
                    d.peripherals.iter().map(all).sum::<usize>()
                })?;
            }
        }
        Ok(())
    })
}

pub const P01: Prop = Prop {
    id: "P01",
    title: "Parsing is total: any input gives a device or an error",
    rule: "the mutated document is accepted at some level, so that the device is used further",
    quick: 40_000,
    thorough: 4_000_000,
    case: p01,
    directed: &[
        Directed { name: "small-texts", run: crashers },
        Directed { name: "deep-nesting", run: deep },
        Directed { name: "long-lists", run: wide },
    ],
    assumptions: &[
        "index ranges and arrays of more than thousands of items, and nesting of thousands of clusters, only exhaust memory or stack and are left out",
    ],
};
