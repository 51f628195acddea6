//! P10 layout independence, P11 fault rejection and location, P12 validation rules, P13 ignored
//! enumerated values
use super::doc::{parse_at, LEVELS};
use crate::engine::*;
use crate::gen::*;
use crate::link;
use crate::model::*;
use crate::rules::*;
use crate::xml::*;
use crate::{ensure, fail};
use svd_parser::svd::{self, ValidateLevel};

// ------------------------------------------------------------------ P10

/// short documents, with and without the mark, a declaration, blanks at the ends
fn short(s: &mut Src, cov: &mut Cov) -> Out {
    let t = s.pick(&["D", "", "é", "A_1", "𝄞"]).to_string();
    let body = match s.below(4) {
        0 => "<device/>".to_string(),
        1 => format!("<device><name>{t}</name><peripherals/></device>"),
        2 => format!("<device><name>{t}</name><peripherals><peripheral><name>P</name><baseAddress>1</baseAddress></peripheral></peripherals></device>"),
        _ => format!("<device><name>{t}</name></device>"),
    };
    let mut alt = body.clone();
    if s.flip() {
        alt.push_str(*s.pick(&["\n", " ", "<!-- end -->", "<?end?>", "\r\n"]));
    }
    if s.flip() {
        alt.insert_str(0, *s.pick(&["<!--x-->", "\n", "<?pi?>"]));
    } else if s.flip() {
        alt.insert_str(0, *s.pick(&["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='utf-8'?>\n"]));
    }
    if s.chance(2, 3) {
        alt.insert(0, '\u{feff}');
    }
    cov.input(&alt);
    cov.hit("short document");
    for lvl in LEVELS {
        match (parse_at(&body, lvl), parse_at(&alt, lvl)) {
            (Ok(a), Ok(b)) => ensure!(a == b, "a short document reads differently at {lvl:?}: {a:?} and {b:?}"),
            (Err(_), Err(b)) if !b.starts_with("PANIC") => {}
            (a, b) => fail!("a short document is read as {a:?} and in another layout as {b:?} at {lvl:?}"),
        }
    }
    Ok(())
}
fn p10(s: &mut Src, cov: &mut Cov) -> Out {
    if s.chance(1, 40) {
        return short(s, cov);
    }
    let g = G::any(s);
    let d = dev(s, &g);
    let st = Style {
        vary: s.flip(),
        omit: !g.strict,
    };
    let x = r_dev(s, st, &d);
    let lvls = if g.strict { &LEVELS[..] } else { &LEVELS[..2] };
    let lvl = *s.pick(lvls);
    let h = classify(&d, cov);
    let mut texts = vec![];
    for k in 0..2 {
        let n = Noise::gen(s);
        let t = x.print_noisy(s, n);
        for (on, what) in [
            (n.ws, "white space"),
            (n.comments, "comments and instructions"),
            (n.entities, "character references"),
            (n.cdata, "CDATA"),
            (n.pad, "padded texts"),
            (n.shuffle, "child order"),
            (n.unknown, "unknown content"),
            (n.quotes, "quotes"),
            (n.bom, "byte order mark"),
            (n.noxmldecl, "no declaration"),
            (n.crlf, "CRLF"),
        ] {
            cov.hit_if(on, what);
        }
        if k == 0 {
            cov.input(&t);
        }
        texts.push(t);
    }
    if h.fields > 0 {
        cov.nontrivial();
    }
    for t in &texts {
        let got = match parse_at(t, lvl) {
            Ok(v) => lift(&v),
            Err(e) => {
                cov.input(t);
                fail!("a valid document is rejected in this layout at {lvl:?}: {e}")
            }
        };
        if got != d {
            cov.input(t);
            fail!("the device depends on the layout {}", diff(&d, &got));
        }
        cov.sub(&format!("{}", fnv(t.as_bytes())), h.fields > 0);
    }
    Ok(())
}

fn comment_in_text() -> Out {
    let d = |t: &str| {
        format!("<device><name>D</name><description>{t}</description><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress></peripheral></peripherals></device>")
    };
    for (t, what) in [("<!-- c -->one two", "before"), ("one <!-- c -->two", "inside")] {
        let got = parse_at(&d(t), ValidateLevel::Weak)?.description;
        ensure!(
            got == "one two",
            "with a comment {what} it the text `one two` of an element is read as {got:?}"
        );
    }
    Ok(())
}

pub const P10: Prop = Prop {
    id: "P10",
    title: "Layout of the XML text does not matter",
    rule: "the device has fields",
    quick: 16_000,
    thorough: 1_000_000,
    case: p10,
    directed: &[Directed {
        name: "comment-in-leaf-text",
        run: comment_in_text,
    }],
    assumptions: &["no comments inside the text of leaf elements, except in the recorded finding"],
};

// ------------------------------------------------------------------ P11

struct Fault {
    kind: String,
    /// acceptable positions of the error
    at: Vec<Vec<usize>>,
    lvl: ValidateLevel,
    /// what the innermost message must mention
    says: Vec<String>,
}
type Kind = fn(&mut Src, &mut X, bool) -> Option<Fault>;

fn some_path(s: &mut Src, x: &X, mut p: impl FnMut(&X) -> bool) -> Option<Vec<usize>> {
    let v = x.find_all(&mut p);
    if v.is_empty() {
        None
    } else {
        Some(s.pick(&v).clone())
    }
}
/// path of an element that is a child of an element satisfying `p`
fn some_child(
    s: &mut Src,
    x: &X,
    mut p: impl FnMut(&X, &X) -> bool,
) -> Option<(Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for up in x.find_all(&mut |_| true) {
        let e = x.at(&up);
        for (i, k) in e.kids.iter().enumerate() {
            if let N::E(c) = k {
                if p(e, c) {
                    let mut q = up.clone();
                    q.push(i);
                    v.push((up.clone(), q));
                }
            }
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(s.pick(&v).clone())
    }
}
fn remove(x: &mut X, path: &[usize]) {
    if let Some((&i, up)) = path.split_last() {
        x.at_mut(up).kids.remove(i);
    }
}
fn set(x: &mut X, path: &[usize], t: &str) {
    x.at_mut(path).kids = if t.is_empty() {
        vec![]
    } else {
        vec![N::T(t.into())]
    };
}
fn put(x: &mut X, tag: &str, t: &str) -> usize {
    x.kids.retain(|k| !matches!(k, N::E(e) if e.tag == tag));
    x.add(tag, t);
    x.kids.len() - 1
}
fn drop_tags(x: &mut X, tags: &[&str]) {
    x.kids.retain(|k| !matches!(k, N::E(e) if tags.contains(&e.tag.as_str())));
}
fn down(p: &[usize], i: usize) -> Vec<usize> {
    let mut v = p.to_vec();
    v.push(i);
    v
}
const OFF: ValidateLevel = ValidateLevel::Disabled;
const WEAK: ValidateLevel = ValidateLevel::Weak;
const STRICT: ValidateLevel = ValidateLevel::Strict;

/// (parent, child, is a text)
const MANDATORY: &[(&str, &str, bool)] = &[
    ("device", "name", true), ("device", "peripherals", false),
    ("cpu", "name", true), ("cpu", "revision", true), ("cpu", "endian", false),
    ("cpu", "mpuPresent", false), ("cpu", "fpuPresent", false), ("cpu", "nvicPrioBits", false),
    ("cpu", "vendorSystickConfig", false),
    ("peripheral", "name", true), ("peripheral", "baseAddress", false),
    ("cluster", "name", true), ("cluster", "addressOffset", false),
    ("register", "name", true), ("register", "addressOffset", false),
    ("field", "name", true),
    ("addressBlock", "offset", false), ("addressBlock", "size", false), ("addressBlock", "usage", false),
    ("interrupt", "name", true), ("interrupt", "value", false),
    ("enumeratedValue", "name", true),
    ("range", "minimum", false), ("range", "maximum", false),
];
fn missing(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let i = s.idx(MANDATORY.len());
    for k in 0..MANDATORY.len() {
        let (p, c, _) = MANDATORY[(i + k) % MANDATORY.len()];
        if let Some((up, path)) = some_child(s, x, |a, b| a.tag == p && b.tag == c) {
            remove(x, &path);
            return Some(Fault { kind: format!("missing {p}/{c}"), at: vec![up], lvl: OFF, says: vec![format!("<{c}>")] });
        }
    }
    None
}
fn missing_dim(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let (up, path) = some_child(s, x, |_, b| b.tag == "dim")?;
    remove(x, &path);
    Some(Fault { kind: "missing dim".into(), at: vec![up], lvl: OFF, says: vec!["<dim>".into()] })
}
fn empty(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let i = s.idx(MANDATORY.len());
    for k in 0..MANDATORY.len() {
        let (p, c, text) = MANDATORY[(i + k) % MANDATORY.len()];
        if c == "peripherals" {
            continue;
        }
        if let Some((up, path)) = some_child(s, x, |a, b| a.tag == p && b.tag == c) {
            set(x, &path, "");
            let at = if text { vec![path, up] } else { vec![path] };
            return Some(Fault { kind: format!("empty {p}/{c}"), at, lvl: OFF, says: vec![format!("<{c}>")] });
        }
    }
    None
}
fn bits(parent: &str, tag: &str) -> Option<u32> {
    Some(match tag {
        "addressUnitBits" | "width" | "addressOffset" | "nvicPrioBits" | "deviceNumInterrupts"
        | "sauNumRegions" | "dim" | "dimIncrement" | "offset" | "size" => 32,
        "resetValue" | "resetMask" | "baseAddress" | "minimum" | "maximum" => 64,
        "value" if parent == "interrupt" => 32,
        "value" if parent == "enumeratedValue" => 64,
        _ => return None,
    })
}
/// a text that is no number, or none that fits
pub fn bad_number(s: &mut Src, bits: u32) -> &'static str {
    let all: &[&str] = &[
        "abc", "0x", "0xG1", "1.5", "-1", "12 34", "0b12", "#2", "", "1e3", "0x1_0", "10u", "１",
        "0x-1", "#", "0b", "--", "x", "0x1FFFFFFFFFFFFFFFF", "18446744073709551616", "#x1y",
        "0b111111111111111111111111111111111111111111111111111111111111111111",
    ];
    let small: &[&str] = &["4294967296", "0x100000000", "0x1FFFFFFFF", "#100000000000000000000000000000000"];
    if bits == 32 && s.chance(1, 3) {
        *s.pick(small)
    } else {
        *s.pick(all)
    }
}
fn number(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let (up, path) = some_child(s, x, |a, b| bits(&a.tag, &b.tag).is_some())?;
    let tag = x.at(&path).tag.clone();
    let b = bits(&x.at(&up).tag, &tag)?;
    let t = bad_number(s, b);
    set(x, &path, t);
    Some(Fault { kind: format!("bad number in {tag}"), at: vec![path], lvl: OFF, says: vec![] })
}
fn words(parent: &str, tag: &str) -> Option<&'static [Kw]> {
    Some(match tag {
        "access" => ACCESS,
        "protection" => PROT,
        "usage" if parent == "addressBlock" => ABUSAGE,
        "usage" => USAGE,
        "endian" => ENDIAN,
        "modifiedWriteValues" => MWV,
        "readAction" => RA,
        "dataType" => DTYPE,
        "writeAsRead" | "useEnumeratedValues" | "vendorSystickConfig" | "mpuPresent" | "fpuPresent"
        | "fpuDP" | "dspPresent" | "icachePresent" | "dcachePresent" | "itcmPresent"
        | "dtcmPresent" | "vtorPresent" => &["true", "false", "0", "1"],
        _ => return None,
    })
}
fn keyword(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let (up, path) = some_child(s, x, |a, b| words(&a.tag, &b.tag).is_some())?;
    let tag = x.at(&path).tag.clone();
    let kws = words(&x.at(&up).tag, &tag)?;
    let k = *s.pick(kws);
    let t = match s.below(7) {
        0 => "bogus".to_string(),
        1 => String::new(),
        2 => k.to_uppercase(),
        3 => format!("{k}{k}"),
        4 => k[..k.len() - 1].to_string(),
        5 => format!("{k} x"),
        _ => s.pick(&["2", "yes", "readWrite", "read_only", "TRUE", "none", "x", "uint8_t*"]).to_string(),
    };
    if kws.contains(&t.trim()) {
        return None;
    }
    set(x, &path, &t);
    let says = if t.is_empty() { vec![format!("<{tag}>")] } else if tag == "usage" { vec![] } else { vec![t.trim().to_string()] };
    Some(Fault { kind: format!("bad keyword in {tag}"), at: vec![path], lvl: OFF, says })
}
fn bit_range(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let path = some_path(s, x, |e| e.tag == "field")?;
    let f = x.at_mut(&path);
    drop_tags(f, &["bitRange", "lsb", "msb", "bitOffset", "bitWidth"]);
    let n = s.below(6);
    match n {
        0 => {
            let t = *s.pick(&[
                "", "[", "]", "[]", "[:]", "7:0", "[7:0", "7:0]", "[7]", "[7:]", "[:0]", "[0:7]",
                "[a:0]", "[7:0:1]", "[0x7:0]", "[4294967296:0]", "(7:0)", "[7-0]", "[-1:0]", "[7:0]]",
            ]);
            put(f, "bitRange", t);
            if t.is_empty() {
                f.kids.pop();
                f.push(X::new("bitRange"));
            }
        }
        1 => {
            let b = 1 + s.below(60);
            let a = s.below(b);
            put(f, "lsb", &b.to_string());
            put(f, "msb", &a.to_string());
        }
        2 => {
            put(f, "lsb", if s.flip() { "1" } else { bad_number(s, 32) });
            if s.flip() {
                put(f, "bitWidth", "1");
            }
            let other = f.child("lsb").map(|e| e.text()) == Some("1".into());
            if !other {
                put(f, "msb", "5");
            }
        }
        3 => {
            put(f, "bitOffset", bad_number(s, 32));
            put(f, "bitWidth", "1");
        }
        4 => {
            put(f, "bitOffset", "4294967295");
            put(f, "bitWidth", "2");
        }
        _ => {
            let which = *s.pick(&["bitOffset", "bitWidth", "msb", "lsb"]);
            put(f, which, "3");
        }
    }
    let mut at = vec![path.clone()];
    for (i, k) in x.at(&path).kids.iter().enumerate() {
        if let N::E(e) = k {
            if ["bitRange", "lsb", "msb", "bitOffset", "bitWidth"].contains(&e.tag.as_str()) {
                at.push(down(&path, i));
            }
        }
    }
    Some(Fault { kind: format!("bad bit range {n}"), at, lvl: OFF, says: vec![] })
}
fn stranger(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let path = some_path(s, x, |e| {
        matches!(
            e.tag.as_str(),
            "peripherals" | "registers" | "fields" | "enumeratedValues" | "dimArrayIndex"
        )
    })?;
    let t = x.at(&path).tag.clone();
    let wrong = if s.chance(1, 4) {
        "bogus"
    } else {
        *s.pick(match t.as_str() {
            "peripherals" => &["register", "Peripheral", "cluster", "name", "peripherals", "derivedFrom"][..],
            "registers" => &["field", "peripheral", "Register", "CLUSTER", "name", "fields", "registers", "enumeratedValues"],
            "fields" => &["register", "Field", "name", "enumeratedValues", "fields", "cluster"],
            "enumeratedValues" => &["value", "field", "description", "EnumeratedValue", "isDefault", "displayName", "dim", "Name"],
            _ => &["value", "field", "name", "usage", "description", "EnumeratedValue", "dimName", "headerenumname"],
        })
    };
    let mut e = X::new(wrong);
    if s.flip() {
        e.add("name", "STRANGE");
    }
    let n = x.at(&path).kids.len();
    let i = s.idx(n + 1);
    x.at_mut(&path).kids.insert(i, N::E(e));
    Some(Fault { kind: format!("{wrong} in {t}"), at: vec![down(&path, i)], lvl: OFF, says: vec![] })
}
fn constraint(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let path = some_path(s, x, |e| e.tag == "writeConstraint")?;
    let w = x.at_mut(&path);
    let n = s.below(4);
    match n {
        0 => w.kids = vec![],
        1 => {
            w.kids = vec![];
            w.add("bogus", "true");
        }
        2 => w.add("writeAsRead", "true"),
        _ => w.kids = vec![N::T("text".into())],
    }
    let mut at = vec![path.clone()];
    for i in 0..x.at(&path).kids.len() {
        if matches!(x.at(&path).kids[i], N::E(_)) {
            at.push(down(&path, i));
        }
    }
    Some(Fault { kind: format!("bad writeConstraint {n}"), at, lvl: OFF, says: vec![] })
}
fn array(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let path = some_path(s, x, |e| {
        e.child("dimIncrement").is_some() && e.child("dimIndex").is_some()
    })?;
    let a = x.at_mut(&path);
    let n = s.below(3);
    let mut says = vec![];
    let i = match n {
        0 => {
            let k = 2 + s.below(5);
            let n = if s.flip() { k + 1 + s.below(3) } else { 1 + s.below(k - 1) };
            put(a, "dim", &k.to_string());
            let t = (0..n).map(|i| format!("i{i}")).collect::<Vec<_>>().join(",");
            says = vec![k.to_string(), n.to_string()];
            put(a, "dimIndex", &t)
        }
        1 => {
            let t = *s.pick(&["5-1", "b-a", "A-c", "1-x", "AA-B", "A-BC", "0 - 3", "0- 3", "A -C", "0-3-", "-3", "3-"]);
            put(a, "dimIndex", t)
        }
        _ => {
            let t = a.child("name")?.text().replace("%s", "x");
            says = vec![t.clone()];
            put(a, "name", &t)
        }
    };
    Some(Fault { kind: format!("inconsistent array {n}"), at: vec![path.clone(), down(&path, i)], lvl: OFF, says })
}
fn reset(s: &mut Src, x: &mut X, strict: bool) -> Option<Fault> {
    let path = some_path(s, x, |e| {
        matches!(e.tag.as_str(), "device" | "peripheral" | "cluster" | "register")
    })?;
    let e = x.at_mut(&path);
    drop_tags(e, &["resetMask", "resetValue"]);
    let b = *s.pick(&[1u32, 8, 16, 32, 63]);
    put(e, "size", &b.to_string());
    let big = (1u64 << b).to_string();
    let (kind, lvl) = if strict && s.flip() {
        if s.flip() {
            put(e, "resetMask", &big);
            ("reset mask larger than size", STRICT)
        } else {
            put(e, "resetMask", "0");
            put(e, "resetValue", "1");
            ("reset value outside mask", STRICT)
        }
    } else {
        put(e, "resetValue", &big);
        ("reset value larger than size", WEAK)
    };
    let mut at = vec![path.clone()];
    for (i, k) in x.at(&path).kids.iter().enumerate() {
        if let N::E(c) = k {
            if c.tag.starts_with("reset") || c.tag == "size" {
                at.push(down(&path, i));
            }
        }
    }
    Some(Fault { kind: kind.into(), at, lvl, says: vec![] })
}
/// give the field `w` bits
fn narrow(f: &mut X, w: u32) {
    drop_tags(f, &["bitRange", "lsb", "msb", "bitOffset", "bitWidth"]);
    put(f, "bitOffset", "2");
    put(f, "bitWidth", &w.to_string());
}
fn field_rule(s: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let n = s.below(3);
    let path = match n {
        0 => {
            let p = some_path(s, x, |e| e.tag == "field")?;
            narrow(x.at_mut(&p), 0);
            drop_tags(x.at_mut(&p), &["enumeratedValues", "writeConstraint"]);
            p
        }
        1 => {
            let p = some_path(s, x, |e| {
                e.tag == "field" && e.elems().any(|k| k.tag == "enumeratedValues" && k.child("enumeratedValue").is_some())
            })?;
            let f = x.at_mut(&p);
            let b = *s.pick(&[1u32, 3, 8, 63]);
            narrow(f, b);
            drop_tags(f, &["writeConstraint"]);
            // every other value fits, one does not
            let mut all = vec![];
            f.walk_mut(&mut |e| {
                if e.tag == "enumeratedValue" {
                    drop_tags(e, &["isDefault"]);
                    put(e, "value", "1");
                }
            });
            for p in f.find_all(&mut |e| e.tag == "value") {
                if f.at(&p[..1]).tag == "enumeratedValues" {
                    all.push(p);
                }
            }
            let q = s.pick(&all).clone();
            let big = 1u64 << b;
            let t = big + if s.flip() { 0 } else { s.num(b) };
            set(f, &q, &t.to_string());
            p
        }
        _ => {
            let p = some_path(s, x, |e| e.tag == "field" && e.child("enumeratedValues").is_none())?;
            let f = x.at_mut(&p);
            let b = *s.pick(&[2u32, 3, 8, 63]);
            narrow(f, b);
            let (a, c) = match s.below(3) {
                0 => (3, 1),
                1 => (1, 1u64 << b),
                _ => (1u64 << b, (1u64 << b) + 1),
            };
            drop_tags(f, &["writeConstraint"]);
            let mut w = X::new("writeConstraint");
            let mut r = X::new("range");
            r.add("minimum", a.to_string());
            r.add("maximum", c.to_string());
            w.push(r);
            f.push(w);
            p
        }
    };
    let inner = x.at(&path).find_all(&mut |e| !matches!(e.tag.as_str(), "name" | "description" | "field"));
    let mut at = vec![path.clone()];
    for q in inner {
        let mut v = path.clone();
        v.extend(q);
        at.push(v);
    }
    Some(Fault { kind: format!("field rule {n}"), at, lvl: WEAK, says: vec![] })
}
fn ev_rule(s: &mut Src, x: &mut X, strict: bool) -> Option<Fault> {
    let n = s.below(if strict { 4 } else { 2 });
    let tag = if n == 1 { "enumeratedValues" } else { "enumeratedValue" };
    let path = some_path(s, x, |e| e.tag == tag)?;
    let e = x.at_mut(&path);
    let lvl = match n {
        0 => {
            drop_tags(e, &["value", "isDefault"]);
            if s.flip() {
                e.add("isDefault", "false");
            }
            WEAK
        }
        1 => {
            drop_tags(e, &["enumeratedValue"]);
            e.attrs.clear();
            WEAK
        }
        2 => {
            put(e, "value", "0");
            put(e, "isDefault", "true");
            STRICT
        }
        _ => {
            put(e, "name", "not a name");
            STRICT
        }
    };
    Some(Fault { kind: format!("enumerated value rule {n}"), at: vec![path], lvl, says: vec![] })
}
fn no_peripherals(_: &mut Src, x: &mut X, _: bool) -> Option<Fault> {
    let i = x.kids.iter().position(|k| matches!(k, N::E(e) if e.tag == "peripherals"))?;
    x.at_mut(&[i]).kids.clear();
    Some(Fault { kind: "no peripherals".into(), at: vec![vec![], vec![i]], lvl: WEAK, says: vec![] })
}
fn strict_rule(s: &mut Src, x: &mut X, strict: bool) -> Option<Fault> {
    if !strict {
        return None;
    }
    let n = s.below(5);
    let path = match n {
        0 => {
            let p = some_path(s, x, |e| {
                matches!(e.tag.as_str(), "peripheral" | "cluster" | "register" | "field")
                    && e.child("dim").is_none()
            })?;
            let bad = *s.pick(&["a b", "1st", "a-b", "é", "a.b", "x[%s]y", "%s%s", "[%s]", "a%"]);
            put(x.at_mut(&p), "name", bad);
            p
        }
        1 => {
            let which = *s.pick(&["version", "description", "addressUnitBits", "width"]);
            drop_tags(x, &[which]);
            vec![]
        }
        2 => {
            let p = some_path(s, x, |e| {
                matches!(e.tag.as_str(), "peripheral" | "register") && e.get_attr("derivedFrom").is_none()
                    && (e.child("fields").is_some() || e.child("registers").is_some())
            })?;
            for k in x.at_mut(&p).elems_mut() {
                if k.tag == "fields" || k.tag == "registers" {
                    k.kids.clear();
                }
            }
            p
        }
        3 => {
            let p = some_path(s, x, |e| e.tag == "cluster" && e.get_attr("derivedFrom").is_none())?;
            drop_tags(x.at_mut(&p), &["register", "cluster"]);
            p
        }
        _ => {
            let p = some_path(s, x, |e| {
                matches!(e.tag.as_str(), "peripheral" | "cluster" | "register" | "field" | "enumeratedValues")
                    && e.get_attr("derivedFrom").is_some()
            })?;
            let e = x.at_mut(&p);
            e.attrs.retain(|a| a.0 != "derivedFrom");
            e.attr("derivedFrom", *s.pick(&["a b", "a-b", "1x", "a..b", ".a", "é"]));
            p
        }
    };
    let mut at = vec![path.clone()];
    for (i, k) in x.at(&path).kids.iter().enumerate() {
        if matches!(k, N::E(c) if matches!(c.tag.as_str(), "name" | "fields" | "registers")) {
            at.push(down(&path, i));
        }
    }
    Some(Fault { kind: format!("strict rule {n}"), at, lvl: STRICT, says: vec![] })
}

const KINDS: &[Kind] = &[
    missing, missing, missing_dim, empty, number, number, keyword, keyword, bit_range, stranger,
    constraint, array, reset, field_rule, ev_rule, no_peripherals, strict_rule,
];
const CONTEXT: &[&str] = &["device", "peripheral", "register", "field", "enumeratedValue", "interrupt"];

pub fn chain_of(xml: &str, cfg: &svd_parser::Config) -> Result<Result<svd::Device, Vec<String>>, String> {
    quietly(|| {
        svd_parser::parse_with_config(xml, cfg).map_err(|e| e.chain().map(|c| c.to_string()).collect())
    })
}

/// does the entry name the position l:c ?
fn names_pos(entry: &str, l: usize, c: usize) -> bool {
    let p = format!("{l}:{c}");
    entry.match_indices(&p).any(|(i, _)| {
        !entry[..i].ends_with(|c: char| c.is_ascii_digit() || c == ':')
            && !entry[i + p.len()..].starts_with(|c: char| c.is_ascii_digit() || c == ':')
    })
}
fn names_container(entry: &str, tag: &str, name: &str) -> bool {
    let head = format!("{tag} `");
    entry.match_indices(&head).any(|(i, _)| {
        entry[i + head.len()..].trim_start().strip_prefix(name).map(|r| r.trim_start().starts_with('`'))
            == Some(true)
    })
}

fn p11(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.plain = s.chance(1, 2);
    let d = dev(s, &g);
    let st = Style { vary: s.flip(), omit: false };
    let mut x = r_dev(s, st, &d);
    let start = s.idx(KINDS.len());
    let mut fault = None;
    for k in 0..KINDS.len() {
        fault = KINDS[(start + k) % KINDS.len()](s, &mut x, g.strict);
        if fault.is_some() {
            break;
        }
    }
    let Some(f) = fault else {
        return Err(Fail::new("harness: no fault can be injected"));
    };
    cov.hit(&f.kind);
    let deep = f.at[0].len() > 2;
    let mut noise = Noise::gen(s);
    if s.flip() {
        noise = Noise::default();
    }
    // containers and their names, from the deepest acceptable position upwards
    let deepest = f.at.iter().max_by_key(|p| p.len()).cloned().unwrap_or_default();
    let mut names = vec![];
    for k in 0..=deepest.len() {
        let e = x.at(&deepest[..k]);
        if CONTEXT.contains(&e.tag.as_str()) {
            if let Some(n) = e.child("name") {
                let t = n.text().trim().to_string();
                if !t.is_empty() {
                    names.push((e.tag.clone(), t, k));
                }
            }
        }
    }
    // what is below the shallowest position need not be named
    let least = f.at.iter().map(|p| p.len()).min().unwrap_or(0);
    names.retain(|n| n.2 <= least);
    for (i, p) in f.at.iter().enumerate() {
        x.at_mut(p).attrs.insert(0, (format!("zz_mark{i}_"), "1".into()));
    }
    let xml = x.print_noisy(s, noise);
    cov.input(&xml);
    let body = xml.strip_prefix('\u{feff}').unwrap_or(&xml);
    let mut pos = vec![];
    for i in 0..f.at.len() {
        let m = body.find(&format!("zz_mark{i}_")).ok_or("harness: mark lost")?;
        let b = body[..m].rfind('<').ok_or("harness: no tag before the mark")?;
        let line = body[..b].matches('\n').count() + 1;
        let col = body[..b].chars().rev().take_while(|c| *c != '\n').count() + 1;
        pos.push((line, col));
    }
    if deep {
        cov.nontrivial();
    }
    let top = if g.strict { 3 } else { 2 };
    for &lvl in &LEVELS[f.lvl as usize..top] {
        let cfg = svd_parser::Config::default().validate_level(lvl).expand_properties(s.chance(1, 8));
        let chain = match chain_of(&xml, &cfg) {
            Err(p) => fail!("{}: {p}", f.kind),
            Ok(Ok(_)) => fail!("{}: the document is accepted at {lvl:?}, expected an error at one of {pos:?}", f.kind),
            Ok(Err(c)) => c,
        };
        ensure!(
            chain.iter().any(|e| pos.iter().any(|&(l, c)| names_pos(e, l, c))),
            "{}: the error does not state a position among {pos:?}: {chain:?}",
            f.kind
        );
        let last = chain.last().map(String::as_str).unwrap_or("");
        let mut rest = last;
        for w in &f.says {
            match rest.find(w.as_str()) {
                Some(i) => rest = &rest[i + w.len()..],
                None => fail!("{}: the error does not mention `{w}` (in the order {:?}): {last}", f.kind, f.says),
            }
        }
        let mut from = 0;
        for (tag, name, _) in &names {
            match chain[from..].iter().position(|e| names_container(e, tag, name)) {
                Some(k) => from += k,
                None => fail!("{}: the error does not name the {tag} `{name}` (in order, outermost first): {chain:?}", f.kind),
            }
        }
        cov.sub(&format!("{lvl:?}"), deep);
    }
    Ok(())
}

pub const P11: Prop = Prop {
    id: "P11",
    title: "Any single defect in a document is rejected and located",
    rule: "the defect is inside a peripheral",
    quick: 24_000,
    thorough: 1_500_000,
    case: p11,
    directed: &[],
    assumptions: &["an isDefault that is no boolean is tolerated", "a blank (white space) text is not an empty one"],
};

// ------------------------------------------------------------------ P12

/// one of the places, every kind of element at every depth as likely as any other
fn by_depth<'a, T>(s: &mut Src, all: &'a [T], at: impl Fn(&T) -> &link::At) -> &'a T {
    let key = |x: &T| (at(x).kind as u8, at(x).rc.len());
    let mut keys: Vec<_> = all.iter().map(key).collect();
    keys.sort();
    keys.dedup();
    let k = keys[s.idx(keys.len())];
    let of: Vec<&T> = all.iter().filter(|x| key(x) == k).collect();
    of[s.idx(of.len())]
}
/// break (or nearly break) a rule somewhere
fn spoil(s: &mut Src, d: &mut Dev) -> &'static str {
    if s.chance(1, 12) {
        match s.below(3) {
            0 => d.pers.clear(),
            1 => d.pers.truncate(1),
            _ => d.props = spoil_props(s),
        }
        return "device";
    }
    let at = link::places(d);
    if at.is_empty() {
        d.props = spoil_props(s);
        return "device";
    }
    // an array's index values, at any depth
    if s.chance(1, 10) {
        let arrays: Vec<&link::At> =
            at.iter().filter(|a| a.kind != link::Kind::E && a.names.last().is_some_and(|n| n.1.is_some())).collect();
        if !arrays.is_empty() {
            let a = *by_depth(s, &arrays, |a| *a);
            let dim = match a.kind {
                link::Kind::P => &mut d.pers[a.per].dim,
                link::Kind::F => &mut link::field_mut(d, a).dim,
                _ => match link::rc_mut(d, a) {
                    Rc::C(c) => &mut c.dim,
                    Rc::R(r) => &mut r.dim,
                },
            };
            if let Some(dim) = dim {
                let ix = dim.dai.get_or_insert_with(Dai::default);
                if ix.values.is_empty() {
                    ix.values.push(Ev { name: "A".into(), desc: None, value: Some(0), is_default: None });
                }
                spoil_ev(s, ix.values.iter_mut().collect());
                return match a.kind {
                    link::Kind::P => "index value of a peripheral",
                    link::Kind::F => "index value of a field",
                    _ if a.rc.len() > 1 => "index value of a nested register or cluster",
                    _ => "index value of a register or cluster",
                };
            }
        }
    }
    let mut i = s.idx(at.len());
    // a quarter of the time any depth is as likely as any other
    if s.chance(1, 4) {
        let some = by_depth(s, &at, |a| a);
        i = at.iter().position(|a| std::ptr::eq(a, some)).unwrap_or(0);
    }
    // half of the time go for a field
    else
    if s.flip() {
        for k in 0..at.len() {
            if matches!(at[(i + k) % at.len()].kind, link::Kind::F) {
                i = (i + k) % at.len();
                break;
            }
        }
    }
    let a = at[i].clone();
    if s.chance(1, 15) {
        return spoil_last(s, d, &a);
    }
    spoil_at(s, d, &a)
}
/// break a rule in an element that many others of its kind precede
fn spoil_last(s: &mut Src, d: &mut Dev, a: &link::At) -> &'static str {
    let n = 30 + s.idx(150);
    fn before<T: Clone>(v: &mut Vec<T>, i: usize, orig: T, n: usize) {
        if i <= v.len() {
            v.splice(i..i, std::iter::repeat_n(orig, n));
        }
    }
    match a.kind {
        link::Kind::F | link::Kind::E => {
            let old = link::field_mut(d, a).clone();
            spoil_at(s, d, a);
            if s.flip() {
                if let Some(v) = &mut link::reg_mut(d, a).fields {
                    before(v, a.f, old, n);
                }
            } else {
                let f = link::field_mut(d, a);
                for (e, o) in f.evs.iter_mut().zip(&old.evs) {
                    if let Some(x) = o.values.first() {
                        before(&mut e.values, 0, x.clone(), n);
                    }
                }
            }
            "late field or value"
        }
        link::Kind::P => {
            let mut old = d.pers[a.per].clone();
            if let Some(v) = &mut old.regs {
                v.truncate(1);
            }
            spoil_at(s, d, a);
            before(&mut d.pers, a.per, old, n.min(80));
            "late peripheral"
        }
        _ => {
            let mut old = link::rc_mut(d, a).clone();
            match &mut old {
                Rc::C(c) => c.children.truncate(1),
                Rc::R(r) => {
                    if let Some(v) = &mut r.fields {
                        v.truncate(1);
                    }
                }
            }
            spoil_at(s, d, a);
            if let Some((i, up)) = a.rc.split_last() {
                let v = if up.is_empty() {
                    d.pers[a.per].regs.as_mut()
                } else {
                    let mut b = a.clone();
                    b.rc = up.to_vec();
                    match link::rc_mut(d, &b) {
                        Rc::C(c) => Some(&mut c.children),
                        Rc::R(_) => None,
                    }
                };
                if let Some(v) = v {
                    before(v, *i, old, n);
                }
            }
            "late register or cluster"
        }
    }
}
fn spoil_at(s: &mut Src, d: &mut Dev, a: &link::At) -> &'static str {
    if matches!(a.kind, link::Kind::F | link::Kind::E) {
        let f = link::field_mut(d, a);
        match s.below(11) {
            0 => {
                f.brt = Brt::Ow;
                f.width = 0;
            }
            1 | 2 => {
                // around the first value that does not fit
                if f.width < 64 {
                    let lim = 1u64 << f.width;
                    let v = lim.wrapping_add(s.below(3)).wrapping_sub(1);
                    let n = f.evs.len();
                    if n > 0 {
                        let e = &mut f.evs[s.idx(n)];
                        let m = e.values.len();
                        if m > 0 {
                            let k = s.idx(m);
                            e.values[k].value = Some(v);
                        }
                    }
                }
            }
            3 => spoil_ev(s, f.evs.iter_mut().flat_map(|e| e.values.iter_mut()).collect()),
            4 => {
                let n = f.evs.len();
                if n > 0 {
                    let k = s.idx(n);
                    f.evs[k].values.clear();
                    if s.flip() {
                        f.evs[k].derived = None;
                    }
                }
            }
            5 => {
                let w = f.width.min(63);
                let lim = (1u64 << w).wrapping_add(s.below(3)).wrapping_sub(1);
                let lo = s.num(w.max(1));
                let (a, b) = match s.below(4) {
                    0 => (lo, lim),
                    1 => (lim, lim),
                    2 if f.width < 64 => (lim, lo),
                    _ => (0, lim),
                };
                if f.width < 64 || a <= b {
                    f.wc = Some(Wc::Range(a, b));
                }
            }
            6 => f.name = spoil_name(s, &f.name, f.dim.is_some()),
            7 => f.derived = Some(spoil_path(s)),
            8 => {
                let n = f.evs.len();
                if n > 0 {
                    let k = s.idx(n);
                    match s.below(3) {
                        0 => f.evs[k].usage = s.opt(2, 3, |s| kw(s, USAGE)),
                        1 => f.evs[k].derived = Some(spoil_path(s)),
                        _ => f.evs[k].name = Some(spoil_name(s, "Values", false)),
                    }
                }
            }
            9 => {
                let n = s.below(4);
                if let Some(e) = f.evs.first().cloned() {
                    for _ in 0..n {
                        let mut c = e.clone();
                        c.usage = s.opt(2, 3, |s| kw(s, USAGE));
                        if s.chance(1, 4) {
                            c.derived = Some("A".into());
                        }
                        f.evs.push(c);
                    }
                }
            }
            _ => {
                if let Some(a) = f.dim.as_mut().and_then(|d| d.dai.as_mut()) {
                    spoil_ev(s, a.values.iter_mut().collect())
                }
            }
        }
        return "field";
    }
    if matches!(a.kind, link::Kind::P) {
        let p = &mut d.pers[a.per];
        match s.below(6) {
            0 => p.name = spoil_name(s, &p.name, p.dim.is_some()),
            1 => p.derived = Some(if s.flip() { spoil_path(s) } else { spoil_name(s, "CTRL_A", false) }),
            2 => p.regs = Some(vec![]),
            3 => {
                if let Some(a) = p.dim.as_mut().and_then(|d| d.dai.as_mut()) {
                    spoil_ev(s, a.values.iter_mut().collect())
                }
            }
            _ => p.props = spoil_props(s),
        }
        return "peripheral";
    }
    match link::rc_mut(d, a) {
        Rc::C(c) => {
            match s.below(6) {
                0 => c.name = spoil_name(s, &c.name, c.dim.is_some()),
                1 => c.derived = Some(spoil_path(s)),
                2 => c.children.clear(),
                3 => {
                    if let Some(a) = c.dim.as_mut().and_then(|d| d.dai.as_mut()) {
                        spoil_ev(s, a.values.iter_mut().collect())
                    }
                }
                _ => c.props = spoil_props(s),
            }
            "cluster"
        }
        Rc::R(r) => {
            match s.below(8) {
                0 => r.name = spoil_name(s, &r.name, r.dim.is_some()),
                1 => r.derived = Some(spoil_path(s)),
                2 => r.fields = Some(vec![]),
                3 => {
                    if let Some(a) = r.dim.as_mut().and_then(|d| d.dai.as_mut()) {
                        spoil_ev(s, a.values.iter_mut().collect())
                    }
                }
                4 => r.alt_group = Some(spoil_name(s, "Group", false)),
                5 => r.alt_reg = Some(spoil_name(s, &r.name, false)),
                _ => r.props = spoil_props(s),
            }
            "register"
        }
    }
}
fn spoil_ev(s: &mut Src, mut v: Vec<&mut Ev>) {
    if v.is_empty() {
        return;
    }
    let k = s.idx(v.len());
    let e = &mut v[k];
    match s.below(6) {
        0 => {
            e.value = None;
            e.is_default = None;
        }
        1 => {
            e.value = None;
            e.is_default = Some(false);
        }
        2 => e.is_default = Some(true),
        3 => e.is_default = Some(false),
        4 => {
            e.value = None;
            e.is_default = Some(true);
        }
        _ => e.name = spoil_name(s, &e.name, false),
    }
}
fn spoil_name(s: &mut Src, old: &str, array: bool) -> String {
    if s.chance(1, 4) {
        // the name it had, with one character more
        let bad = *s.pick(&["-", " ", ".", "é", "[", "%", "_", "1", "A", "$"]);
        let mut n = old.to_string();
        let mut k = if s.flip() { n.len() } else { s.idx(n.len() + 1) };
        while !n.is_char_boundary(k) || (k > 0 && n.as_bytes()[k - 1..].starts_with(b"%s")) {
            k += 1;
        }
        n.insert_str(k, bad);
        if n.trim() == n {
            // the parser trims the text of a name: a space at its ends is not part of it
            return n;
        }
    }
    if array {
        s.pick(&["%s", "A%s", "A[%s]", "%sA", "A%sB", "A%s1", "A[%s]B", "%s1", "1%s", "A%s%s", "[%s]", "A %s",
            "A%s[%s]", "A[%s][%s]", "%s_A", "A%sé", "é%s", "%sé", "A%s-"])
            .to_string()
    } else {
        s.pick(&["A", "_", "a1", "1a", "0", "a b", "a-b", "é", "a.b", "%s", "A%s", "A[%s]", "%sA", "A%sB", "[%s]", "%s%s",
            "A%", "A[s]", "A\u{301}", "٣", "A٣", "a\nb", "Ａ", "A[%s]x", "%sA%s"])
            .to_string()
    }
}
fn spoil_path(s: &mut Src) -> String {
    let mut p = spoil_name(s, "CTRL_A", false).replace('\n', " ");
    for _ in 0..s.below(3) {
        p = format!("{p}{}{}", if s.chance(1, 8) { ".." } else { "." }, spoil_name(s, "CTRL_A", false).replace('\n', " "));
    }
    p
}
fn spoil_props(s: &mut Src) -> Props {
    let size = s.opt(3, 4, |s| *s.pick(&[8u32, 1, 0, 32, 63, 64, 65, 100, u32::MAX]));
    let b = size.unwrap_or(16).min(64);
    let edge = |s: &mut Src| {
        if b >= 64 {
            s.num(64)
        } else {
            (1u64 << b).wrapping_add(s.below(3)).wrapping_sub(1)
        }
    };
    let rval = s.opt(2, 3, |s| if s.flip() { edge(s) } else { s.num(b.max(1)) });
    let rmask = s.opt(1, 2, |s| match s.below(3) {
        0 => edge(s),
        1 => s.num(b.max(1)),
        _ => rval.unwrap_or(0),
    });
    Props {
        size,
        access: s.opt(1, 3, |s| kw(s, ACCESS)),
        prot: s.opt(1, 3, |s| kw(s, PROT)),
        rval,
        rmask,
    }
}

/// what the levels say of themselves
fn levels() -> Out {
    use ValidateLevel::*;
    ensure!(ValidateLevel::default() == Weak && par_config_default_is_weak(), "the default level is not weak");
    for (l, d, w, st) in [(Disabled, true, false, false), (Weak, false, true, false), (Strict, false, true, true)] {
        ensure!((l.is_disabled(), l.is_weak(), l.is_strict()) == (d, w, st), "what {l:?} says of itself");
    }
    Ok(())
}
fn par_config_default_is_weak() -> bool {
    svd_parser::Config::default().validate_level == ValidateLevel::Weak
}
fn p12(s: &mut Src, cov: &mut Cov) -> Out {
    let g = G::any(s);
    let mut d = dev(s, &g);
    let n = if s.chance(1, 8) { 0 } else { 1 + s.below(2) };
    for _ in 0..n {
        let k = spoil(s, &mut d);
        cov.hit(k);
    }
    let o = if s.chance(1, 6) {
        Omit { version: s.flip(), desc: s.flip(), aub: s.flip(), width: s.flip() }
    } else {
        Omit::default()
    };
    let mut x = r_dev(s, PLAIN, &d);
    if d.desc.is_empty() {
        // an empty description in a document counts as none
        drop_tags(&mut x, &["description"]);
    }
    let mut want = d.clone();
    for (b, tag) in [(o.version, "version"), (o.desc, "description"), (o.aub, "addressUnitBits"), (o.width, "width")] {
        if b {
            drop_tags(&mut x, &[tag]);
        }
    }
    if o.version {
        want.version = "1.0".into();
    }
    if o.desc {
        want.desc = String::new();
    }
    if o.aub {
        want.aub = 8;
    }
    if o.width {
        want.width = 32;
    }
    let omitted = o.version || o.desc || o.aub || o.width;
    let xml = x.print();
    cov.input(&xml);
    let dv = lower(&want);
    let mut accepted = [false; 3];
    for (k, &lvl) in LEVELS.iter().enumerate() {
        let judged = judge(&d, lvl);
        let rules = judged.broken.clone();
        let strict = lvl == STRICT;
        let ok = rules.is_empty();
        // the reader
        let mut rules_r = rules.clone();
        if strict && (omitted || d.desc.is_empty()) {
            rules_r.push("device item missing".into());
        }
        match (parse_at(&xml, lvl), rules_r.is_empty()) {
            (Ok(v), true) => {
                let got = lift(&v);
                ensure!(got == want, "accepted at {lvl:?} with another device {}", diff(&want, &got));
            }
            (Err(e), true) => fail!("the reader rejects at {lvl:?} a device that breaks no rule: {e}"),
            (Ok(_), false) => fail!("the reader accepts at {lvl:?} a device that breaks: {rules_r:?}"),
            (Err(e), false) => {
                ensure!(!e.starts_with("panicked"), "{e}");
                ensure!(
                    rules_r.len() > rules.len() || judged.errors.iter().any(|w| e.ends_with(&w.to_string())),
                    "the reader rejects a device that breaks {rules:?} with the error: {e}"
                );
            }
        }
        // revalidation
        match (quietly(|| dv.validate_all(lvl)), ok) {
            (Err(p), _) => fail!("validate_all {p}"),
            (Ok(Ok(())), false) => fail!("validate_all accepts at {lvl:?} a device that breaks: {rules:?}"),
            (Ok(Err(e)), true) => fail!("validate_all rejects at {lvl:?} a device that breaks no rule: {e}"),
            (Ok(Err(e)), false) => {
                ensure!(judged.named(&e), "validate_all rejects a device that breaks {rules:?} with the error {e:?}")
            }
            _ => {}
        }
        // the builders
        let mut rules_b = rules.clone();
        if strict && omitted {
            rules_b.push("device item missing".into());
        }
        match (quietly(|| b_dev(&d, o, lvl)), rules_b.is_empty()) {
            (Err(p), _) => fail!("builders: {p}"),
            (Ok(Ok(_)), false) => fail!("the builders accept at {lvl:?} a device that breaks: {rules_b:?}"),
            (Ok(Err(e)), true) => fail!("the builders reject at {lvl:?} a device that breaks no rule: {e}"),
            (Ok(Ok(v)), true) => {
                let got = lift(&v);
                ensure!(got == want, "the builders give another device at {lvl:?} {}", diff(&want, &got));
            }
            (Ok(Err(e)), false) => ensure!(
                judged.named(&e) || rules_b.len() > rules.len() && matches!(e, svd::SvdError::Build(_)),
                "the builders reject a device that breaks {rules_b:?} with the error {e:?}"
            ),
            _ => {}
        }
        accepted[k] = ok;
        for r in &rules {
            cov.hit(&format!("{lvl:?}: {r}"));
        }
        cov.sub(&format!("{lvl:?}"), rules.len() == 1);
        if rules.len() == 1 {
            cov.nontrivial();
        }
    }
    ensure!(accepted[0] && accepted[1] >= accepted[2], "harness: rules are not monotonic");
    Ok(())
}

pub const P12: Prop = Prop {
    id: "P12",
    title: "Validation rules hold by level, everywhere and monotonically",
    rule: "exactly one rule is broken",
    quick: 40_000,
    thorough: 1_500_000,
    case: p12,
    directed: &[Directed {
        name: "levels",
        run: levels,
    }],
    assumptions: &["write ranges of 64-bit fields are in order"],
};

// ------------------------------------------------------------------ P13

fn strip(d: &mut Dev) -> u64 {
    let mut n = 0;
    super::enc::each_reg(d, &mut |r| {
        for f in r.fields.iter_mut().flatten() {
            n += f.evs.len() as u64 + f.wc.is_some() as u64;
            f.evs.clear();
            f.wc = None;
        }
    });
    n
}
/// make the content of an ignored element invalid
fn garble(s: &mut Src, e: &mut X) -> bool {
    if e.tag == "writeConstraint" {
        match s.below(4) {
            0 => e.kids.clear(),
            1 => e.add("bogus", "1"),
            2 => {
                e.kids.clear();
                e.add("writeAsRead", "maybe");
            }
            _ => {
                let mut r = X::new("range");
                r.add("minimum", "9");
                r.add("maximum", "-1");
                e.kids = vec![N::E(r)];
            }
        }
        return true;
    }
    match s.below(6) {
        0 => e.add("bogus", "1"),
        1 => e.kids.clear(),
        2 => e.push(X::new("enumeratedValue")),
        3 => {
            let mut k = X::new("enumeratedValue");
            k.add("name", "N");
            k.add("value", "0xfffffffffffffffff");
            e.push(k);
        }
        4 => {
            put(e, "usage", "never");
        }
        _ => {
            let mut k = X::new("enumeratedValue");
            k.add("name", "TOO_BIG");
            k.add("value", "0xffffffffffffffff");
            e.push(k);
        }
    }
    true
}

fn p13(s: &mut Src, cov: &mut Cov) -> Out {
    let expand = s.chance(1, 3);
    let (d, strict) = if expand {
        (
            link::linked(s, link::L { plain: false, arrays: true, grow: true, apart: false, simple: false, max_refs: 4 }),
            false,
        )
    } else {
        let g = G::any(s);
        (dev(s, &g), g.strict)
    };
    let st = Style { vary: s.flip(), omit: false };
    let mut x = r_dev(s, st, &d);
    let mut bare = d.clone();
    let removed = strip(&mut bare);
    let lvls = if strict { &LEVELS[..] } else { &LEVELS[..2] };
    let lvl = *s.pick(lvls);
    let mut broken_parts = 0;
    if s.flip() {
        let mut all = vec![];
        for p in x.find_all(&mut |e| e.tag == "field") {
            for (i, k) in x.at(&p).kids.iter().enumerate() {
                if matches!(k, N::E(e) if e.tag == "enumeratedValues" || e.tag == "writeConstraint") {
                    all.push(down(&p, i));
                }
            }
        }
        for p in all {
            if s.flip() {
                broken_parts += garble(s, x.at_mut(&p)) as u32;
            }
        }
    }
    let xml = if s.chance(1, 4) {
        let n = Noise::gen(s);
        x.print_noisy(s, n)
    } else {
        x.print()
    };
    cov.input(&xml);
    let stripped = r_dev(s, st, &bare).print();
    cov.hit_if(removed > 0, "something to ignore");
    cov.hit_if(broken_parts > 0, "ignored parts are invalid");
    cov.hit_if(expand, "with expansion");
    if removed > 0 {
        cov.nontrivial();
    }
    let read = |t: &str, ignore: bool, exp: bool| -> Result<Result<svd::Device, String>, Fail> {
        let cfg = svd_parser::Config::default().validate_level(lvl).ignore_enums(ignore).expand(exp);
        match chain_of(t, &cfg) {
            Err(p) => Err(Fail::new(p)),
            Ok(Ok(v)) => Ok(Ok(v)),
            Ok(Err(c)) => Ok(Err(c.join(": "))),
        }
    };
    match read(&xml, true, false)? {
        Err(e) => fail!("reading with enumerated values ignored fails at {lvl:?}: {e}"),
        Ok(v) => {
            let got = lift(&v);
            ensure!(got == bare, "ignoring differs from removing at {lvl:?} {}", diff(&bare, &got));
        }
    }
    match read(&stripped, false, false)? {
        Err(e) => fail!("the document without enumerated values is rejected at {lvl:?}: {e}"),
        Ok(v) => {
            let got = lift(&v);
            ensure!(got == bare, "the stripped document reads differently {}", diff(&bare, &got));
        }
    }
    if broken_parts == 0 {
        // off, the option changes nothing
        match read(&xml, false, false)? {
            Err(e) => fail!("rejected with the option off at {lvl:?}: {e}"),
            Ok(v) => {
                let got = lift(&v);
                ensure!(got == d, "parts are missing with the option off {}", diff(&d, &got));
            }
        }
    }
    if expand {
        let a = read(&xml, true, true)?;
        let b = read(&stripped, false, true)?;
        match (a, b) {
            (Ok(a), Ok(b)) => {
                let (a, b) = (lift(&a), lift(&b));
                ensure!(a == b, "expansion differs between ignoring and removing {}", diff(&b, &a));
                cov.hit("expanded");
            }
            (Err(_), Err(_)) => cov.hit("not expandable"),
            (a, b) => fail!("expansion: ignoring gives {:?}, removing gives {:?}", a.err(), b.err()),
        }
        cov.sub("expanded", removed > 0);
    }
    Ok(())
}

pub const P13: Prop = Prop {
    id: "P13",
    title: "Ignoring enumerated values equals removing them first",
    rule: "the document has enumerated values or write constraints of fields",
    quick: 20_000,
    thorough: 1_000_000,
    case: p13,
    directed: &[],
    assumptions: &[],
};
