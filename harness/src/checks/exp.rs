//! P14 arrays, P15 expansion, P16 unresolvable references, P17 inherited properties, P22 paths
use super::doc::*;
use crate::engine::*;
use crate::gen::*;
use crate::link::*;
use crate::model::*;
use crate::{ensure, fail};
use std::collections::HashMap;
use svd_parser::expand::{BlockPath, EnumPath, FieldPath, Index, RegisterPath};
use svd_parser::svd::{self, ValidateLevel};

// ------------------------------------------------------------------------- P14

/// Keep every item of the array within its address space
fn fit(start: u64, max: u64, d: &mut Dim) {
    let n = d.dim.saturating_sub(1) as u64;
    if n > 0 {
        d.inc = d.inc.min(((max - start) / n).min(u32::MAX as u64) as u32);
    }
}

/// Denoted by the dimIndex grammar: None if the text is certainly not in it
fn ref_indexes(t: &str) -> Option<Vec<String>> {
    if let Some((a, b)) = t.split_once('-') {
        let num = |x: &str| {
            (!x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()))
                .then(|| x.parse::<u64>().ok().filter(|v| *v <= u32::MAX as u64))
                .flatten()
        };
        if let (Some(a), Some(b)) = (num(a), num(b)) {
            return (a <= b).then(|| (a..=b).map(|v| v.to_string()).collect());
        }
        let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
        let one = |lo: char, hi: char| {
            a.len() == 1 && b.len() == 1 && a[0] >= lo && a[0] <= hi && b[0] >= lo && b[0] <= hi
        };
        if (one('a', 'z') || one('A', 'Z')) && a[0] <= b[0] {
            return Some((a[0]..=b[0]).map(|c| c.to_string()).collect());
        }
        return None;
    }
    Some(t.split(',').map(|x| x.trim_matches(' ').to_string()).collect())
}

fn index_case(s: &mut Src) -> String {
    let c = |s: &mut Src| *s.pick(&["a", "b", "z", "A", "C", "Z", "m"]);
    match s.below(8) {
        0 => {
            let a = s.num(32).min(u32::MAX as u64 - 70);
            format!("{a}-{}", a + s.below(70))
        }
        1 => format!("{}-{}", c(s), c(s)),
        2 => {
            let v = s.num(33);
            format!("{}-{}", v + 1 + s.below(3), v)
        }
        3 => {
            let n = 1 + s.below(6);
            let mut v = vec![];
            for _ in 0..n {
                v.push(s.pick(&["0", "A", "x_1", "12", "00", "Q", "_", "4294967296"]).to_string());
            }
            v.join(*s.pick(&[",", ", ", ",  "]))
        }
        4 => s
            .pick(&[
                "A-5", "5-A", "AB-CD", "-", "-3", "3-", "1-2-3", "a-Z", "Z-a", "A-z", "1-4294967296",
                "4294967295-4294967295", "é-ü", "@-C", "X-[", "`-c", "y-{", "0x1-0x3", "0-3,5", "1,2-4", "0--1", "A-BC", "AB-C", "0 - 3",
                "0- 3", "0 -3", "A - C", "A- C", "a-cd", "0-3-", "A-C,", "0x0-3", "A-é", "é-A", "0-A", "3,", ",3",
            ])
            .to_string(),
        5 => s.below(40).to_string(),
        6 => {
            let n = 1 + s.idx(6);
            let t: String = (0..n).map(|_| *s.pick(&['0', '1', '2', '9', 'A', 'B', 'C', 'a', 'c', 'Z', '-', '-', ',', ' ', '_'])).collect();
            let t = t.trim();
            if t.is_empty() { "0".into() } else { t.to_string() }
        }
        _ => {
            let a = s.below(20);
            format!("{a}-{}", s.below(20))
        }
    }
}

fn p14(s: &mut Src, cov: &mut Cov) -> Out {
    if s.chance(1, 4) {
        let t = index_case(s);
        cov.input(format!("dimIndex {t:?}"));
        cov.hit("index text");
        cov.nontrivial();
        let got = quietly(|| svd::DimElement::parse_indexes(&t));
        let want = ref_indexes(&t);
        ensure!(got == Ok(want.clone()), "index list {t:?} read as {got:?}, expected {want:?}");
        // the same text in a document and in serialized data
        let n = want.as_ref().map(|v| v.len()).unwrap_or(1);
        let wrong = s.chance(1, 3);
        let dim = if wrong { n + 1 + s.idx(3) } else { n };
        let xml = format!("<device><name>d</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers><register><dim>{dim}</dim><dimIncrement>4</dimIncrement><dimIndex>{t}</dimIndex><name>R%s</name><addressOffset>0</addressOffset></register></registers></peripheral></peripherals></device>");
        let d = parse_at(&xml, ValidateLevel::Weak);
        match (&want, &d) {
            (Some(v), Ok(d)) if !wrong => {
                let d = lift(d);
                let got = match d.pers.first().and_then(|p| p.regs.as_ref()).and_then(|v| v.first()) {
                    Some(Rc::R(r)) => r.dim.clone().and_then(|d| d.index),
                    _ => None,
                };
                ensure!(got.as_ref() == Some(v), "document: {t:?} read as {got:?}, expected {v:?}");
            }
            (Some(_), Err(_)) if wrong => cov.hit("wrong count"),
            (None, Err(_)) => cov.hit("malformed index"),
            _ => fail!("document with {dim} items and dimIndex {t:?} gave {:?}", d.map(|_| "a device")),
        }
        let j = format!("{{\"dim\":{n},\"dimIncrement\":4,\"dimIndex\":{}}}", serde_json::json!(t));
        let r = match quietly(|| serde_json::from_str::<svd::DimElement>(&j)) {
            Ok(r) => r.map(|d| d.dim_index).map_err(|e| e.to_string()),
            Err(p) => fail!("{p}"),
        };
        match (&want, &r) {
            (Some(v), Ok(Some(w))) if v == w => {}
            (None, Err(_)) => {}
            _ => fail!("serialized dimIndex {t:?} read as {r:?}, expected {want:?}"),
        }
        // in serialized data a list of indexes stands for itself
        let l: Vec<String> =
            (0..s.below(4)).map(|_| if s.chance(1, 4) { String::new() } else { t.clone() }).collect();
        let j = format!("{{\"dim\":{n},\"dimIncrement\":4,\"dimIndex\":{}}}", serde_json::json!(l));
        let r = match quietly(|| serde_json::from_str::<svd::DimElement>(&j)) {
            Ok(r) => r.map(|d| d.dim_index).map_err(|e| e.to_string()),
            Err(p) => fail!("{p}"),
        };
        ensure!(matches!(&r, Ok(Some(v)) if *v == l), "serialized list of indexes {l:?} read as {r:?}");
        return Ok(());
    }
    let mut g = G::any(s);
    g.arrays = true;
    g.depth = g.depth.min(1);
    let mut d = dim(s, &g, 9);
    if s.chance(1, 10) && d.index.is_none() {
        d.dim = s.below(300) as u32;
    }
    // a long one, of items with nothing inside
    let long = s.chance(1, 80);
    if long {
        let n = 200 + s.idx(2200);
        d.dim = n as u32;
        if let Some(v) = &mut d.index {
            let first = s.below(300) as usize;
            *v = (first..first + n).map(|i| i.to_string()).collect();
            if s.chance(1, 3) {
                let (a, b) = (s.idx(n), s.idx(n));
                v.swap(a, b);
            }
        }
    }
    // names and descriptions by index value, aimed at existing indexes
    if let Some(a) = &mut d.dai {
        for (k, v) in a.values.iter_mut().enumerate() {
            let i = match &d.index {
                Some(x) => x.get(k * 2).and_then(|i| i.parse::<u64>().ok()),
                None => s.opt(2, 3, |s| s.below(d.dim.max(1) as u64 + 1)),
            };
            if let Some(n) = i {
                // a value that equals an index in its low bits only, names no item
                v.value = Some(match s.below(8) {
                    0 => n.wrapping_add(1 << 32),
                    1 => n.wrapping_add(*s.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 63])),
                    _ => n,
                });
            }
        }
    }
    let mut u = Used::new();
    let b = ident(s, &mut u);
    let name = if s.chance(1, 4) { array_name_free(s, &b) } else { array_name(s, &b) };
    let ds = match s.below(3) {
        0 => None,
        1 => Some(format!("item %s of {name}, [%s]")),
        _ => Some(text(s, &g)),
    };
    let kind = *s.pick(&KINDS[..4]);
    cov.hit(match kind {
        Kind::P => "peripheral array",
        Kind::C => "cluster array",
        Kind::R => "register array",
        _ => "field array",
    });
    cov.hit_if(d.dai.as_ref().map(|a| !a.values.is_empty()) == Some(true), "named index values");
    cov.hit_if(d.index.is_some(), "explicit indexes");
    if d.dim > 1 {
        cov.nontrivial();
    }
    // the index list seen as a range
    let dl = lower_dim(&d);
    let idx = indexes(&d);
    let want_range = {
        let v: Vec<Option<u64>> = idx
            .iter()
            .map(|t| t.parse::<u32>().ok().filter(|n| n.to_string() == *t).map(|n| n as u64))
            .collect();
        match (v.first(), v.last()) {
            (Some(Some(a)), Some(Some(b)))
                if v.iter().enumerate().all(|(i, x)| *x == Some(a + i as u64)) =>
            {
                Some((*a as u32)..=(*b as u32))
            }
            _ => None,
        }
    };
    let got = quietly(|| dl.indexes_as_range());
    ensure!(got == Ok(want_range.clone()), "indexes {idx:?} as a range: {got:?}, expected {want_range:?}");
    let got = quietly(|| dl.indexes().map(|c| c.into_owned()).collect::<Vec<_>>());
    ensure!(got == Ok(idx.clone()), "indexes() gave {got:?}, expected {idx:?}");

    fn same_items<T: PartialEq + std::fmt::Debug>(
        what: &str,
        want: Result<Vec<T>, String>,
        got: Result<Vec<T>, String>,
    ) -> Out {
        let want = match want {
            Ok(w) => w,
            Err(_) => return Ok(()),
        };
        match got {
            Ok(g) if g == want => Ok(()),
            Ok(g) => fail!("items of the {what} array differ {}", diff(&want, &g)),
            Err(e) => fail!("expanding the {what} array: {e}"),
        }
    }
    let names = item_names(&name, &d);
    let descs: Vec<Option<String>> = idx.iter().map(|i| item_desc(&ds, &d, i)).collect();
    let check_nd = |n: Vec<String>, t: Vec<Option<String>>| -> Out {
        ensure!(n == names, "names() gave {n:?}, expected {names:?}");
        ensure!(t == descs, "descriptions() gave {t:?}, expected {descs:?}");
        Ok(())
    };
    use svd::array::{descriptions, names as names_of};
    let mut doc = Dev {
        name: "D".into(),
        version: "1".into(),
        desc: "d".into(),
        aub: 8,
        width: 32,
        xs: XS.into(),
        loc: LOC.into(),
        schema: "1.3".into(),
        ..Default::default()
    };
    let mut host = Per {
        name: "HOST".into(),
        ..Default::default()
    };
    match kind {
        Kind::P => {
            let mut p = per(s, &g, &mut u);
            if long {
                p.regs = None;
            }
            fit(p.base, u64::MAX, &mut d);
            p.name = name.clone();
            p.desc = ds.clone();
            p.dim = Some(d.clone());
            if s.flip() {
                p.display = Some("p%s [%s]".into());
            }
            cov.input(format!("{p:#?}"));
            let (i, dl) = (lower_per_info(&p), lower_dim(&d));
            let got = quietly(|| {
                svd::peripheral::expand(&i, &dl)
                    .map(|x| lift_per(&svd::MaybeArray::Single(x)))
                    .collect()
            });
            same_items("peripheral", per_items(&p), got)?;
            check_nd(names_of(&i, &dl).collect(), descriptions(&i, &dl).collect())?;
            let a = quietly(|| svd::peripheral::base_addresses(&i, &dl).collect::<Vec<_>>());
            let w: Vec<u64> = (0..d.dim as u64).map(|k| p.base + k * d.inc as u64).collect();
            ensure!(a == Ok(w.clone()), "base_addresses gave {a:?}, expected {w:?}");
            doc.pers = vec![p];
        }
        Kind::C => {
            let mut c = clu(s, &g, 0, &mut u);
            if long {
                c.children.truncate(1);
                if let Some(Rc::R(r)) = c.children.first_mut() {
                    r.fields = None;
                    r.derived = Some("A".into());
                }
            }
            fit(c.off as u64, u32::MAX as u64, &mut d);
            c.name = name.clone();
            c.desc = ds.clone();
            c.dim = Some(d.clone());
            cov.input(format!("{c:#?}"));
            let (i, dl) = (lower_clu_info(&c), lower_dim(&d));
            let got = quietly(|| {
                svd::cluster::expand(&i, &dl)
                    .map(|x| lift_clu(&svd::MaybeArray::Single(x)))
                    .collect()
            });
            same_items("cluster", clu_items(&c), got)?;
            check_nd(names_of(&i, &dl).collect(), descriptions(&i, &dl).collect())?;
            let a = quietly(|| svd::cluster::address_offsets(&i, &dl).collect::<Vec<_>>());
            let w: Vec<u32> = (0..d.dim).map(|k| c.off + k * d.inc).collect();
            ensure!(a == Ok(w.clone()), "address_offsets gave {a:?}, expected {w:?}");
            host.regs = Some(vec![Rc::C(c)]);
            doc.pers = vec![host];
        }
        Kind::R => {
            let mut r = reg(s, &g, &mut u);
            if long {
                r.fields = r.fields.map(|mut f| {
                    f.truncate(1);
                    f
                });
            }
            fit(r.off as u64, u32::MAX as u64, &mut d);
            r.name = name.clone();
            r.desc = ds.clone();
            r.dim = Some(d.clone());
            if s.flip() {
                r.display = Some("p%s [%s]".into());
            }
            cov.input(format!("{r:#?}"));
            let (i, dl) = (lower_reg_info(&r), lower_dim(&d));
            let got = quietly(|| {
                svd::register::expand(&i, &dl)
                    .map(|x| lift_reg(&svd::MaybeArray::Single(x)))
                    .collect()
            });
            same_items("register", reg_items(&r), got)?;
            check_nd(names_of(&i, &dl).collect(), descriptions(&i, &dl).collect())?;
            let a = quietly(|| svd::register::address_offsets(&i, &dl).collect::<Vec<_>>());
            let w: Vec<u32> = (0..d.dim).map(|k| r.off + k * d.inc).collect();
            ensure!(a == Ok(w.clone()), "address_offsets gave {a:?}, expected {w:?}");
            host.regs = Some(vec![Rc::R(r)]);
            doc.pers = vec![host];
        }
        _ => {
            let mut f = field(s, &g, &mut u);
            if long {
                f.evs.truncate(1);
            }
            fit(f.off as u64 + f.width as u64, u32::MAX as u64, &mut d);
            f.name = name.clone();
            f.desc = ds.clone();
            f.dim = Some(d.clone());
            cov.input(format!("{f:#?}"));
            let (i, dl) = (lower_field_info(&f), lower_dim(&d));
            let got = quietly(|| {
                svd::field::expand(&i, &dl)
                    .map(|x| lift_field(&svd::MaybeArray::Single(x)))
                    .collect()
            });
            same_items("field", field_items(&f), got)?;
            check_nd(names_of(&i, &dl).collect(), descriptions(&i, &dl).collect())?;
            let a = quietly(|| svd::field::bit_offsets(&i, &dl).collect::<Vec<_>>());
            let w: Vec<u32> = (0..d.dim).map(|k| f.off + k * d.inc).collect();
            ensure!(a == Ok(w.clone()), "bit_offsets gave {a:?}, expected {w:?}");
            host.regs = Some(vec![Rc::R(Reg {
                name: "R".into(),
                fields: Some(vec![f]),
                ..Default::default()
            })]);
            doc.pers = vec![host];
        }
    }
    // the reader accepts the array, and refuses it without a placeholder or with a wrong count
    let st = Style {
        vary: s.flip(),
        omit: false,
    };
    let x = r_dev(s, st, &doc);
    match parse_at(&x.print(), ValidateLevel::Weak) {
        Ok(v) => {
            let v = lift(&v);
            ensure!(v == doc, "array read differently {}", diff(&doc, &v));
        }
        Err(e) => fail!("array rejected: {e}"),
    }
    let tag = match kind {
        Kind::P => "peripheral",
        Kind::C => "cluster",
        Kind::R => "register",
        _ => "field",
    };
    let bare_name = s.flip();
    let mut y = x.clone();
    let paths = y.find_all(&mut |e| {
        e.tag == tag && e.child("dimIncrement").is_some() && e.child("name").map(|n| n.text()) == Some(name.clone())
    });
    let path = match paths.first() {
        Some(p) => p,
        None => fail!("harness: the array is not in the document"),
    };
    let e = y.at_mut(path);
    if bare_name {
        let t = name.replace("[%s]", "").replace("%s", "");
        if let Some(n) = e.child_mut("name") {
            *n = crate::xml::X::leaf("name", if t.is_empty() { "x".to_string() } else { t });
        }
        let r = parse_at(&y.print(), ValidateLevel::Disabled);
        ensure!(r.is_err(), "array without a placeholder in its name accepted");
        cov.hit("no placeholder");
    } else if d.index.is_some() {
        let n = d.dim as u64;
        let m = if s.flip() { n + 1 + s.below(3) } else { n - 1 };
        if let Some(v) = e.child_mut("dim") {
            *v = crate::xml::X::leaf("dim", m.to_string());
        }
        let r = parse_at(&y.print(), ValidateLevel::Disabled);
        ensure!(r.is_err(), "array of {m} items with {n} indexes accepted");
        cov.hit("wrong count");
    }
    Ok(())
}

pub const P14: Prop = Prop {
    id: "P14",
    title: "Arrays expand to exactly their items",
    rule: "an index text, or an array of more than one item",
    quick: 30_000,
    thorough: 1_500_000,
    case: p14,
    directed: &[],
    assumptions: &["every item fits in its address space", "index items contain no hyphen"],
};

// ------------------------------------------------------------------------- P15

const LINK: L = L {
    plain: false,
    arrays: true,
    grow: true,
    apart: true,
    simple: false,
    max_refs: 10,
};

fn refs(d: &Dev) -> (u64, u64) {
    let mut n = 0;
    let mut dotted = 0;
    let mut c = d.clone();
    for a in places(d) {
        if let Some(t) = derived_mut(&mut c, &a) {
            n += 1;
            dotted += t.contains('.') as u64;
        }
    }
    (n, dotted)
}
fn expand_code(d: &Dev) -> Result<Dev, String> {
    let dv = lower(d);
    match quietly(|| svd_parser::expand(&dv)) {
        Ok(Ok(v)) => Ok(lift(&v)),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(format!("PANIC {p}")),
    }
}
pub fn link_input(d: &Dev) -> String {
    r_dev(&mut Src::replay(vec![]), PLAIN, d).print()
}

/// The public derivation functions, applied to one element at a time, complete it the same way and
/// say where its content comes from
fn single_steps(d: &Dev) -> Out {
    let dv = lower(d);
    let ix = match quietly(|| Index::create(&dv)) {
        Ok(i) => i,
        Err(p) => fail!("{p}"),
    };
    let rf = Ref::new(d);
    let block = |p: &Path| {
        let mut b = BlockPath::new(&p[0]);
        for x in &p[1..] {
            b = b.new_cluster(x);
        }
        b
    };
    fn said<P: std::fmt::Display>(
        what: &str,
        r: Result<anyhow::Result<Option<P>>, String>,
        want: Option<Option<Path>>,
    ) -> Out {
        let got = match r {
            Ok(Ok(v)) => v.map(|p| p.to_string()),
            Ok(Err(e)) => fail!("deriving {what} failed: {e:#}"),
            Err(p) => fail!("{p}"),
        };
        if let Some(w) = want {
            let w = w.map(|p| p.join("."));
            ensure!(got == w, "deriving {what} reports content from {got:?}, expected {w:?}");
        }
        Ok(())
    }
    /// None: the element has content of its own; otherwise the path it comes from, if any
    fn from<T>(ch: &Chain<T>, has: impl Fn(&T) -> bool) -> Option<Option<Path>> {
        match ch.iter().position(|(t, _)| has(t)) {
            Some(0) => Some(None),
            Some(k) => Some(Some(ch[k].1.clone())),
            None => None,
        }
    }
    for a in places(d) {
        let what = a.names.iter().map(|n| n.0.clone()).collect::<Vec<_>>().join(".");
        let h = home(&a);
        match a.kind {
            Kind::P => {
                let p = &d.pers[a.per];
                if let Some(t) = &p.derived {
                    let ch = rf.per_chain(p)?;
                    let mut want = p.clone();
                    ch[1..].iter().for_each(|(o, _)| derive_per(&mut want, o));
                    let mut x = lower_per(p);
                    let r = quietly(|| svd_parser::expand::derive_peripheral(&mut x, t, &ix));
                    said(&what, r, from(&ch, |p| p.regs.is_some()))?;
                    let got = lift_per(&x);
                    ensure!(got == want, "derive_peripheral {what} {}", diff(&want, &got));
                }
            }
            Kind::C | Kind::R => match rc_at(d, &a) {
                Rc::C(c) => {
                    if let Some(t) = &c.derived {
                        let ch = rf.clu_chain(c, &h)?;
                        let mut want = c.clone();
                        ch[1..].iter().for_each(|(o, _)| derive_clu(&mut want, o));
                        let mut x = lower_clu(c);
                        let b = block(&h);
                        let r = quietly(|| svd_parser::expand::derive_cluster(&mut x, t, &b, &ix));
                        said(&what, r, from(&ch, |c| !c.children.is_empty()))?;
                        let got = lift_clu(&x);
                        ensure!(got == want, "derive_cluster {what} {}", diff(&want, &got));
                    }
                }
                Rc::R(g) => {
                    if let Some(t) = &g.derived {
                        let ch = rf.reg_chain(g, &h)?;
                        let mut want = g.clone();
                        ch[1..].iter().for_each(|(o, _)| derive_reg(&mut want, o));
                        let mut x = lower_reg(g);
                        let b = block(&h);
                        let r = quietly(|| svd_parser::expand::derive_register(&mut x, t, &b, &ix));
                        said(&what, r, from(&ch, |g| g.fields.is_some()))?;
                        let got = lift_reg(&x);
                        ensure!(got == want, "derive_register {what} {}", diff(&want, &got));
                    }
                }
            },
            Kind::F => {
                let f = field_at(d, &a);
                if let Some(t) = &f.derived {
                    let ch = rf.field_chain(f, &h)?;
                    let mut want = f.clone();
                    ch[1..].iter().for_each(|(o, _)| derive_field(&mut want, o));
                    let mut x = lower_field(f);
                    let n = h.len() - 1;
                    let b = block(&h[..n].to_vec()).new_register(&h[n]);
                    let r = quietly(|| svd_parser::expand::derive_field(&mut x, t, &b, &ix));
                    said(&what, r, from(&ch, |f| !f.evs.is_empty()))?;
                    let got = lift_field(&x);
                    ensure!(got == want, "derive_field {what} {}", diff(&want, &got));
                }
            }
            Kind::E => {
                let e = &field_at(d, &a).evs[a.e];
                if let Some(t) = &e.derived {
                    let ch = rf.evs_chain(e, &h)?;
                    let mut want = e.clone();
                    ch[1..].iter().for_each(|(o, _)| derive_evs(&mut want, o));
                    let mut x = lower_evs(e);
                    let n = h.len() - 2;
                    let b = block(&h[..n].to_vec()).new_register(&h[n]).new_field(&h[n + 1]);
                    let r = quietly(|| {
                        svd_parser::expand::derive_enumerated_values(&mut x, t, &b, &ix).map(Some)
                    });
                    said(&what, r, None)?;
                    let got = lift_evs(&x);
                    ensure!(got == want, "derive_enumerated_values {what} {}", diff(&want, &got));
                }
            }
        }
    }
    Ok(())
}

fn p15(s: &mut Src, cov: &mut Cov) -> Out {
    let l = L { plain: s.flip(), ..LINK };
    let d = linked(s, l);
    let xml = link_input(&d);
    cov.input(&xml);
    let h = classify(&d, cov);
    let (n, dotted) = refs(&d);
    cov.hit_if(dotted > 0, "qualified references");
    cov.hit_if(n > 2, "more than two references");
    let mut c = d.clone();
    for a in places(&d) {
        if derived_mut(&mut c, &a).is_some() {
            cov.hit(&format!("derived {:?}", a.kind));
        }
    }
    if n > 0 && (h.arrays > 0 || h.clus > 0 || n > 2) {
        cov.nontrivial();
    }
    let want = match Ref::new(&d).expand() {
        Ok(w) => w,
        Err(e) if e == TOO_BIG => return Ok(()),
        Err(e) => fail!("harness: reference expansion failed: {e}"),
    };
    let got = match expand_code(&d) {
        Ok(g) => g,
        Err(e) => fail!("expansion of a resolvable device failed: {e}"),
    };
    ensure!(got == want, "expanded device differs from the reference {}", diff(&want, &got));
    // nothing is left to expand, and expanding again changes nothing
    let again = match expand_code(&got) {
        Ok(g) => g,
        Err(e) => fail!("expanding the expanded device failed: {e}"),
    };
    ensure!(again == got, "expanding again changes the device {}", diff(&got, &again));
    single_steps(&d)?;
    // the reader's options do the same
    for props in [false, true] {
        let cfg = svd_parser::Config::default().expand(true).expand_properties(props);
        let r = match quietly(|| svd_parser::parse_with_config(&xml, &cfg)) {
            Ok(Ok(v)) => lift(&v),
            Ok(Err(e)) => fail!("reading with expansion failed: {e:#}"),
            Err(p) => fail!("{p}"),
        };
        let want = if props {
            let mut p = d.clone();
            inherit(&mut p);
            match Ref::new(&p).expand() {
                Ok(w) => w,
                Err(e) => fail!("harness: {e}"),
            }
        } else {
            want.clone()
        };
        ensure!(
            r == want,
            "reading with expand(true), expand_properties({props}) differs from the reference {}",
            diff(&want, &r)
        );
        cov.sub(if props { "reader+props" } else { "reader" }, n > 0);
    }
    Ok(())
}

pub const P15: Prop = Prop {
    id: "P15",
    title: "Expansion resolves everything as the reference semantics says",
    rule: "the device has a reference and also an array, a cluster or two more references",
    quick: 16_000,
    thorough: 1_000_000,
    case: p15,
    directed: &[],
    assumptions: &[
        "names are distinct within a scope, array items included",
        "a single element with a placeholder in its name derives directly from an array",
        "at most about 3000 expanded registers and fields",
    ],
};

// ------------------------------------------------------------------------- P16

fn of_kind(d: &Dev, k: Kind) -> Vec<At> {
    places(d)
        .into_iter()
        .filter(|a| a.kind == k && !(k == Kind::E && a.names.last().map(|n| n.0.is_empty()) == Some(true)))
        .collect()
}
/// Empty the list whose presence would keep a cycle through content from showing
fn hollow(d: &mut Dev, a: &At) {
    match a.kind {
        Kind::P => d.pers[a.per].regs = None,
        Kind::C => {
            if let Rc::C(c) = rc_mut(d, a) {
                c.children.clear()
            }
        }
        Kind::R => reg_mut(d, a).fields = None,
        Kind::F => field_mut(d, a).evs.clear(),
        Kind::E => field_mut(d, a).evs[a.e].values.clear(),
    }
}

fn p16(s: &mut Src, cov: &mut Cov) -> Out {
    let mut d = linked(
        s,
        L {
            plain: true,
            grow: false,
            max_refs: 5,
            ..LINK
        },
    );
    let kind = *s.pick(&KINDS);
    let all = of_kind(&d, kind);
    if all.is_empty() {
        return Ok(());
    }
    let what = match s.below(6) {
        0 => {
            let from = s.pick(&all).clone();
            let to = s.pick(&all).clone();
            let mut t: Vec<String> = ref_text(s, &from, &to).split('.').map(|x| x.to_string()).collect();
            let n = t.len();
            match s.below(6) {
                0 | 1 => {
                    let k = s.idx(n);
                    t[k] = "no_such".into();
                }
                2 => t.push("no_such".into()),
                3 => t.insert(0, "no_such".into()),
                4 => {
                    if n > 1 {
                        t.remove(s.idx(n));
                    } else {
                        t[0].push('0');
                    }
                }
                _ => {
                    let k = s.idx(n);
                    t[k] = match s.below(3) {
                        0 => t[k].to_lowercase(),
                        1 => t[k].to_uppercase(),
                        _ => format!("{}_", t[k]),
                    };
                }
            }
            *derived_mut(&mut d, &from) = Some(t.join("."));
            "dangling"
        }
        1 => {
            let a = s.pick(&all).clone();
            let t = ref_text(s, &a, &a);
            *derived_mut(&mut d, &a) = Some(t);
            "self"
        }
        2 | 3 => {
            // a ring
            let n = if s.chance(1, 4) { 5 + s.idx(30) } else { 2 + s.idx(3) };
            let mut ring: Vec<At> = vec![];
            for _ in 0..n * 3 {
                let a = s.pick(&all).clone();
                if ring.len() < n
                    && !ring.iter().any(|r| r.per == a.per && r.rc == a.rc && r.f == a.f && r.e == a.e)
                {
                    ring.push(a);
                }
            }
            for k in 0..ring.len() {
                let t = ref_text(s, &ring[k], &ring[(k + 1) % ring.len()]);
                *derived_mut(&mut d, &ring[k]) = Some(t);
            }
            if s.flip() {
                for a in ring.iter().rev() {
                    if kind != Kind::P && kind != Kind::C && kind != Kind::R {
                        hollow(&mut d, a);
                    }
                }
            }
            "ring"
        }
        4 => {
            // containment
            let cl = of_kind(&d, Kind::C);
            let inner: Vec<&At> = cl.iter().filter(|a| a.rc.len() > 1).collect();
            if inner.is_empty() {
                return Ok(());
            }
            let i = (*s.pick(&inner)).clone();
            let around: Vec<&At> = cl
                .iter()
                .filter(|a| a.per == i.per && a.rc.len() < i.rc.len() && i.rc.starts_with(&a.rc))
                .collect();
            if around.is_empty() {
                return Ok(());
            }
            let outer = (*s.pick(&around)).clone();
            let t = ref_text(s, &i, &outer);
            *derived_mut(&mut d, &i) = Some(t);
            hollow(&mut d, &i);
            // possibly with a third cluster between them
            let others: Vec<&At> = cl
                .iter()
                .filter(|a| !(a.per == i.per && (a.rc.starts_with(&outer.rc) || outer.rc.starts_with(&a.rc))))
                .collect();
            if !others.is_empty() && s.flip() {
                let o = (*s.pick(&others)).clone();
                let t = ref_text(s, &o, &outer);
                *derived_mut(&mut d, &o) = Some(t);
                hollow(&mut d, &o);
                let t = ref_text(s, &i, &o);
                *derived_mut(&mut d, &i) = Some(t);
            }
            "containment"
        }
        _ => {
            // an address that does not fit
            let a = s.pick(&all).clone();
            let far = u32::MAX - s.below(64) as u32;
            // an array the last item of which is about at the limit
            let n = 2 + s.below(3);
            let inc = match s.below(4) {
                0 => 0x20,
                1 => 1,
                2 => u32::MAX - s.below(8) as u32,
                _ => s.num(32) as u32,
            };
            let span = (n - 1) * inc as u64;
            let off = |s: &mut Src, limit: u64| match s.below(4) {
                0 => limit.saturating_sub(s.below(64)),
                _ => limit.saturating_sub(span).saturating_add(s.below(4)).saturating_sub(2).min(limit),
            };
            let array = |name: &mut String, dim: &mut Option<Dim>| {
                if dim.is_none() {
                    name.push_str("_%s");
                }
                *dim = Some(Dim {
                    dim: n as u32,
                    inc,
                    ..Default::default()
                });
            };
            match a.kind {
                Kind::P => {
                    let p = &mut d.pers[a.per];
                    p.base = off(s, u64::MAX);
                    array(&mut p.name, &mut p.dim);
                }
                Kind::C => {
                    if let Rc::C(c) = rc_mut(&mut d, &a) {
                        if s.flip() {
                            c.off = far;
                        } else {
                            c.off = off(s, u32::MAX as u64) as u32;
                            array(&mut c.name, &mut c.dim);
                        }
                    }
                }
                Kind::R => {
                    let r = reg_mut(&mut d, &a);
                    r.off = off(s, u32::MAX as u64) as u32;
                    array(&mut r.name, &mut r.dim);
                }
                _ => {
                    let f = field_mut(&mut d, &a);
                    let max = u32::MAX as u64 - f.width as u64;
                    f.off = off(s, max) as u32;
                    array(&mut f.name, &mut f.dim);
                }
            }
            // the items of the new array must not have names of other elements
            let mut e = d.clone();
            distinct(&mut e, true);
            if e != d {
                return Ok(());
            }
            "overflow"
        }
    };
    let xml = link_input(&d);
    cov.input(&xml);
    cov.hit(what);
    cov.hit(&format!("{what} {kind:?}"));
    let want = Ref::new(&d).expand();
    if matches!(&want, Err(e) if e == TOO_BIG) {
        return Ok(());
    }
    if want.is_err() {
        cov.nontrivial();
    }
    let got = expand_code(&d);
    match (&want, &got) {
        (Err(_), Err(g)) if !g.starts_with("PANIC") => {
            // the reader's option reports it as well
            let cfg = svd_parser::Config::default().validate_level(ValidateLevel::Disabled).expand(true);
            match quietly(|| svd_parser::parse_with_config(&xml, &cfg)) {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(_)) => fail!("the reader with expansion accepts what expand refuses"),
                Err(p) => fail!("{p}"),
            }
        }
        (Ok(w), Ok(g)) => {
            ensure!(w == g, "expanded device differs {}", diff(w, g));
            Ok(())
        }
        (Err(w), g) => fail!("{what}: {w}, but expansion gave {:?}", g.as_ref().map(|_| "a device")),
        (Ok(_), Err(g)) => fail!("{what}: every reference resolves, but expansion gave: {g}"),
    }
}

pub const P16: Prop = Prop {
    id: "P16",
    title: "Unresolvable and cyclic references are errors, and expansion ends",
    rule: "after the injected change the device is not expandable (dangling, cyclic, self-containing or overflowing)",
    quick: 40_000,
    thorough: 2_000_000,
    case: p16,
    directed: &[],
    assumptions: &["expansion that takes over 60 s counts as endless", "names are distinct within a scope"],
};

// ------------------------------------------------------------------------- P17

fn p17(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.depth = s.below(5) as u32;
    let mut d = dev(s, &g);
    if s.flip() {
        d.props = props(s, &g);
    }
    let xml = link_input(&d);
    cov.input(&xml);
    let h = classify(&d, cov);
    let mut want = d.clone();
    inherit(&mut want);
    if h.regs > 0 && want != d {
        cov.nontrivial();
    }
    let mut dv = lower(&d);
    if let Err(p) = quietly(|| svd_parser::expand_properties(&mut dv)) {
        fail!("{p}");
    }
    let got = lift(&dv);
    ensure!(got == want, "properties differ from the inherited ones {}", diff(&want, &got));
    if let Err(p) = quietly(|| svd_parser::expand_properties(&mut dv)) {
        fail!("{p}");
    }
    let got = lift(&dv);
    ensure!(got == want, "expanding properties twice differs {}", diff(&want, &got));
    for lvl in [ValidateLevel::Disabled, ValidateLevel::Weak] {
        let cfg = svd_parser::Config::default().validate_level(lvl).expand_properties(true);
        match quietly(|| svd_parser::parse_with_config(&xml, &cfg)) {
            Ok(Ok(v)) => {
                let v = lift(&v);
                ensure!(v == want, "the reader's option differs {}", diff(&want, &v));
            }
            Ok(Err(e)) => fail!("reading with expand_properties failed: {e:#}"),
            Err(p) => fail!("{p}"),
        }
        cov.sub(&format!("{lvl:?}"), want != d);
    }
    Ok(())
}

pub const P17: Prop = Prop {
    id: "P17",
    title: "Expanding properties gives each register its inherited values",
    rule: "some register inherits at least one value",
    quick: 24_000,
    thorough: 1_500_000,
    case: p17,
    directed: &[],
    assumptions: &[],
};

// ------------------------------------------------------------------------- P22

fn part(s: &mut Src) -> String {
    s.pick(&["A", "B", "AB", "a", "REG%s", "CLU[%s]", "x_1", "0", "Ü", "A B", ""]).to_string()
}

/// All names of all elements, by full path, with the address of the element in the device
type Names = Vec<HashMap<String, usize>>;
fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}
fn all_names(name: &str, dim: Option<&svd::DimElement>) -> Vec<String> {
    let mut v = vec![name.to_string()];
    if let Some(d) = dim {
        v.extend(item_names(name, &lift_dim(d)));
    }
    v.sort();
    v.dedup();
    v
}
fn dim_of<T>(m: &svd::MaybeArray<T>) -> Option<&svd::DimElement> {
    match m {
        svd::MaybeArray::Single(_) => None,
        svd::MaybeArray::Array(_, d) => Some(d),
    }
}
fn collect(v: &[svd::RegisterCluster], at: &str, out: &mut Names) {
    for k in v {
        match k {
            svd::RegisterCluster::Cluster(c) => {
                for n in all_names(&c.name, dim_of(c)) {
                    let p = format!("{at}.{n}");
                    collect(&c.children, &p, out);
                    out[1].insert(p, addr(c));
                }
            }
            svd::RegisterCluster::Register(r) => {
                for n in all_names(&r.name, dim_of(r)) {
                    let p = format!("{at}.{n}");
                    for f in r.fields.iter().flatten() {
                        for n in all_names(&f.name, dim_of(f)) {
                            let p = format!("{p}.{n}");
                            for e in &f.enumerated_values {
                                if let Some(n) = &e.name {
                                    out[4].insert(format!("{p}.{n}"), addr(e));
                                }
                            }
                            out[3].insert(p, addr(f));
                        }
                    }
                    out[2].insert(p, addr(r));
                }
            }
        }
    }
}

fn p22(s: &mut Src, cov: &mut Cov) -> Out {
    if s.flip() {
        return paths(s, cov);
    }
    cov.hit("index");
    let l = L { plain: s.flip(), max_refs: 3, ..LINK };
    let d = linked(s, l);
    cov.input(link_input(&d));
    let h = classify(&d, cov);
    if h.regs > 0 && (h.arrays > 0 || h.clus > 0) {
        cov.nontrivial();
    }
    let dv = lower(&d);
    let mut want: Names = vec![HashMap::new(); 5];
    for p in &dv.peripherals {
        for n in all_names(&p.name, dim_of(p)) {
            collect(p.registers.as_deref().unwrap_or(&[]), &n, &mut want);
            want[0].insert(n, addr(p));
        }
    }
    let ix = match quietly(|| Index::create(&dv)) {
        Ok(i) => i,
        Err(p) => fail!("{p}"),
    };
    let got: Names = vec![
        ix.peripherals.iter().map(|(k, v)| (k.to_string(), addr(*v))).collect(),
        ix.clusters.iter().map(|(k, v)| (k.to_string(), addr(*v))).collect(),
        ix.registers.iter().map(|(k, v)| (k.to_string(), addr(*v))).collect(),
        ix.fields.iter().map(|(k, v)| (k.to_string(), addr(*v))).collect(),
        ix.evs.iter().map(|(k, v)| (k.to_string(), addr(*v))).collect(),
    ];
    let sizes = [
        ix.peripherals.len(),
        ix.clusters.len(),
        ix.registers.len(),
        ix.fields.len(),
        ix.evs.len(),
    ];
    for (k, what) in ["peripherals", "clusters", "registers", "fields", "enumeratedValues"].iter().enumerate() {
        for (p, a) in &want[k] {
            match got[k].get(p) {
                Some(b) if a == b => {}
                Some(_) => fail!("the index of {what} has another element under {p}"),
                None => fail!("the index of {what} lacks {p}"),
            }
        }
        for p in got[k].keys() {
            ensure!(want[k].contains_key(p), "the index of {what} has {p}, which is not in the device");
        }
        ensure!(sizes[k] == want[k].len(), "the index of {what} has {} entries, expected {}", sizes[k], want[k].len());
    }
    // typed access finds the same
    for (p, a) in &want[2] {
        let (b, n) = RegisterPath::parse_str(p);
        let b = match b {
            Some(b) => b,
            None => fail!("{p} has no block"),
        };
        let r = ix.registers.get(&b.new_register(n));
        ensure!(r.map(|r| addr(*r)) == Some(*a), "looking up register {p} found another or none");
    }
    for (p, a) in &want[3] {
        let (r, n) = match quietly(|| FieldPath::parse_str(p)) {
            Ok(x) => x,
            Err(e) => fail!("{e}"),
        };
        let r = match r {
            Some(r) => r,
            None => fail!("{p} has no register"),
        };
        let f = ix.fields.get(&r.new_field(n));
        ensure!(f.map(|f| addr(*f)) == Some(*a), "looking up field {p} found another or none");
    }
    Ok(())
}

fn paths(s: &mut Src, cov: &mut Cov) -> Out {
    let most = if s.chance(1, 6) { 20 } else { 6 };
    let n = 1 + s.idx(most);
    let v: Vec<String> = (0..n).map(|_| part(s)).collect();
    let t = v.join(".");
    // another text, often close to it
    let mut w = v.clone();
    match s.below(7) {
        0 => {}
        1 => {
            w.pop();
        }
        2 => w.push(part(s)),
        3 => w[s.idx(n)] = part(s),
        4 => w.insert(0, part(s)),
        5 => w[s.idx(n)].push('B'),
        _ => w = (0..1 + s.idx(6)).map(|_| part(s)).collect(),
    }
    let u = w.join(".");
    cov.input(format!("path {t:?} compared with {u:?}"));
    cov.hit("path");
    if n > 1 {
        cov.nontrivial();
    }
    let eq = t == u;
    let rest = |k: usize| v[..k].to_vec();
    // block
    let mut b = BlockPath::new(&v[0]);
    for x in &v[1..] {
        b = b.new_cluster(x);
    }
    ensure!(b.peripheral == v[0] && b.path == v[1..], "new_cluster built {b:?} from {v:?}");
    ensure!(b.to_string() == t, "the block path {v:?} prints as {b}");
    ensure!((b == *u.as_str()) == eq, "block path {t} == {u:?} gave {}", !eq);
    let name = quietly(|| b.name().clone());
    ensure!(name == Ok(v[n - 1].clone()), "name() of {t} is {name:?}");
    if n > 1 {
        let p = b.parent();
        ensure!(p.as_ref().map(|p| p.to_string()) == Some(rest(n - 1).join(".")), "parent of {t} is {p:?}");
    } else {
        ensure!(b.parent().is_none(), "the peripheral path {t} has a parent");
    }
    let (pb, pn) = BlockPath::parse_str(&t);
    match (&pb, n) {
        (None, 1) => {}
        (Some(q), k) if k > 1 => {
            ensure!(q.new_cluster(pn) == b, "{t} parses to {q} and {pn}")
        }
        _ => fail!("{t} parses to {pb:?} and {pn}"),
    }
    ensure!(pn == v[n - 1], "last part of {t} is {pn}");
    let pv = BlockPath::parse_vec(v.iter().map(|x| x.as_str()).collect());
    ensure!(pv == (pb.clone(), pn), "parse_vec and parse_str of {t} differ");
    if n < 2 {
        let q = RegisterPath::parse_str(&t);
        ensure!(q == (None, t.as_str()), "the register name {t} parses as {q:?}");
        for k in 0..2 {
            let q = quietly(|| if k == 0 { FieldPath::parse_str(&t) } else { FieldPath::parse_vec(vec![&t]) });
            ensure!(q == Ok((None, t.as_str())), "the field name {t} parses as {q:?}");
        }
        return Ok(());
    }
    // register
    let mut b = BlockPath::new(&v[0]);
    for x in &v[1..n - 1] {
        b = b.new_cluster(x);
    }
    let r = b.new_register(&v[n - 1]);
    ensure!(r == RegisterPath::new(b.clone(), &v[n - 1]), "new_register differs from RegisterPath::new");
    ensure!(r.block == b && r.name == v[n - 1] && *r.peripheral() == v[0], "register path {r:?} from {v:?}");
    ensure!(r.to_string() == t, "the register path {v:?} prints as {r}");
    ensure!((r == *u.as_str()) == eq, "register path {t} == {u:?} gave {}", !eq);
    let (q, m) = RegisterPath::parse_str(&t);
    ensure!(q.map(|q| q.new_register(m)) == Some(r.clone()), "register path {t} does not parse back");
    let (q, m) = RegisterPath::parse_vec(v.iter().map(|x| x.as_str()).collect());
    ensure!(q.map(|q| q.new_register(m)) == Some(r), "register path {v:?} does not parse back");
    if n < 3 {
        return Ok(());
    }
    // field
    let mut b = BlockPath::new(&v[0]);
    for x in &v[1..n - 2] {
        b = b.new_cluster(x);
    }
    let r = b.new_register(&v[n - 2]);
    let f = r.new_field(&v[n - 1]);
    ensure!(f == FieldPath::new(r.clone(), &v[n - 1]), "new_field differs from FieldPath::new");
    ensure!(*f.register() == r && f.name == v[n - 1] && *f.peripheral() == v[0], "field path {f:?} from {v:?}");
    ensure!(f.to_string() == t, "the field path {v:?} prints as {f}");
    ensure!((f == *u.as_str()) == eq, "field path {t} == {u:?} gave {}", !eq);
    for k in 0..2 {
        let r = quietly(|| {
            let (q, m) = if k == 0 {
                FieldPath::parse_str(&t)
            } else {
                FieldPath::parse_vec(v.iter().map(|x| x.as_str()).collect())
            };
            q.map(|q| q.new_field(m))
        });
        ensure!(r == Ok(Some(f.clone())), "field path {t} parses back as {r:?}");
    }
    if n < 4 {
        return Ok(());
    }
    // enumerated values
    let mut b = BlockPath::new(&v[0]);
    for x in &v[1..n - 3] {
        b = b.new_cluster(x);
    }
    let f = b.new_register(&v[n - 3]).new_field(&v[n - 2]);
    let e = f.new_enum(&v[n - 1]);
    ensure!(e == EnumPath::new(f.clone(), &v[n - 1]), "new_enum differs from EnumPath::new");
    ensure!(
        *e.field() == f && *e.register() == f.register && e.name == v[n - 1] && *e.peripheral() == v[0],
        "enum path {e:?} from {v:?}"
    );
    ensure!(e.to_string() == t, "the enum path {v:?} prints as {e}");
    ensure!((e == *u.as_str()) == eq, "enum path {t} == {u:?} gave {}", !eq);
    Ok(())
}

pub const P22: Prop = Prop {
    id: "P22",
    title: "Element paths print, parse, compare and index consistently",
    rule: "a path of more than one part compared with another text, or the index of a device with registers and an array or cluster",
    quick: 40_000,
    thorough: 2_000_000,
    case: p22,
    directed: &[],
    assumptions: &["path parts contain no dot", "names are distinct within a scope"],
};
