//! P06 identifier formats
use super::doc::*;
use super::enc::*;
use super::exp::link_input;
use crate::engine::*;
use crate::gen::*;
use crate::link::*;
use crate::model::*;
use crate::{ensure, fail};
use std::collections::HashSet;
use svd_encoder::IdentifierFormat as F;
use svd_parser::svd::ValidateLevel;

/// Every name the formats are documented for, with the option that rules it. A reference is visited
/// part by part, each under the option of the kind of element it names.
fn each_name(d: &mut Dev, f: &mut impl FnMut(&'static str, &mut String)) {
    const P: &str = "peripheral_name";
    const C: &str = "cluster_name";
    const R: &str = "register_name";
    const FI: &str = "field_name";
    const ES: &str = "enumerated_values_name";
    const EV: &str = "enumerated_value_name";
    type Fn_<'a> = dyn FnMut(&'static str, &mut String) + 'a;
    fn o(f: &mut Fn_, k: &'static str, v: &mut Option<String>) {
        if let Some(v) = v {
            f(k, v);
        }
    }
    fn path(f: &mut Fn_, kinds: &[&'static str], v: &mut Option<String>) {
        if let Some(t) = v {
            let mut p: Vec<String> = t.split('.').map(|x| x.to_string()).collect();
            let n = p.len();
            for (i, x) in p.iter_mut().enumerate() {
                let from_end = n - 1 - i;
                let k = if from_end < kinds.len() {
                    kinds[from_end]
                } else if i == 0 {
                    P
                } else {
                    C
                };
                f(k, x);
            }
            *t = p.join(".");
        }
    }
    fn dim(f: &mut Fn_, d: &mut Option<Dim>) {
        if let Some(a) = d.as_mut().and_then(|d| d.dai.as_mut()) {
            o(f, "dim_array_index_header_enum_name", &mut a.hdr);
            a.values.iter_mut().for_each(|e| f(EV, &mut e.name));
        }
    }
    fn rcs(f: &mut Fn_, v: &mut [Rc]) {
        for k in v {
            match k {
                Rc::C(c) => {
                    f(C, &mut c.name);
                    o(f, C, &mut c.alt);
                    path(f, &[C], &mut c.derived);
                    dim(f, &mut c.dim);
                    rcs(f, &mut c.children);
                }
                Rc::R(r) => {
                    f(R, &mut r.name);
                    o(f, R, &mut r.alt_reg);
                    path(f, &[R], &mut r.derived);
                    dim(f, &mut r.dim);
                    for x in r.fields.iter_mut().flatten() {
                        f(FI, &mut x.name);
                        path(f, &[FI, R], &mut x.derived);
                        dim(f, &mut x.dim);
                        for e in &mut x.evs {
                            o(f, ES, &mut e.name);
                            path(f, &[ES, FI, R], &mut e.derived);
                            e.values.iter_mut().for_each(|e| f(EV, &mut e.name));
                        }
                    }
                }
            }
        }
    }
    for p in &mut d.pers {
        f(P, &mut p.name);
        o(f, P, &mut p.alt);
        o(f, P, &mut p.prepend);
        o(f, P, &mut p.append);
        o(f, P, &mut p.hdr);
        o(f, P, &mut p.derived);
        p.ints.iter_mut().for_each(|i| f("interrupt_name", &mut i.name));
        dim(f, &mut p.dim);
        rcs(f, p.regs.as_deref_mut().unwrap_or(&mut []));
    }
}

fn letters(t: &str) -> String {
    t.chars().filter(|c| !"_- ".contains(*c)).flat_map(|c| c.to_lowercase()).collect()
}
/// The words of a name that is made of plain words only
fn plain_words(t: &str) -> Option<Vec<String>> {
    t.split('_')
        .map(|w| {
            let b = w.trim_end_matches(|c: char| c.is_ascii_digit());
            let ok = b.len() >= 2
                && (b.bytes().all(|c| c.is_ascii_lowercase()) || b.bytes().all(|c| c.is_ascii_uppercase()));
            ok.then(|| w.to_lowercase())
        })
        .collect()
}
fn cap(w: &str) -> String {
    let mut c = w.chars();
    c.next().map(|x| x.to_ascii_uppercase().to_string()).unwrap_or_default() + c.as_str()
}
fn law(orig: &str, new: &str, f: F) -> Out {
    ensure!(
        letters(orig) == letters(new),
        "{orig:?} formatted as {f:?} became {new:?}: other characters than case and separators changed"
    );
    ensure!(
        orig.matches("%s").count() == new.matches("%s").count(),
        "{orig:?} formatted as {f:?} became {new:?}: placeholder lost"
    );
    let bare = new.replace("%s", "");
    match f {
        F::Snake => ensure!(
            bare.chars().all(|c| !c.is_uppercase() && c != '-' && c != ' '),
            "{orig:?} became {new:?}, which is not snake case"
        ),
        F::Constant => ensure!(
            bare.chars().all(|c| !c.is_lowercase() && c != '-' && c != ' '),
            "{orig:?} became {new:?}, which is not constant case"
        ),
        F::Camel | F::Pascal => {
            ensure!(
                !new.contains(['_', '-', ' ']),
                "{orig:?} formatted as {f:?} became {new:?}, which has separators"
            );
            if let Some(c) = new.chars().next().filter(|c| c.is_alphabetic()) {
                ensure!(
                    c.is_uppercase() == (f == F::Pascal),
                    "{orig:?} formatted as {f:?} became {new:?}"
                );
            }
        }
    }
    // every word boundary stays one, and the result is exact for names of plain words
    if let Some(w) = plain_words(orig) {
        let want = match f {
            F::Snake => w.join("_"),
            F::Constant => w.join("_").to_uppercase(),
            F::Pascal => w.iter().map(|x| cap(x)).collect(),
            F::Camel => w[0].clone() + &w[1..].iter().map(|x| cap(x)).collect::<String>(),
        };
        ensure!(new == want, "{orig:?} formatted as {f:?} became {new:?}, expected {want:?}");
    }
    Ok(())
}

/// Number of names per scope: tells whether renaming made two elements of a scope collide
fn scopes(d: &Dev) -> Vec<usize> {
    let mut out = vec![];
    fn one(v: &mut HashSet<String>, name: &str, dim: &Option<Dim>) {
        v.insert(name.into());
        if let Some(d) = dim {
            v.extend(item_names(name, d));
        }
    }
    fn rcs(v: &[Rc], out: &mut Vec<usize>) {
        let mut u = HashSet::new();
        for k in v {
            match k {
                Rc::C(c) => {
                    one(&mut u, &c.name, &c.dim);
                    rcs(&c.children, out);
                }
                Rc::R(r) => {
                    one(&mut u, &r.name, &r.dim);
                    let (mut u, mut e) = (HashSet::new(), HashSet::new());
                    for f in r.fields.iter().flatten() {
                        one(&mut u, &f.name, &f.dim);
                        e.extend(f.evs.iter().filter_map(|e| e.name.clone()));
                    }
                    out.push(u.len());
                    out.push(e.len());
                }
            }
        }
        out.push(u.len());
    }
    let mut u = HashSet::new();
    for p in &d.pers {
        one(&mut u, &p.name, &p.dim);
        rcs(p.regs.as_deref().unwrap_or(&[]), &mut out);
    }
    out.push(u.len());
    out
}

/// For each reference, the address-independent place of what it refers to
fn targets(d: &Dev) -> Vec<(String, Option<usize>)> {
    let all = places(d);
    let r = Ref::new(d);
    // addresses of all elements, in the order of `places`
    let at = |a: &At| -> usize {
        match a.kind {
            Kind::P => &d.pers[a.per] as *const Per as usize,
            Kind::C | Kind::R => match rc_at(d, a) {
                Rc::R(r) => r as *const Reg as usize,
                Rc::C(c) => c as *const Clu as usize,
            },
            Kind::F => field_at(d, a) as *const Field as usize,
            Kind::E => &field_at(d, a).evs[a.e] as *const Evs as usize,
        }
    };
    let addrs: Vec<(Kind, usize)> = all.iter().map(|a| (a.kind, at(a))).collect();
    let mut out = vec![];
    for a in &all {
        let h = home(a);
        let (t, to) = match a.kind {
            Kind::P => {
                let t = &d.pers[a.per].derived;
                (t, t.as_ref().and_then(|t| r.to_per(t)).map(|x| x as *const Per as usize))
            }
            Kind::C | Kind::R => match rc_at(d, a) {
                Rc::R(x) => {
                    let t = &x.derived;
                    (t, t.as_ref().and_then(|t| r.to_reg(t, &h)).map(|x| x.0 as *const Reg as usize))
                }
                Rc::C(x) => {
                    let t = &x.derived;
                    (t, t.as_ref().and_then(|t| r.to_clu(t, &h)).map(|x| x.0 as *const Clu as usize))
                }
            },
            Kind::F => {
                let t = &field_at(d, a).derived;
                (t, t.as_ref().and_then(|t| r.to_field(t, &h)).map(|x| x.0 as *const Field as usize))
            }
            Kind::E => {
                let t = &field_at(d, a).evs[a.e].derived;
                (t, t.as_ref().and_then(|t| r.to_evs(t, &h)).map(|x| x.0 as *const Evs as usize))
            }
        };
        if let Some(t) = t {
            let k = to.and_then(|p| addrs.iter().position(|x| *x == (a.kind, p)));
            out.push((t.clone(), k));
        }
    }
    out
}

const WORDS: &[&str] = &[
    "GPIO", "uart", "MODE", "ctrl", "DR", "status", "TIM2", "ab", "CLK", "reg10", "IRQ", "en",
];
fn word_name(s: &mut Src) -> String {
    let n = 1 + s.below(3);
    let mut t = s.pick(WORDS).to_string();
    for _ in 1..n {
        t.push('_');
        t.push_str(*s.pick(WORDS));
    }
    t
}

fn p06(s: &mut Src, cov: &mut Cov) -> Out {
    let l = L {
        plain: true,
        arrays: s.chance(3, 4),
        grow: false,
        apart: false,
        simple: true,
        max_refs: 6,
    };
    let g = G {
        strict: true,
        arrays: l.arrays,
        derive: false,
        depth: s.below(4) as u32,
        plain: true,
        small: true,
        dup: false,
    };
    let mut d = dev(s, &g);
    // names of plain words, or with other separators
    let how = s.below(4);
    if how > 0 {
        each_name(&mut d, &mut |_, n| {
            if how < 3 && s.chance(2, 3) {
                let w = word_name(s);
                *n = match n.contains("%s") {
                    false => w,
                    true => match s.below(5) {
                        4 => format!("{w}_%s_{}%s", word_name(s)),
                        0 => format!("{w}%s"),
                        1 => format!("{w}_%s"),
                        2 => format!("{w}[%s]"),
                        _ => format!("{w}%s_{}", word_name(s)),
                    },
                };
            } else if how == 3 && s.chance(1, 3) {
                let sep = *s.pick(&["-", " ", "__", "--", "- "]);
                *n = format!("{}{sep}{n}", s.pick(WORDS));
            }
        });
    }
    linked_from(s, l, &mut d);
    let mut cfg = svd_encoder::Config::default();
    let mut chosen: Vec<(&str, F)> = vec![];
    let all_same = s.chance(1, 4);
    let one = *s.pick(&IDF);
    for k in IDS {
        if all_same || s.chance(3, 5) {
            let f = if all_same { one } else { *s.pick(&IDF) };
            *id_slot(&mut cfg, k) = Some(f.1);
            chosen.push((k, f.1));
        }
    }
    cov.input(format!("{chosen:?}\n{}", link_input(&d)));
    let h = classify(&d, cov);
    if chosen.len() > 1 && h.regs > 0 {
        cov.nontrivial();
    }
    for (k, _) in &chosen {
        cov.hit(k);
    }
    let out = match encode_with(&lower(&d), &cfg) {
        Ok(x) => x,
        Err(e) => fail!("encode failed: {e}"),
    };
    let mut got = match parse_at(&out, ValidateLevel::Disabled) {
        Ok(v) => lift(&v),
        Err(e) => fail!("encoded document rejected: {e}"),
    };
    let (got_full, want_full) = (got.clone(), d.clone());
    // take the names out of both; the rest has to be the same
    let (mut a, mut b): (Vec<(&str, String)>, Vec<(&str, String)>) = (vec![], vec![]);
    let mut want = d.clone();
    each_name(&mut want, &mut |k, n| {
        a.push((k, n.clone()));
        *n = String::new();
    });
    each_name(&mut got, &mut |k, n| {
        b.push((k, n.clone()));
        *n = String::new();
    });
    forget(&mut want);
    // (splitting a reference that lost or gained a part makes the lists differ)
    ensure!(
        want == got,
        "something other than the names changed {}",
        diff(&want, &got)
    );
    ensure!(a.len() == b.len(), "a reference has another number of parts");
    for ((k, o), (_, n)) in a.iter().zip(&b) {
        match chosen.iter().find(|c| c.0 == *k) {
            None => ensure!(o == n, "{o:?}, for which no format is set ({k}), became {n:?}"),
            Some((_, f)) => law(o, n, *f)?,
        }
    }
    // references
    if scopes(&got_full) == scopes(&want_full) {
        let (x, y) = (targets(&want_full), targets(&got_full));
        ensure!(x.len() == y.len(), "the number of references changed");
        for ((t, i), (u, j)) in x.iter().zip(&y) {
            ensure!(
                i == j,
                "reference {t:?} became {u:?}, which names {} (formats {chosen:?})",
                if j.is_some() { "another element" } else { "no element" }
            );
        }
        cov.hit_if(!x.is_empty(), "references followed");
        cov.hit_if(x.iter().any(|t| t.0.contains('.')), "qualified references followed");
    } else {
        cov.hit("names collide after formatting");
    }
    Ok(())
}

pub const P06: Prop = Prop {
    id: "P06",
    title: "Identifier formatting renames only, and references follow",
    rule: "two or more formats are set and the device has registers",
    quick: 20_000,
    thorough: 1_000_000,
    case: p06,
    directed: &[],
    assumptions: &[
        "names are ASCII; references to array items use numeric indexes set apart from letters",
        "references are followed when no two names of a scope become equal",
    ],
};
