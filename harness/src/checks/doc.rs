//! P02 document fidelity and P03 round trip
use crate::engine::*;
use crate::gen::*;
use crate::link;
use crate::model::*;
use crate::xml::*;
use crate::{ensure, fail};
use svd_parser::svd::ValidateLevel;

pub fn parse_at(xml: &str, lvl: ValidateLevel) -> Result<svd_parser::svd::Device, String> {
    let cfg = svd_parser::Config::default().validate_level(lvl);
    match quietly(|| svd_parser::parse_with_config(xml, &cfg)) {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(p),
    }
}
pub fn encode(d: &svd_parser::svd::Device) -> Result<String, String> {
    match quietly(|| svd_encoder::encode(d)) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(p),
    }
}
pub fn encode_with(
    d: &svd_parser::svd::Device,
    c: &svd_encoder::Config,
) -> Result<String, String> {
    match quietly(|| svd_encoder::encode_with_config(d, c)) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(p) => Err(p),
    }
}

pub const LEVELS: [ValidateLevel; 3] = [
    ValidateLevel::Disabled,
    ValidateLevel::Weak,
    ValidateLevel::Strict,
];

fn p02(s: &mut Src, cov: &mut Cov) -> Out {
    let g = G::any(s);
    let d = dev(s, &g);
    let st = Style {
        vary: s.chance(3, 4),
        omit: !g.strict,
    };
    let x = r_dev(s, st, &d);
    let xml = x.print();
    cov.input(&xml);
    let h = classify(&d, cov);
    if h.fields > 0 && (h.arrays > 0 || h.evs > 0 || h.clus > 0) {
        cov.nontrivial();
    }
    let lvls = if g.strict { &LEVELS[..] } else { &LEVELS[..2] };
    for &lvl in lvls {
        let got = match parse_at(&xml, lvl) {
            Ok(v) => lift(&v),
            Err(e) => fail!("valid document rejected at {lvl:?}: {e}"),
        };
        ensure!(
            got == d,
            "parsed device differs from the document at {lvl:?} {}",
            diff(&d, &got)
        );
        cov.sub(&format!("{lvl:?}"), h.fields > 0);
    }
    // the default entry point is the weak level
    let got = match quietly(|| svd_parser::parse(&xml)) {
        Ok(Ok(v)) => lift(&v),
        Ok(Err(e)) => fail!("parse() rejects what the weak level accepts: {e:#}"),
        Err(p) => fail!("{p}"),
    };
    ensure!(got == d, "parse() differs {}", diff(&d, &got));
    // what was read before has no influence
    if s.chance(1, 4) {
        let mut e = d.clone();
        slightly(s, &mut e);
        let x = r_dev(s, PLAIN, &d).print();
        let y = r_dev(s, PLAIN, &e).print();
        for (text, want) in [(&x, &d), (&y, &e), (&x, &d)] {
            let got = match parse_at(text, ValidateLevel::Disabled) {
                Ok(v) => lift(&v),
                Err(e) => fail!("valid document rejected: {e}"),
            };
            ensure!(got == *want, "reading a similar document before changes the device {}", diff(want, &got));
        }
        cov.hit("a similar document before");
    }
    Ok(())
}
/// change one letter or bit somewhere
fn slightly(s: &mut Src, d: &mut Dev) {
    let letter = |s: &mut Src, t: &mut String| {
        let mut c: Vec<char> = t.chars().collect();
        let k: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_ascii_alphabetic() && (i == 0 || c[i - 1] != '%')).collect();
        if !k.is_empty() {
            let i = k[s.idx(k.len())];
            c[i] = if c[i] == 'q' || c[i] == 'Q' { 'z' } else { 'q' };
            *t = c.into_iter().collect();
        }
    };
    let at = link::places(d);
    if at.is_empty() || s.chance(1, 8) {
        return match s.below(4) {
            0 => letter(s, &mut d.name),
            1 => letter(s, &mut d.version),
            2 => d.width ^= 1,
            _ => letter(s, &mut d.schema),
        };
    }
    let a = s.pick(&at).clone();
    match a.kind {
        link::Kind::P => {
            let p = &mut d.pers[a.per];
            match (s.below(3), &mut p.desc) {
                (0, _) => letter(s, &mut p.name),
                (1, Some(t)) => letter(s, t),
                _ => p.base ^= 1,
            }
        }
        link::Kind::C | link::Kind::R => match link::rc_mut(d, &a) {
            Rc::C(c) => match (s.below(3), &mut c.desc) {
                (0, _) => letter(s, &mut c.name),
                (1, Some(t)) => letter(s, t),
                _ => c.off ^= 1,
            },
            Rc::R(r) => match (s.below(3), &mut r.desc) {
                (0, _) => letter(s, &mut r.name),
                (1, Some(t)) => letter(s, t),
                _ => r.off ^= 1,
            },
        },
        link::Kind::F => letter(s, &mut link::field_mut(d, &a).name),
        link::Kind::E => {
            let f = link::field_mut(d, &a);
            match f.evs[a.e].values.first_mut() {
                Some(v) => letter(s, &mut v.name),
                None => letter(s, &mut f.name),
            }
        }
    }
}

pub const P02: Prop = Prop {
    id: "P02",
    title: "Parsing yields exactly what the document says",
    rule: "the device has fields and at least one array, cluster or enumeratedValues",
    quick: 24_000,
    thorough: 1_500_000,
    case: p02,
    directed: &[],
    assumptions: &[],
};

/// What a round trip is allowed to forget: a list of fields that is there but empty is written as
/// none at all.
pub fn forget(d: &mut Dev) {
    fn go(v: &mut [Rc]) {
        for k in v {
            match k {
                Rc::R(r) => {
                    if r.fields.as_ref().map(|f| f.is_empty()) == Some(true) {
                        r.fields = None;
                    }
                }
                Rc::C(c) => go(&mut c.children),
            }
        }
    }
    for p in &mut d.pers {
        if let Some(r) = &mut p.regs {
            go(r);
        }
    }
}

fn p03(s: &mut Src, cov: &mut Cov) -> Out {
    let g = G::any(s);
    let d = dev(s, &g);
    let h = classify(&d, cov);
    if h.fields > 0 && (h.arrays > 0 || h.evs > 0 || h.clus > 0) {
        cov.nontrivial();
    }
    let dv = lower(&d);
    cov.input(format!("{d:#?}"));
    ensure!(lift(&dv) == d, "harness: lower/lift disagree");
    let xml = match encode(&dv) {
        Ok(x) => x,
        Err(e) => fail!("encode failed: {e}"),
    };
    cov.input(&xml);
    let mut want = d.clone();
    forget(&mut want);
    let lvls = if g.strict { &LEVELS[..] } else { &LEVELS[..2] };
    for &lvl in lvls {
        let back = match parse_at(&xml, lvl) {
            Ok(v) => v,
            Err(e) => fail!("encoded document rejected at {lvl:?}: {e}"),
        };
        let got = lift(&back);
        ensure!(
            got == want,
            "parse(encode(device)) differs from the device at {lvl:?} {}",
            diff(&want, &got)
        );
        if lvl == ValidateLevel::Weak {
            let xml2 = match encode(&back) {
                Ok(x) => x,
                Err(e) => fail!("second encode failed: {e}"),
            };
            ensure!(xml2 == xml, "encoding the parsed device again gives another text");
        }
        cov.sub(&format!("{lvl:?}"), h.fields > 0);
    }
    ensure!(encode(&dv) == Ok(xml.clone()), "encode is not deterministic");
    ensure!(
        encode_with(&dv, &svd_encoder::Config::default()) == Ok(xml.clone()),
        "encode and encode_with_config(default) differ"
    );
    // what was written before has no influence
    if s.chance(1, 4) {
        let mut e = want.clone();
        slightly(s, &mut e);
        if lift(&lower(&e)) == e {
            let y = match encode(&lower(&e)) {
                Ok(x) => x,
                Err(e) => fail!("encode failed: {e}"),
            };
            let got = match parse_at(&y, ValidateLevel::Disabled) {
                Ok(v) => lift(&v),
                Err(e) => fail!("encoded document rejected: {e}"),
            };
            ensure!(got == e, "writing a similar device before changes what is written {}", diff(&e, &got));
            ensure!(encode(&dv) == Ok(xml), "writing a similar device in between changes the text");
            cov.hit("a similar device before");
        }
    }
    Ok(())
}

pub const P03: Prop = Prop {
    id: "P03",
    title: "Encoding then parsing gives the device back",
    rule: "the device has fields and at least one array, cluster or enumeratedValues",
    quick: 24_000,
    thorough: 1_500_000,
    case: p03,
    directed: &[Directed {
        name: "carriage-return-in-text",
        run: cr_text,
    }],
    assumptions: &[
        "texts have no surrounding white space and no carriage return; blank optional texts are absent",
    ],
};

fn cr_text() -> Out {
    let xml = "<device><name>d</name><description>a&#13;b</description><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress></peripheral></peripherals></device>";
    let d = parse_at(xml, ValidateLevel::Weak)?;
    ensure!(d.description == "a\rb", "the description was read as {:?}", d.description);
    let back = parse_at(&encode(&d)?, ValidateLevel::Weak)?;
    ensure!(
        back.description == "a\rb",
        "the description {:?} came back as {:?}",
        d.description,
        back.description
    );
    Ok(())
}

#[allow(unused)]
pub fn _uses(_: X) {}
