//! P25: elements read and written on their own
use super::doc::*;
use super::enc::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::xml::*;
use crate::{ensure, fail};
use roxmltree::Node;
use svd_encoder::{Config, Encode, EncodeChildren, EncodeError};
use svd_parser::elementext::ElementExt;
use svd_parser::svd;
use svd_parser::types::BoolParse;
use svd_parser::{Parse, SVDErrorAt};
use xmltree::{Element, XMLNode};

type PConf = svd_parser::Config;

fn elems<'a, 'b>(n: Node<'a, 'b>) -> Vec<Node<'a, 'b>> {
    n.children().filter(|c| c.is_element()).collect()
}
fn kids<'a, 'b>(n: Node<'a, 'b>, tag: &str) -> Vec<Node<'a, 'b>> {
    n.children().filter(|c| c.is_element() && c.tag_name().name() == tag).collect()
}
fn kid<'a, 'b>(n: Node<'a, 'b>, tag: &str) -> Option<Node<'a, 'b>> {
    kids(n, tag).into_iter().next()
}

/// the reader of one kind of element gives what the device has
fn alone<T, C>(what: &str, n: &Node, c: &C, want: &T) -> Out
where
    T: Parse<Object = T, Error = SVDErrorAt, Config = C> + PartialEq + std::fmt::Debug,
{
    match quietly(|| T::parse(n, c)) {
        Ok(Ok(x)) => ensure!(x == *want, "{what} read on its own {}", diff(want, &x)),
        Ok(Err(e)) => fail!("{what} is rejected when read on its own: {e}"),
        Err(p) => fail!("{p}"),
    }
    Ok(())
}
/// an item that is optional in its parent
fn maybe<T, C>(what: &str, n: &Node, tag: &str, c: &C, want: &Option<T>) -> Out
where
    T: Parse<Object = T, Error = SVDErrorAt, Config = C> + PartialEq + std::fmt::Debug,
{
    match quietly(|| svd_parser::optional::<T>(tag, n, c)) {
        Ok(Ok(x)) => ensure!(x == *want, "optional {what} {}", diff(want, &x)),
        Ok(Err(e)) => fail!("optional {what} is rejected: {e}"),
        Err(p) => fail!("{p}"),
    }
    match (kid(*n, tag), want) {
        (Some(n), Some(w)) => alone(what, &n, c, w),
        (None, None) => Ok(()),
        _ => fail!("{what}: the element and the item do not go together"),
    }
}
/// an element of another name is refused
fn other<T>(what: &str, tag: &[&str], all: &[Node], s: &mut Src, c: &PConf) -> Out
where
    T: Parse<Error = SVDErrorAt, Config = PConf>,
{
    let n = all[s.idx(all.len())];
    if tag.contains(&n.tag_name().name()) {
        return Ok(());
    }
    match quietly(|| T::parse(&n, c).is_err()) {
        Ok(r) => ensure!(r, "<{}> is read as {what}", n.tag_name().name()),
        Err(p) => fail!("{p}"),
    }
    Ok(())
}

/// the same element under another name is refused
fn renamed<T>(what: &str, n: &Node, s: &mut Src, c: &PConf) -> Out
where
    T: Parse<Error = SVDErrorAt, Config = PConf>,
{
    let tag = n.tag_name().name();
    let text = &n.document().input_text()[n.range()];
    let to = match s.idx(8) {
        0 => format!("{tag}s"),
        1 => tag[..tag.len() - 1].to_string(),
        2 => tag.to_uppercase(),
        3 => format!("{}{}", tag[..1].to_uppercase(), &tag[1..]),
        4 => format!("_{tag}"),
        _ => s.pick(&KINDS).to_string(),
    };
    if to == tag || (what == "a register or cluster" && matches!(&to[..], "register" | "cluster")) {
        return Ok(());
    }
    let Some(rest) = text.strip_prefix(&format!("<{tag}")) else { return Ok(()) };
    let close = format!("</{tag}");
    let new = match rest.rfind(&close) {
        Some(k) if rest.ends_with('>') && !rest.ends_with("/>") => {
            format!("<{to}{}</{to}{}", &rest[..k], &rest[k + close.len()..])
        }
        _ => format!("<{to}{rest}"),
    };
    let doc = match roxmltree::Document::parse(&new) {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    match quietly(|| T::parse(&doc.root_element(), c).is_err()) {
        Ok(r) => ensure!(r, "<{to}> is read as {what}:\n{new}"),
        Err(p) => fail!("{p}"),
    }
    Ok(())
}
const KINDS: [&str; 12] = [
    "device",
    "cpu",
    "peripheral",
    "interrupt",
    "register",
    "cluster",
    "field",
    "enumeratedValues",
    "enumeratedValue",
    "addressBlock",
    "fields",
    "registers",
];

fn read_props(n: &Node, c: &PConf, p: &svd::RegisterProperties) -> Out {
    alone("register properties", n, c, p)?;
    maybe("access", n, "access", c, &p.access)?;
    maybe("protection", n, "protection", c, &p.protection)?;
    maybe("size", n, "size", &(), &p.size)?;
    maybe("resetValue", n, "resetValue", &(), &p.reset_value)?;
    maybe("resetMask", n, "resetMask", &(), &p.reset_mask)
}
fn read_dim(n: &Node, c: &PConf, d: Option<&svd::DimElement>) -> Out {
    let Some(d) = d else { return Ok(()) };
    alone("array items", n, c, d)?;
    maybe("index names", n, "dimArrayIndex", c, &d.dim_array_index)?;
    if let Some(i) = kid(*n, "dimIndex") {
        match quietly(|| svd_parser::optional::<svd_indexes::Idx>("dimIndex", n, c)) {
            Ok(Ok(Some(svd_indexes::Idx(v)))) => ensure!(Some(&v) == d.dim_index.as_ref(), "indexes read on their own"),
            Ok(r) => fail!("indexes {:?} read on their own as {:?}", i.text(), r.map(|_| ())),
            Err(p) => fail!("{p}"),
        }
    }
    ensure!(quietly(|| n.get_child_u32("dim"))?.ok() == Some(d.dim), "dim on its own");
    ensure!(quietly(|| n.get_child_u32("dimIncrement"))?.ok() == Some(d.dim_increment), "dimIncrement on its own");
    Ok(())
}
/// the list of indexes, whose reader is found through that of array items
mod svd_indexes {
    use super::*;
    #[derive(Debug, PartialEq)]
    pub struct Idx(pub Vec<String>);
    impl Parse for Idx {
        type Object = Self;
        type Error = SVDErrorAt;
        type Config = PConf;
        fn parse(n: &Node, c: &PConf) -> Result<Self, SVDErrorAt> {
            let p = n.parent().unwrap();
            svd::DimElement::parse(&p, c).map(|d| Idx(d.dim_index.unwrap_or_default()))
        }
    }
}
fn read_wc(n: &Node, c: &PConf, w: &Option<svd::WriteConstraint>) -> Out {
    maybe("write constraint", n, "writeConstraint", c, w)?;
    if let (Some(svd::WriteConstraint::Range(r)), Some(n)) = (w, kid(*n, "writeConstraint")) {
        maybe("range of a write constraint", &n, "range", &(), &Some(*r))?;
    }
    Ok(())
}
fn read_field(n: &Node, c: &PConf, f: &svd::Field) -> Out {
    alone("field", n, c, f)?;
    alone::<svd::FieldInfo, _>("plain part of a field", n, c, f)?;
    alone("bit range", n, c, &f.bit_range)?;
    read_dim(n, c, dim_of(f))?;
    maybe("access", n, "access", c, &f.access)?;
    maybe("modified write values", n, "modifiedWriteValues", c, &f.modified_write_values)?;
    maybe("read action", n, "readAction", c, &f.read_action)?;
    if c.ignore_enums {
        return Ok(());
    }
    read_wc(n, c, &f.write_constraint)?;
    for (n, e) in kids(*n, "enumeratedValues").iter().zip(&f.enumerated_values) {
        alone("enumerated values", n, c, e)?;
        maybe("usage", n, "usage", c, &e.usage)?;
        for (n, v) in kids(*n, "enumeratedValue").iter().zip(&e.values) {
            alone("enumerated value", n, c, v)?;
            maybe("value", n, "value", &(), &v.value)?;
        }
    }
    Ok(())
}
fn dim_of<T>(m: &svd::MaybeArray<T>) -> Option<&svd::DimElement> {
    match m {
        svd::MaybeArray::Single(_) => None,
        svd::MaybeArray::Array(_, d) => Some(d),
    }
}
fn read_rcs(n: &Node, c: &PConf, v: &[svd::RegisterCluster]) -> Out {
    let list: Vec<_> = elems(*n)
        .into_iter()
        .filter(|n| matches!(n.tag_name().name(), "register" | "cluster"))
        .collect();
    ensure!(list.len() == v.len(), "number of registers and clusters");
    for (n, k) in list.iter().zip(v) {
        alone("register or cluster", n, c, k)?;
        match k {
            svd::RegisterCluster::Register(r) => {
                alone("register", n, c, r)?;
                alone::<svd::RegisterInfo, _>("plain part of a register", n, c, r)?;
                read_props(n, c, &r.properties)?;
                read_dim(n, c, dim_of(r))?;
                maybe("data type", n, "dataType", c, &r.datatype)?;
                maybe("modified write values", n, "modifiedWriteValues", c, &r.modified_write_values)?;
                maybe("read action", n, "readAction", c, &r.read_action)?;
                read_wc(n, c, &r.write_constraint)?;
                if let Some(n) = kid(*n, "fields") {
                    for (n, f) in kids(n, "field").iter().zip(r.fields.iter().flatten()) {
                        read_field(n, c, f)?;
                    }
                }
            }
            svd::RegisterCluster::Cluster(k) => {
                alone("cluster", n, c, k)?;
                alone::<svd::ClusterInfo, _>("plain part of a cluster", n, c, k)?;
                read_props(n, c, &k.default_register_properties)?;
                read_dim(n, c, dim_of(k))?;
                read_rcs(n, c, &k.children)?;
            }
        }
    }
    Ok(())
}
fn read_dev(n: &Node, c: &PConf, d: &svd::Device) -> Out {
    alone("device", n, c, d)?;
    maybe("cpu", n, "cpu", c, &d.cpu)?;
    if let (Some(n), Some(v)) = (kid(*n, "cpu"), &d.cpu) {
        if let Some(n) = kid(n, "endian") {
            alone("endian", &n, c, &v.endian)?;
        }
        for (tag, want) in [
            ("mpuPresent", Some(v.mpu_present)),
            ("fpuPresent", Some(v.fpu_present)),
            ("vtorPresent", v.vtor_present),
            ("dspPresent", v.dsp_present),
        ] {
            let got = quietly(|| svd_parser::optional::<BoolParse>(tag, &n, &()).ok().flatten())?;
            ensure!(got == want, "{tag} on its own");
        }
    }
    read_props(n, c, &d.default_register_properties)?;
    let Some(n) = kid(*n, "peripherals") else { fail!("no peripherals") };
    for (n, p) in kids(n, "peripheral").iter().zip(&d.peripherals) {
        alone("peripheral", n, c, p)?;
        alone::<svd::PeripheralInfo, _>("plain part of a peripheral", n, c, p)?;
        read_props(n, c, &p.default_register_properties)?;
        read_dim(n, c, dim_of(p))?;
        ensure!(quietly(|| n.get_child_u64("baseAddress"))?.ok() == Some(p.base_address), "baseAddress on its own");
        for (n, i) in kids(*n, "interrupt").iter().zip(&p.interrupt) {
            alone("interrupt", n, c, i)?;
        }
        for (n, a) in kids(*n, "addressBlock").iter().zip(p.address_block.iter().flatten()) {
            alone("address block", n, c, a)?;
            maybe("protection", n, "protection", c, &a.protection)?;
            if let Some(n) = kid(*n, "usage") {
                alone("address block usage", &n, c, &a.usage)?;
            }
        }
        if let Some(n) = kid(*n, "registers") {
            read_rcs(&n, c, p.registers.as_deref().unwrap_or(&[]))?;
        }
    }
    Ok(())
}

/// the helpers by which readers look at an element, against a plain look at it
fn helpers(s: &mut Src, all: &[Node]) -> Out {
    for _ in 0..4 {
        let n = all[s.idx(all.len())];
        let tags: Vec<&str> = elems(n).iter().map(|c| c.tag_name().name()).collect();
        let tag = if tags.is_empty() || s.chance(1, 4) {
            *s.pick(&["name", "nothing", "", "dim", "Name"])
        } else {
            tags[s.idx(tags.len())]
        };
        let want = kid(n, tag);
        let got = quietly(|| n.get_child(tag).map(|n| n.id()))?;
        ensure!(got == want.map(|n| n.id()), "get_child({tag:?})");
        let got = quietly(|| n.get_child_elem(tag).map(|n| n.id()).ok())?;
        ensure!(got == want.map(|n| n.id()), "get_child_elem({tag:?})");
        let text = want.and_then(|n| n.text()).map(|t| t.trim().to_string());
        let got = quietly(|| n.get_child_text_opt(tag))?;
        ensure!(got.as_ref().ok() == Some(&text), "get_child_text_opt({tag:?}): {got:?}, expected {text:?}");
        let got = quietly(|| n.get_child_text(tag))?;
        ensure!(got.as_ref().ok() == text.as_ref(), "get_child_text({tag:?}): {got:?}, expected {text:?}");
        if let Some(m) = want {
            let got = quietly(|| m.get_text().ok().map(|t| t.to_string()))?;
            ensure!(got == text, "get_text of {tag:?}: {got:?}, expected {text:?}");
        }
        let num = text.as_deref().and_then(|t| super::num::ref_num(t).flatten());
        if text.is_none() || num.is_some() {
            let got = quietly(|| n.get_child_u64(tag))?.ok();
            ensure!(got == num.and_then(|v| u64::try_from(v).ok()), "get_child_u64({tag:?}) of {text:?}: {got:?}");
            let got = quietly(|| n.get_child_u32(tag))?.ok();
            ensure!(got == num.and_then(|v| u32::try_from(v).ok()), "get_child_u32({tag:?}) of {text:?}: {got:?}");
        }
        let b = match text.as_deref() {
            Some("0") | Some("false") => Some(false),
            Some("1") | Some("true") => Some(true),
            _ => None,
        };
        let got = quietly(|| n.get_child_bool(tag))?.ok();
        ensure!(got == b, "get_child_bool({tag:?}) of {text:?}: {got:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ writing

fn text_of(e: &Element) -> String {
    let mut v = Vec::new();
    e.write(&mut v).unwrap();
    String::from_utf8(v).unwrap()
}
fn enc<T: Encode<Error = EncodeError>>(x: &T, c: &Config) -> Result<Element, Fail> {
    match quietly(|| x.encode_with_config(c))? {
        Ok(e) => Ok(e),
        Err(_) => fail!("not written"),
    }
}
fn under<'a>(e: &'a Element, tag: &str) -> Vec<&'a Element> {
    e.children
        .iter()
        .filter_map(|n| n.as_element())
        .filter(|e| tag.is_empty() || e.name == tag)
        .collect()
}
struct W<'a> {
    c: &'a Config,
    pc: &'a PConf,
    sorted: bool,
}
/// the element as written on its own is found in the parent
fn placed<'a, T>(w: &W, what: &str, x: &T, list: &[&'a Element], k: usize) -> Result<&'a Element, Fail>
where
    T: Encode<Error = EncodeError>,
{
    let e = enc(x, w.c)?;
    let d = enc(x, &Config::default())?;
    ensure!(quietly(|| x.encode())?.ok().as_ref() == Some(&d), "{what}: encode() is not the default configuration");
    ensure!(quietly(|| x.encode_node())?.ok() == Some(XMLNode::Element(d)), "{what}: encode_node()");
    ensure!(
        quietly(|| x.encode_node_with_config(w.c))?.ok() == Some(XMLNode::Element(e.clone())),
        "{what}: encode_node_with_config()"
    );
    let found = if w.sorted {
        list.iter().find(|m| ***m == e)
    } else {
        list.get(k).filter(|m| ***m == e)
    };
    match found {
        Some(m) => Ok(*m),
        None => fail!("{what} written on its own is not what the device has:\n{}\n{:?}", text_of(&e), list.iter().map(|e| text_of(e)).collect::<Vec<_>>()),
    }
}
/// written on its own and read again
fn again<T, M>(w: &W, what: &str, x: &T, lift: impl Fn(&T) -> M) -> Out
where
    T: Encode<Error = EncodeError> + Parse<Object = T, Error = SVDErrorAt, Config = PConf>,
    M: PartialEq + std::fmt::Debug,
{
    let t = text_of(&enc(x, &Config::default())?);
    let doc = match roxmltree::Document::parse(&t) {
        Ok(d) => d,
        Err(e) => fail!("{what} is written as something that is no XML: {e}\n{t}"),
    };
    match quietly(|| T::parse(&doc.root_element(), w.pc))? {
        Ok(y) => {
            let (a, b) = (lift(x), lift(&y));
            ensure!(a == b, "{what} written and read on its own {}\n{t}", diff(&a, &b));
        }
        Err(e) => fail!("{what} written on its own is not read again: {e}\n{t}"),
    }
    Ok(())
}
fn item<T>(w: &W, what: &str, e: &Element, tag: &str, x: &Option<T>) -> Out
where
    T: Encode<Error = EncodeError>
        + Parse<Object = T, Error = SVDErrorAt, Config = PConf>
        + PartialEq
        + std::fmt::Debug
        + Clone,
{
    let l = under(e, tag);
    ensure!(l.len() == x.is_some() as usize, "{what}: the element and the item do not go together");
    if let Some(x) = x {
        placed(w, what, x, &l, 0)?;
        again(w, what, x, |x| x.clone())?;
    }
    Ok(())
}
fn w_props(w: &W, e: &Element, p: &svd::RegisterProperties) -> Out {
    let v = quietly(|| EncodeChildren::encode_with_config(p, w.c))?.map_err(|_| Fail::from("not written".to_string()))?;
    let d = quietly(|| EncodeChildren::encode_with_config(p, &Config::default()))?.ok();
    ensure!(quietly(|| EncodeChildren::encode(p))?.ok() == d, "register properties: encode() is not the default configuration");
    let mut x = Element::new("x");
    x.children = d.unwrap_or_default();
    let t = text_of(&x);
    let doc = roxmltree::Document::parse(&t).map_err(|e| Fail::from(e.to_string()))?;
    match quietly(|| svd::RegisterProperties::parse(&doc.root_element(), w.pc))? {
        Ok(y) => ensure!(y == *p, "register properties written and read on their own {}", diff(p, &y)),
        Err(e) => fail!("register properties written on their own are not read again: {e}"),
    }
    if !v.is_empty() {
        ensure!(
            e.children.windows(v.len()).any(|k| k == &v[..]),
            "register properties written on their own are not what the element has"
        );
    }
    Ok(())
}
fn w_dim(w: &W, e: &Element, d: Option<&svd::DimElement>) -> Out {
    let Some(d) = d else { return Ok(()) };
    let x = enc(d, w.c)?;
    ensure!(e.children.starts_with(&x.children), "array items written on their own are not what the element has");
    again(w, "array items", d, lift_dim)?;
    item(w, "index names", e, "dimArrayIndex", &d.dim_array_index)
}
fn w_field(w: &W, e: &Element, f: &svd::Field) -> Out {
    again(w, "field", f, lift_field)?;
    w_dim(w, e, dim_of(f))?;
    item(w, "access", e, "access", &f.access)?;
    item(w, "modified write values", e, "modifiedWriteValues", &f.modified_write_values)?;
    item(w, "write constraint", e, "writeConstraint", &f.write_constraint)?;
    item(w, "read action", e, "readAction", &f.read_action)?;
    let l = under(e, "enumeratedValues");
    ensure!(l.len() == f.enumerated_values.len(), "number of enumerated values");
    for (k, x) in f.enumerated_values.iter().enumerate() {
        let e = placed(w, "enumerated values", x, &l, k)?;
        again(w, "enumerated values", x, lift_evs)?;
        item(w, "usage", e, "usage", &x.usage)?;
        let l = under(e, "enumeratedValue");
        for (k, v) in x.values.iter().enumerate() {
            placed(w, "enumerated value", v, &l, k)?;
            again(w, "enumerated value", v, lift_ev)?;
        }
    }
    Ok(())
}
fn w_rcs(w: &W, e: &Element, v: &[svd::RegisterCluster]) -> Out {
    let l: Vec<_> = under(e, "").into_iter().filter(|e| e.name == "register" || e.name == "cluster").collect();
    ensure!(l.len() == v.len(), "number of registers and clusters written");
    for (k, x) in v.iter().enumerate() {
        let e = placed(w, "register or cluster", x, &l, k)?;
        match x {
            svd::RegisterCluster::Register(r) => {
                placed(w, "register", r, &l, k)?;
                again(w, "register", r, |r| {
                    let mut m = lift_reg(r);
                    if m.fields.as_ref().map(|f| f.is_empty()) == Some(true) {
                        m.fields = None;
                    }
                    m
                })?;
                w_dim(w, e, dim_of(r))?;
                w_props(w, e, &r.properties)?;
                item(w, "data type", e, "dataType", &r.datatype)?;
                item(w, "modified write values", e, "modifiedWriteValues", &r.modified_write_values)?;
                item(w, "write constraint", e, "writeConstraint", &r.write_constraint)?;
                item(w, "read action", e, "readAction", &r.read_action)?;
                if let Some(e) = under(e, "fields").first() {
                    let l = under(e, "");
                    for (k, f) in r.fields.iter().flatten().enumerate() {
                        let e = placed(w, "field", f, &l, k)?;
                        w_field(w, e, f)?;
                    }
                }
            }
            svd::RegisterCluster::Cluster(c) => {
                placed(w, "cluster", c, &l, k)?;
                w_dim(w, e, dim_of(c))?;
                w_props(w, e, &c.default_register_properties)?;
                w_rcs(w, e, &c.children)?;
            }
        }
    }
    Ok(())
}
fn w_dev(w: &W, e: &Element, d: &svd::Device) -> Out {
    ensure!(enc(d, w.c)? == *e, "writing a device twice gives different elements");
    if let Some(c) = &d.cpu {
        let l = under(e, "cpu");
        let e = placed(w, "cpu", c, &l, 0)?;
        again(w, "cpu", c, lift_cpu)?;
        item(w, "endian", e, "endian", &Some(c.endian))?;
    }
    w_props(w, e, &d.default_register_properties)?;
    let Some(ps) = under(e, "peripherals").pop() else { fail!("no peripherals written") };
    let l = under(ps, "");
    ensure!(l.len() == d.peripherals.len(), "number of peripherals written");
    for (k, p) in d.peripherals.iter().enumerate() {
        let e = placed(w, "peripheral", p, &l, k)?;
        w_dim(w, e, dim_of(p))?;
        w_props(w, e, &p.default_register_properties)?;
        let l = under(e, "interrupt");
        for (k, i) in p.interrupt.iter().enumerate() {
            placed(w, "interrupt", i, &l, k)?;
            again(w, "interrupt", i, lift_int)?;
        }
        let l = under(e, "addressBlock");
        for (k, a) in p.address_block.iter().flatten().enumerate() {
            let e = placed(w, "address block", a, &l, k)?;
            again(w, "address block", a, lift_ab)?;
            item(w, "address block usage", e, "usage", &Some(a.usage))?;
            item(w, "protection", e, "protection", &a.protection)?;
        }
        if let Some(e) = under(e, "registers").first() {
            w_rcs(w, e, p.registers.as_deref().unwrap_or(&[]))?;
        }
    }
    Ok(())
}

fn p25(s: &mut Src, cov: &mut Cov) -> Out {
    let g = G::any(s);
    let m = dev(s, &g);
    let st = Style { vary: s.chance(1, 2), omit: false };
    let text = if s.flip() {
        r_dev(s, st, &m).print()
    } else {
        let x = r_dev(s, st, &m);
        let n = Noise { bom: false, ..Noise::gen(s) };
        x.print_noisy(s, n)
    };
    cov.input(&text);
    let h = classify(&m, cov);
    if h.fields > 0 && (h.arrays > 0 || h.evs > 0 || h.clus > 0) {
        cov.nontrivial();
    }
    let mut lvl = LEVELS[s.idx(if g.strict { 3 } else { 2 })];
    if s.chance(1, 3) {
        lvl = svd::ValidateLevel::Weak;
    }
    let mut pc = PConf::default().validate_level(lvl);
    if s.chance(1, 4) {
        pc = pc.ignore_enums(true);
        cov.hit("enumerated values ignored");
    }
    let d = match quietly(|| svd_parser::parse_with_config(&text, &pc))? {
        Ok(d) => d,
        Err(e) => fail!("valid document rejected at {lvl:?}: {e:#}"),
    };
    if s.flip() {
        cov.hit("reading");
        let doc = match roxmltree::Document::parse(&text) {
            Ok(d) => d,
            Err(e) => fail!("harness: {e}"),
        };
        let all: Vec<Node> = doc.descendants().filter(|n| n.is_element()).collect();
        read_dev(&doc.root_element(), &pc, &d)?;
        for _ in 0..3 {
            other::<svd::Device>("a device", &["device"], &all, s, &pc)?;
            other::<svd::Cpu>("a cpu", &["cpu"], &all, s, &pc)?;
            other::<svd::Peripheral>("a peripheral", &["peripheral"], &all, s, &pc)?;
            other::<svd::Interrupt>("an interrupt", &["interrupt"], &all, s, &pc)?;
            other::<svd::RegisterCluster>("a register or cluster", &["register", "cluster"], &all, s, &pc)?;
            other::<svd::Register>("a register", &["register"], &all, s, &pc)?;
            other::<svd::Cluster>("a cluster", &["cluster"], &all, s, &pc)?;
            other::<svd::Field>("a field", &["field"], &all, s, &pc)?;
            other::<svd::EnumeratedValues>("enumerated values", &["enumeratedValues"], &all, s, &pc)?;
            other::<svd::EnumeratedValue>("an enumerated value", &["enumeratedValue"], &all, s, &pc)?;
        }
        for _ in 0..3 {
            let k: Vec<&Node> = all.iter().filter(|n| KINDS[..9].contains(&n.tag_name().name())).collect();
            let n = k[s.idx(k.len())];
            match n.tag_name().name() {
                "device" => renamed::<svd::Device>("a device", n, s, &pc)?,
                "cpu" => renamed::<svd::Cpu>("a cpu", n, s, &pc)?,
                "peripheral" => {
                    renamed::<svd::Peripheral>("a peripheral", n, s, &pc)?;
                    renamed::<svd::PeripheralInfo>("the plain part of a peripheral", n, s, &pc)?;
                }
                "interrupt" => renamed::<svd::Interrupt>("an interrupt", n, s, &pc)?,
                "register" => {
                    renamed::<svd::Register>("a register", n, s, &pc)?;
                    renamed::<svd::RegisterCluster>("a register or cluster", n, s, &pc)?;
                }
                "cluster" => {
                    renamed::<svd::Cluster>("a cluster", n, s, &pc)?;
                    renamed::<svd::RegisterCluster>("a register or cluster", n, s, &pc)?;
                }
                "field" => {
                    renamed::<svd::Field>("a field", n, s, &pc)?;
                    renamed::<svd::FieldInfo>("the plain part of a field", n, s, &pc)?;
                }
                "enumeratedValues" => renamed::<svd::EnumeratedValues>("enumerated values", n, s, &pc)?,
                _ => renamed::<svd::EnumeratedValue>("an enumerated value", n, s, &pc)?,
            }
        }
        helpers(s, &all)?;
    } else {
        cov.hit("writing");
        let mut c = Config::default();
        let mut sorted = false;
        if s.flip() {
            number_formats(s, &mut c);
            for n in IDS {
                if s.chance(1, 4) {
                    *id_slot(&mut c, n) = Some(s.pick(&IDF).1);
                }
            }
            if s.flip() {
                let n = s.pick(&BRN).0;
                quietly(|| c.update("field_bit_range", n))?;
            }
            if s.flip() {
                sorted = true;
                c.peripheral_sorting = Ds::gen(s).conf();
                c.register_cluster_sorting = Rs::gen(s).conf();
                c.field_sorting = Ds::gen(s).conf();
            }
            cov.hit("configured");
        }
        let e = enc(&d, &c)?;
        let w = W { c: &c, pc: &pc, sorted };
        w_dev(&w, &e, &d)?;
        let t = match encode_with(&d, &c) {
            Ok(t) => t,
            Err(e) => fail!("encode failed: {e}"),
        };
        let (a, b) = match (read(&t), read(&text_of(&e))) {
            (Ok(a), Ok(b)) => (a.canon(), b.canon()),
            (a, b) => fail!("{:?} {:?}", a.err(), b.err()),
        };
        ensure!(a == b, "the device as an element and as a text differ");
    }
    Ok(())
}

pub const P25: Prop = Prop {
    id: "P25",
    title: "Elements read or written alone agree with the whole device",
    rule: "the device has fields and at least one array, cluster or enumeratedValues",
    quick: 20_000,
    thorough: 1_000_000,
    case: p25,
    directed: &[],
    assumptions: &[],
};
