//! P18 derivation of single elements, P19 serialization, P20 builders and modification,
//! P21 lookups and iterators
use super::exp::link_input;
use crate::engine::*;
use crate::gen::*;
use crate::link::*;
use crate::model::*;
use crate::{ensure, fail};
use serde_json::{json, Map, Value};
use svd_parser::svd::{self, DeriveFrom};

fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    quietly(f).map_err(|e| Fail::new(format!("{what}: {e}")))
}
fn pair_g(s: &mut Src) -> G {
    let mut g = G::any(s);
    g.small = true;
    g
}

// ------------------------------------------------------------------ P18

/// drop a random part of the optional items
macro_rules! thin {
    ($s:expr, $m:expr, $($i:ident).+ ; $($rest:tt)*) => {
        if $s.flip() { $m.$($i).+ = Default::default(); }
        thin!($s, $m, $($rest)*);
    };
    ($s:expr, $m:expr,) => {};
}
fn thin_field(s: &mut Src, m: &mut Field) {
    thin!(s, m, desc; access; mwv; wc; ra; evs; derived;);
}
fn thin_reg(s: &mut Src, m: &mut Reg) {
    thin!(s, m, display; desc; alt_group; alt_reg; props.size; props.access; props.prot; props.rval; props.rmask;
        dtype; mwv; wc; ra; fields; derived;);
}
fn thin_clu(s: &mut Src, m: &mut Clu) {
    thin!(s, m, desc; alt; hdr; props.size; props.access; props.prot; props.rval; props.rmask; children; derived;);
}
fn thin_per(s: &mut Src, m: &mut Per) {
    thin!(s, m, display; version; desc; alt; group; prepend; append; hdr; props.size; props.access; props.prot;
        props.rval; props.rmask; abs; ints; regs; derived;);
}
fn thin_evs(s: &mut Src, m: &mut Evs) {
    thin!(s, m, name; usage; derived; values;);
}
/// the name and array nature of the pair
fn shape(s: &mut Src, g: &G, name: &mut String, dm: &mut Option<Dim>) {
    match s.below(5) {
        0 | 1 => {
            *dm = None;
            if name.contains("%s") {
                *name = name.replace("[%s]", "").replace("%s", "x");
            }
        }
        2 => {
            // single, with the placeholder
            *dm = None;
            if !name.contains("%s") {
                name.push_str("%s");
            }
        }
        _ => {
            if dm.is_none() {
                *dm = Some(dim(s, g, 4));
            }
            if !name.contains("%s") {
                name.push_str("%s");
            }
        }
    }
}

fn laws<T: DeriveFrom + PartialEq + std::fmt::Debug>(a: &T, b: &T, c: &T) -> Out {
    let ab = call("derive_from", || a.derive_from(b))?;
    let again = call("derive_from", || ab.derive_from(b))?;
    ensure!(again == ab, "deriving twice from the same element differs from once {}", diff(&ab, &again));
    let this = call("derive_from", || a.derive_from(a))?;
    ensure!(this == *a, "deriving from an equal element changes it {}", diff(a, &this));
    let left = call("derive_from", || ab.derive_from(c))?;
    let right = call("derive_from", || a.derive_from(&b.derive_from(c)))?;
    ensure!(left == right, "chained derivation depends on the grouping {}", diff(&left, &right));
    Ok(())
}

fn p18(s: &mut Src, cov: &mut Cov) -> Out {
    let g = pair_g(s);
    let mut u = Default::default();
    macro_rules! kind {
        ($word:literal, $gen:expr, $thin:ident, $lower:ident, $info:ident, $lift:ident, $derive:ident) => {{
            let mut v = vec![];
            for _ in 0..3 {
                let mut m = $gen;
                $thin(s, &mut m);
                shape(s, &g, &mut m.name, &mut m.dim);
                v.push(m);
            }
            let (a, b, c) = (&v[0], &v[1], &v[2]);
            cov.input(format!("{a:#?}\nderived from\n{b:#?}"));
            let mut want = a.clone();
            $derive(&mut want, b);
            let (x, y) = ($lower(a), $lower(b));
            let z = call($word, || x.derive_from(&y))?;
            let got = $lift(&z);
            ensure!(got == want, "{} derived from another {}", $word, diff(&want, &got));
            ensure!($lift(&x) == *a && $lift(&y) == *b, "the operands of derive_from changed");
            laws(&$info(a), &$info(b), &$info(c))?;
            match (a.dim.is_some(), b.dim.is_some(), a.name.contains("%s")) {
                (true, _, _) => cov.hit("an array derives"),
                (false, true, true) => cov.hit("a single becomes an array"),
                (false, true, false) => cov.hit("a single derives from an array"),
                (false, false, true) => cov.hit("a single with placeholder derives from a single"),
                _ => cov.hit("a single derives from a single"),
            }
            if want != *a {
                cov.nontrivial();
            }
            cov.hit($word);
        }};
    }
    match s.below(6) {
        0 => kind!("field", field(s, &g, &mut u), thin_field, lower_field, lower_field_info, lift_field, derive_field),
        1 => kind!("register", reg(s, &g, &mut u), thin_reg, lower_reg, lower_reg_info, lift_reg, derive_reg),
        2 => kind!("cluster", clu(s, &g, 1, &mut u), thin_clu, lower_clu, lower_clu_info, lift_clu, derive_clu),
        3 => kind!("peripheral", per(s, &g, &mut u), thin_per, lower_per, lower_per_info, lift_per, derive_per),
        4 => {
            let mut v = vec![];
            for _ in 0..3 {
                let mut m = evs(s, &g, 8, None, &mut u);
                thin_evs(s, &mut m);
                if s.flip() {
                    m.usage = s.opt(1, 2, |s| kw(s, USAGE));
                }
                v.push(m);
            }
            cov.input(format!("{:#?}\nderived from\n{:#?}", v[0], v[1]));
            let mut want = v[0].clone();
            derive_evs(&mut want, &v[1]);
            let x: Vec<_> = v.iter().map(lower_evs).collect();
            let got = lift_evs(&call("enumeratedValues", || x[0].derive_from(&x[1]))?);
            ensure!(got == want, "enumeratedValues derived from others {}", diff(&want, &got));
            laws(&x[0], &x[1], &x[2])?;
            if want != v[0] {
                cov.nontrivial();
            }
            cov.hit("enumeratedValues");
        }
        _ => {
            let mut v = vec![];
            for _ in 0..3 {
                let mut m = props(s, &g);
                thin!(s, m, size; access; prot; rval; rmask;);
                v.push(m);
            }
            cov.input(format!("{:#?}\nderived from\n{:#?}", v[0], v[1]));
            let mut want = v[0];
            derive_props(&mut want, &v[1]);
            let x: Vec<_> = v.iter().map(lower_props).collect();
            let got = lift_props(&call("properties", || x[0].derive_from(&x[1]))?);
            ensure!(got == want, "properties derived from others {}", diff(&want, &got));
            laws(&x[0], &x[1], &x[2])?;
            if want != v[0] {
                cov.nontrivial();
            }
            cov.hit("properties");
        }
    }
    Ok(())
}

pub const P18: Prop = Prop {
    id: "P18",
    title: "Deriving keeps own items and takes over the missing ones",
    rule: "something is taken over",
    quick: 500_000,
    thorough: 30_000_000,
    case: p18,
    directed: &[],
    assumptions: &[],
};

// ------------------------------------------------------------------ P19

struct J(Map<String, Value>);
impl J {
    fn new() -> J {
        J(Map::new())
    }
    fn put(&mut self, k: &str, v: impl Into<Value>) -> &mut J {
        self.0.insert(k.into(), v.into());
        self
    }
    fn opt<T: Clone + Into<Value>>(&mut self, k: &str, v: &Option<T>) -> &mut J {
        if let Some(v) = v {
            self.0.insert(k.into(), v.clone().into());
        }
        self
    }
    fn list(&mut self, k: &str, v: Vec<Value>) -> &mut J {
        if !v.is_empty() {
            self.0.insert(k.into(), Value::Array(v));
        }
        self
    }
    fn done(&mut self) -> Value {
        Value::Object(std::mem::take(&mut self.0))
    }
}
fn j_props(j: &mut J, p: &Props) {
    j.opt("size", &p.size).opt("access", &p.access).opt("protection", &p.prot);
    j.opt("resetValue", &p.rval).opt("resetMask", &p.rmask);
}
fn j_ev(e: &Ev) -> Value {
    let mut j = J::new();
    j.put("name", e.name.clone()).opt("description", &e.desc).opt("value", &e.value).opt("is_default", &e.is_default);
    j.done()
}
fn j_evs(e: &Evs) -> Value {
    let mut j = J::new();
    j.opt("name", &e.name).opt("usage", &e.usage).opt("derived_from", &e.derived);
    j.list("values", e.values.iter().map(j_ev).collect());
    j.done()
}
fn j_wc(w: &Wc) -> Value {
    match w {
        Wc::AsRead(b) => json!({ "writeAsRead": b }),
        Wc::UseEv(b) => json!({ "useEnumeratedValues": b }),
        Wc::Range(a, b) => json!({"range": {"minimum": a, "maximum": b}}),
    }
}
fn j_dim(j: &mut J, d: &Option<Dim>) {
    if let Some(d) = d {
        j.put("dim", d.dim).put("dimIncrement", d.inc);
        j.opt("dimIndex", &d.index.as_ref().map(|i| i.join(",")));
        j.opt("dimName", &d.name);
        if let Some(a) = &d.dai {
            let mut k = J::new();
            k.opt("headerEnumName", &a.hdr).put("values", a.values.iter().map(j_ev).collect::<Vec<_>>());
            j.put("dimArrayIndex", k.done());
        }
    }
}
fn j_field(f: &Field) -> Value {
    let mut j = J::new();
    j_dim(&mut j, &f.dim);
    j.put("name", f.name.clone()).opt("description", &f.desc);
    let msb = (f.off + f.width).wrapping_sub(1);
    match f.brt {
        Brt::Br => j.put("bitRange", format!("[{msb}:{}]", f.off)),
        Brt::Ow => j.put("bitOffset", f.off).put("bitWidth", f.width),
        Brt::Ml => j.put("lsb", f.off).put("msb", msb),
    };
    j.opt("access", &f.access).opt("modifiedWriteValues", &f.mwv).opt("writeConstraint", &f.wc.as_ref().map(j_wc));
    j.opt("readAction", &f.ra).list("enumeratedValues", f.evs.iter().map(j_evs).collect());
    j.opt("derivedFrom", &f.derived);
    j.done()
}
/// data types have short names in serialized data
fn j_dtype(k: Kw) -> String {
    let (base, ptr) = match k.strip_suffix(" *") {
        Some(b) => (b, "_ptr"),
        None => (k, ""),
    };
    base.replace("uint", "u").replace("int", "i").replace("_t", "") + ptr
}
fn j_reg(r: &Reg) -> Value {
    let mut j = J::new();
    j_dim(&mut j, &r.dim);
    j.put("name", r.name.clone()).opt("displayName", &r.display).opt("description", &r.desc);
    j.opt("alternateGroup", &r.alt_group).opt("alternateRegister", &r.alt_reg).put("addressOffset", r.off);
    j_props(&mut j, &r.props);
    j.opt("datatype", &r.dtype.map(j_dtype)).opt("modifiedWriteValues", &r.mwv).opt("writeConstraint", &r.wc.as_ref().map(j_wc));
    j.opt("readAction", &r.ra);
    j.opt("fields", &r.fields.as_ref().map(|f| f.iter().map(j_field).collect::<Vec<_>>()));
    j.opt("derivedFrom", &r.derived);
    j.done()
}
fn j_rc(k: &Rc) -> Value {
    match k {
        Rc::R(r) => json!({ "register": j_reg(r) }),
        Rc::C(c) => json!({ "cluster": j_clu(c) }),
    }
}
fn j_clu(c: &Clu) -> Value {
    let mut j = J::new();
    j_dim(&mut j, &c.dim);
    j.put("name", c.name.clone()).opt("description", &c.desc).opt("alternateCluster", &c.alt);
    j.opt("headerStructName", &c.hdr).put("addressOffset", c.off);
    j_props(&mut j, &c.props);
    j.put("children", c.children.iter().map(j_rc).collect::<Vec<_>>()).opt("derivedFrom", &c.derived);
    j.done()
}
fn j_per(p: &Per) -> Value {
    let mut j = J::new();
    j_dim(&mut j, &p.dim);
    j.put("name", p.name.clone()).opt("displayName", &p.display).opt("version", &p.version);
    j.opt("description", &p.desc).opt("alternatePeripheral", &p.alt).opt("groupName", &p.group);
    j.opt("prependToName", &p.prepend).opt("appendToName", &p.append).opt("headerStructName", &p.hdr);
    j.put("baseAddress", p.base);
    j_props(&mut j, &p.props);
    j.opt("addressBlock", &p.abs.as_ref().map(|v| v.iter().map(j_ab).collect::<Vec<_>>()));
    j.list("interrupt", p.ints.iter().map(j_int).collect());
    j.opt("registers", &p.regs.as_ref().map(|v| v.iter().map(j_rc).collect::<Vec<_>>()));
    j.opt("derivedFrom", &p.derived);
    j.done()
}
fn j_ab(a: &Ab) -> Value {
    let mut j = J::new();
    j.put("offset", a.off).put("size", a.size).put("usage", a.usage).opt("protection", &a.prot);
    j.done()
}
fn j_int(i: &Int) -> Value {
    let mut j = J::new();
    j.put("name", i.name.clone()).opt("description", &i.desc).put("value", i.value);
    j.done()
}
fn j_cpu(c: &Cpu) -> Value {
    let mut j = J::new();
    j.put("name", c.name.clone()).put("revision", c.revision.clone()).put("endian", c.endian);
    j.put("mpuPresent", c.mpu).put("fpuPresent", c.fpu).opt("fpuDP", &c.fpu_dp).opt("dspPresent", &c.dsp);
    j.opt("icachePresent", &c.icache).opt("dcachePresent", &c.dcache).opt("itcmPresent", &c.itcm);
    j.opt("dtcmPresent", &c.dtcm).opt("vtorPresent", &c.vtor).put("nvicPrioBits", c.nvic);
    j.put("vendorSystickConfig", c.systick).opt("deviceNumInterrupts", &c.nint).opt("sauNumRegions", &c.sau);
    j.done()
}
fn j_dev(d: &Dev) -> Value {
    let mut j = J::new();
    j.opt("vendor", &d.vendor).opt("vendorID", &d.vendor_id).put("name", d.name.clone()).opt("series", &d.series);
    j.put("version", d.version.clone()).put("description", d.desc.clone()).opt("licenseText", &d.license);
    j.opt("cpu", &d.cpu.as_ref().map(j_cpu)).opt("headerSystemFilename", &d.hsf);
    j.opt("headerDefinitionsPrefix", &d.hdp).put("addressUnitBits", d.aub).put("width", d.width);
    j_props(&mut j, &d.props);
    j.put("peripherals", d.pers.iter().map(j_per).collect::<Vec<_>>());
    j.done()
}
/// the same data with the keys of all objects in another order
fn jumble(s: &mut Src, v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            for i in (1..k.len()).rev() {
                k.swap(i, s.idx(i + 1));
            }
            let mut m: serde_json::Map<String, Value> = k.into_iter().map(|(k, v)| (k.clone(), jumble(s, v))).collect();
            // indexes may be given as a list too
            match m.get("dimIndex") {
                Some(Value::String(t)) if s.chance(1, 3) => {
                    let l = t.split(',').collect::<Vec<_>>();
                    let l = json!(l);
                    m.insert("dimIndex".into(), l);
                }
                None if m.contains_key("dim") && s.chance(1, 3) => {
                    m.insert("dimIndex".into(), Value::Null);
                }
                _ => {}
            }
            Value::Object(m)
        }
        Value::Array(a) => Value::Array(a.iter().map(|v| jumble(s, v)).collect()),
        v => v.clone(),
    }
}

fn trips<T>(what: &str, v: &T, want: &Value, s: &mut Src, cov: &mut Cov, yaml: bool) -> Out
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let j = match call(what, || serde_json::to_value(v))? {
        Ok(j) => j,
        Err(e) => fail!("{what} is not serialized: {e}"),
    };
    ensure!(j == *want, "{what} is serialized otherwise {}", diff(want, &j));
    let t = match call(what, || serde_json::to_string(v))? {
        Ok(t) => t,
        Err(e) => fail!("{what} is not written as JSON: {e}"),
    };
    let same = |got: Result<T, String>, how: &str| -> Out {
        match got {
            Ok(x) => ensure!(x == *v, "{what} read back from {how} {}", diff(v, &x)),
            Err(e) => fail!("{what} cannot be read back from {how}: {e}"),
        }
        Ok(())
    };
    same(call(what, || serde_json::from_str::<T>(&t).map_err(|e| e.to_string()))?, "JSON text")?;
    let k = jumble(s, want);
    same(
        call(what, || serde_json::from_value::<T>(k.clone()).map_err(|e| e.to_string()))?,
        "JSON data in another order",
    )?;
    same(
        call(what, || serde_json::from_str::<T>(&k.to_string()).map_err(|e| e.to_string()))?,
        "JSON text in another order",
    )?;
    if yaml {
        let y = match call(what, || serde_yaml::to_string(v))? {
            Ok(t) => t,
            Err(e) => fail!("{what} is not written as YAML: {e}"),
        };
        same(call(what, || serde_yaml::from_str::<T>(&y).map_err(|e| e.to_string()))?, "YAML text")?;
        cov.hit("YAML");
    }
    cov.sub(what, true);
    Ok(())
}

fn p19(s: &mut Src, cov: &mut Cov) -> Out {
    let mut g = G::any(s);
    g.derive = true;
    let mut d = dev(s, &g);
    d.xs = XS.into();
    d.loc = LOC.into();
    d.schema = "1.1".into();
    cov.input(link_input(&d));
    let h = classify(&d, cov);
    if h.regs > 0 && h.fields > 0 {
        cov.nontrivial();
    }
    let yaml = s.chance(1, 4);
    let v = lower(&d);
    trips("device", &v, &j_dev(&d), s, cov, yaml)?;
    // parts on their own
    if let (Some(c), Some(m)) = (&v.cpu, &d.cpu) {
        trips("cpu", c, &j_cpu(m), s, cov, yaml)?;
    }
    let Some(m) = d.pers.first() else { return Ok(()) };
    let p = &v.peripherals[0];
    trips("peripheral", p, &j_per(m), s, cov, yaml)?;
    for (x, m) in p.interrupt.iter().zip(&m.ints).take(1) {
        trips("interrupt", x, &j_int(m), s, cov, yaml)?;
    }
    for (x, m) in p.address_block.iter().flatten().zip(m.abs.iter().flatten()).take(1) {
        trips("addressBlock", x, &j_ab(m), s, cov, yaml)?;
    }
    for (x, m) in p.registers.iter().flatten().zip(m.regs.iter().flatten()).take(4) {
        trips("register or cluster", x, &j_rc(m), s, cov, yaml)?;
        match (x, m) {
            (svd::RegisterCluster::Register(x), Rc::R(m)) => {
                trips("register", x, &j_reg(m), s, cov, yaml)?;
                ensure!(x.is_single() == m.dim.is_none(), "harness: array nature");
                for (x, m) in x.fields.iter().flatten().zip(m.fields.iter().flatten()).take(3) {
                    trips("field", x, &j_field(m), s, cov, yaml)?;
                    for (x, m) in x.enumerated_values.iter().zip(&m.evs).take(1) {
                        trips("enumeratedValues", x, &j_evs(m), s, cov, yaml)?;
                        for (x, m) in x.values.iter().zip(&m.values).take(1) {
                            trips("enumeratedValue", x, &j_ev(m), s, cov, yaml)?;
                        }
                    }
                    for (x, m) in x.write_constraint.iter().zip(&m.wc) {
                        trips("writeConstraint", x, &j_wc(m), s, cov, yaml)?;
                    }
                    if s.chance(1, 3) {
                        refused(s, cov, m)?;
                    }
                }
            }
            (svd::RegisterCluster::Cluster(x), Rc::C(m)) => {
                trips("cluster", x, &j_clu(m), s, cov, yaml)?;
            }
            _ => fail!("harness: register or cluster"),
        }
    }
    Ok(())
}
/// a field whose bit range makes no sense is refused
fn refused(s: &mut Src, cov: &mut Cov, f: &Field) -> Out {
    let mut j = j_field(f);
    let Some(m) = j.as_object_mut() else { return Ok(()) };
    for k in ["bitRange", "bitOffset", "bitWidth", "lsb", "msb"] {
        m.remove(k);
    }
    let a = s.num(31) as u32;
    let b = a + 1 + s.below(64) as u32;
    let bad: Vec<(&str, Value)> = match s.below(9) {
        0 => vec![],
        1 => vec![("bitRange", json!(format!("[{a}:{b}]")))],
        2 => vec![("lsb", json!(b)), ("msb", json!(a))],
        3 => vec![("bitOffset", json!(u32::MAX)), ("bitWidth", json!(1 + s.below(5)))],
        4 => vec![(*s.pick(&["lsb", "msb", "bitWidth", "bitOffset"]), json!(a))],
        5 => vec![("bitRange", json!(*s.pick(&["", "[]", "[1]", "1:0", "[1:0", "[x:0]", "[7:4:2]", "[-1:0]", "[4294967296:0]"])))],
        6 => vec![("bitOffset", json!("3")), ("bitWidth", json!(true))],
        7 => vec![("lsb", json!(0)), ("msb", json!(4294967296u64))],
        _ => vec![("bitOffset", json!(-1)), ("bitWidth", json!(1))],
    };
    for (k, v) in &bad {
        m.insert(k.to_string(), v.clone());
    }
    let t = j.to_string();
    if let Ok(x) = call("field", || serde_json::from_str::<svd::Field>(&t))? {
        fail!("a field with the bit range {bad:?} is accepted as {:?}", x.bit_range);
    }
    cov.hit("inconsistent bit range refused");
    cov.sub(&format!("{bad:?}"), true);
    Ok(())
}

pub const P19: Prop = Prop {
    id: "P19",
    title: "Serialized devices deserialize to the same device",
    rule: "the device has registers and fields; every part is counted on its own",
    quick: 40_000,
    thorough: 3_000_000,
    case: p19,
    directed: &[],
    assumptions: &["name space, schema location and version of the device are the default ones (skipped by design)"],
};
