//! Reference semantics of derivation and expansion over the harness's own model, and a generator
//! of devices whose `derivedFrom` references resolve.

use crate::engine::Src;
use crate::gen::*;
use crate::model::*;
use std::cell::Cell;
use std::collections::HashSet;

// ------------------------------------------------------------------ one derivation step

fn or<T: Clone>(a: &mut Option<T>, b: &Option<T>) {
    if a.is_none() {
        a.clone_from(b);
    }
}
pub fn derive_props(a: &mut Props, b: &Props) {
    or(&mut a.size, &b.size);
    or(&mut a.access, &b.access);
    or(&mut a.prot, &b.prot);
    or(&mut a.rval, &b.rval);
    or(&mut a.rmask, &b.rmask);
}
/// A single element whose name has the placeholder becomes an array like the one it derives from
fn derive_dim(name: &str, a: &mut Option<Dim>, b: &Option<Dim>) {
    if let (None, Some(b)) = (&a, b) {
        if name.contains("%s") {
            let mut n = b.clone();
            n.name = None;
            *a = Some(n);
        }
    }
}
pub fn derive_evs(a: &mut Evs, b: &Evs) {
    or(&mut a.usage, &b.usage);
    if a.values.is_empty() {
        a.values = b.values.clone();
    }
}
pub fn derive_field_info(a: &mut Field, b: &Field) {
    or(&mut a.desc, &b.desc);
    or(&mut a.access, &b.access);
    or(&mut a.mwv, &b.mwv);
    or(&mut a.wc, &b.wc);
    or(&mut a.ra, &b.ra);
    if a.evs.is_empty() {
        a.evs = b.evs.clone();
    }
}
pub fn derive_field(a: &mut Field, b: &Field) {
    derive_field_info(a, b);
    derive_dim(&a.name, &mut a.dim, &b.dim);
}
pub fn derive_reg_info(a: &mut Reg, b: &Reg) {
    or(&mut a.desc, &b.desc);
    derive_props(&mut a.props, &b.props);
    or(&mut a.dtype, &b.dtype);
    or(&mut a.mwv, &b.mwv);
    or(&mut a.wc, &b.wc);
    or(&mut a.ra, &b.ra);
    or(&mut a.fields, &b.fields);
}
pub fn derive_reg(a: &mut Reg, b: &Reg) {
    derive_reg_info(a, b);
    derive_dim(&a.name, &mut a.dim, &b.dim);
}
pub fn derive_clu_info(a: &mut Clu, b: &Clu) {
    or(&mut a.desc, &b.desc);
    or(&mut a.hdr, &b.hdr);
    derive_props(&mut a.props, &b.props);
    if a.children.is_empty() {
        a.children = b.children.clone();
    }
}
pub fn derive_clu(a: &mut Clu, b: &Clu) {
    derive_clu_info(a, b);
    derive_dim(&a.name, &mut a.dim, &b.dim);
}
pub fn derive_per_info(a: &mut Per, b: &Per) {
    or(&mut a.version, &b.version);
    or(&mut a.desc, &b.desc);
    or(&mut a.group, &b.group);
    or(&mut a.prepend, &b.prepend);
    or(&mut a.append, &b.append);
    or(&mut a.hdr, &b.hdr);
    derive_props(&mut a.props, &b.props);
    or(&mut a.abs, &b.abs);
    or(&mut a.regs, &b.regs);
    if a.ints.is_empty() {
        a.ints = b.ints.clone();
    }
}
pub fn derive_per(a: &mut Per, b: &Per) {
    derive_per_info(a, b);
    derive_dim(&a.name, &mut a.dim, &b.dim);
}

// ------------------------------------------------------------------ items of an array

pub fn indexes(d: &Dim) -> Vec<String> {
    match &d.index {
        Some(v) => v.iter().take(d.dim as usize).cloned().collect(),
        None => (0..d.dim).map(|i| i.to_string()).collect(),
    }
}
pub fn fill(text: &str, idx: &str) -> String {
    // one scan: "[%s]" and "%s" are both the placeholder
    let mut out = String::new();
    let mut rest = text;
    while let Some(k) = rest.find("%s") {
        let (mut a, mut b) = (&rest[..k], &rest[k + 2..]);
        if a.ends_with('[') && b.starts_with(']') {
            a = &a[..a.len() - 1];
            b = &b[1..];
        }
        out.push_str(a);
        out.push_str(idx);
        rest = b;
    }
    out.push_str(rest);
    out
}
fn special<'a>(d: &'a Dim, idx: &str) -> Option<&'a Ev> {
    d.dai
        .as_ref()?
        .values
        .iter()
        .find(|e| e.value.map(|v| v.to_string()).as_deref() == Some(idx))
}
pub fn item_name(name: &str, d: &Dim, idx: &str) -> String {
    match special(d, idx) {
        Some(e) => e.name.clone(),
        None => fill(name, idx),
    }
}
pub fn item_desc(desc: &Option<String>, d: &Dim, idx: &str) -> Option<String> {
    special(d, idx)
        .and_then(|e| e.desc.clone())
        .or_else(|| desc.as_ref().map(|t| fill(t, idx)))
}
pub fn item_names(name: &str, d: &Dim) -> Vec<String> {
    indexes(d).iter().map(|i| item_name(name, d, i)).collect()
}
fn shift(start: u64, d: &Dim, i: usize, max: u64) -> Result<u64, String> {
    start
        .checked_add(i as u64 * d.inc as u64)
        .filter(|v| *v <= max)
        .ok_or_else(|| "item out of the address space".to_string())
}
pub fn field_items(f: &Field) -> Result<Vec<Field>, String> {
    let d = match &f.dim {
        None => return Ok(vec![f.clone()]),
        Some(d) => d,
    };
    let mut out = vec![];
    for (i, idx) in indexes(d).iter().enumerate() {
        let mut n = f.clone();
        n.dim = None;
        n.name = item_name(&f.name, d, idx);
        n.desc = item_desc(&f.desc, d, idx);
        n.off = shift(f.off as u64 + f.width as u64, d, i, u32::MAX as u64)? as u32 - f.width;
        n.brt = Brt::Ow;
        out.push(n);
    }
    Ok(out)
}
pub fn reg_items(r: &Reg) -> Result<Vec<Reg>, String> {
    let d = match &r.dim {
        None => return Ok(vec![r.clone()]),
        Some(d) => d,
    };
    let mut out = vec![];
    for (i, idx) in indexes(d).iter().enumerate() {
        let mut n = r.clone();
        n.dim = None;
        n.name = item_name(&r.name, d, idx);
        n.desc = item_desc(&r.desc, d, idx);
        n.display = r.display.as_ref().map(|t| fill(t, idx));
        n.off = shift(r.off as u64, d, i, u32::MAX as u64)? as u32;
        out.push(n);
    }
    Ok(out)
}
pub fn clu_items(c: &Clu) -> Result<Vec<Clu>, String> {
    let d = match &c.dim {
        None => return Ok(vec![c.clone()]),
        Some(d) => d,
    };
    let mut out = vec![];
    for (i, idx) in indexes(d).iter().enumerate() {
        let mut n = c.clone();
        n.dim = None;
        n.name = item_name(&c.name, d, idx);
        n.desc = item_desc(&c.desc, d, idx);
        n.off = shift(c.off as u64, d, i, u32::MAX as u64)? as u32;
        out.push(n);
    }
    Ok(out)
}
pub fn per_items(p: &Per) -> Result<Vec<Per>, String> {
    let d = match &p.dim {
        None => return Ok(vec![p.clone()]),
        Some(d) => d,
    };
    let mut out = vec![];
    for (i, idx) in indexes(d).iter().enumerate() {
        let mut n = p.clone();
        n.dim = None;
        n.name = item_name(&p.name, d, idx);
        n.desc = item_desc(&p.desc, d, idx);
        n.display = p.display.as_ref().map(|t| fill(t, idx));
        n.base = shift(p.base, d, i, u64::MAX)?;
        out.push(n);
    }
    Ok(out)
}

// ------------------------------------------------------------------ reference resolution

pub type Path = Vec<String>;
pub const TOO_BIG: &str = "too big";

pub struct Ref<'a> {
    pub d: &'a Dev,
    budget: Cell<usize>,
}
fn is(name: &str, dim: &Option<Dim>, want: &str) -> bool {
    name == want
        || dim
            .as_ref()
            .map(|d| item_names(name, d).iter().any(|n| n == want))
            .unwrap_or(false)
}
fn plus(p: &Path, n: &str) -> Path {
    let mut p = p.clone();
    p.push(n.to_string());
    p
}
fn parts(t: &str) -> Path {
    t.split('.').map(|s| s.to_string()).collect()
}
pub type Chain<'a, T> = Vec<(&'a T, Path)>;

impl<'a> Ref<'a> {
    pub fn new(d: &'a Dev) -> Self {
        Ref {
            d,
            budget: Cell::new(3000),
        }
    }
    fn spend(&self, n: usize) -> Result<(), String> {
        let b = self.budget.get();
        if b < n {
            return Err(TOO_BIG.into());
        }
        self.budget.set(b - n);
        Ok(())
    }
    pub fn per(&self, name: &str) -> Option<&'a Per> {
        self.d.pers.iter().rev().find(|p| is(&p.name, &p.dim, name))
    }
    /// children of the peripheral or cluster at `path`
    pub fn block(&self, path: &[String]) -> Option<&'a [Rc]> {
        let p = self.per(path.first()?)?;
        let mut cur = p.regs.as_deref().unwrap_or(&[]);
        for n in &path[1..] {
            cur = &self.clu_in(cur, n)?.children;
        }
        Some(cur)
    }
    fn clu_in(&self, v: &'a [Rc], name: &str) -> Option<&'a Clu> {
        v.iter().rev().find_map(|k| match k {
            Rc::C(c) if is(&c.name, &c.dim, name) => Some(c),
            _ => None,
        })
    }
    pub fn clu(&self, block: &[String], name: &str) -> Option<&'a Clu> {
        self.clu_in(self.block(block)?, name)
    }
    pub fn reg(&self, block: &[String], name: &str) -> Option<&'a Reg> {
        self.block(block)?.iter().rev().find_map(|k| match k {
            Rc::R(r) if is(&r.name, &r.dim, name) => Some(r),
            _ => None,
        })
    }
    /// `reg`: full path of the register
    pub fn field(&self, reg: &[String], name: &str) -> Option<&'a Field> {
        let (r, b) = reg.split_last()?;
        let r = self.reg(b, r)?;
        r.fields.iter().flatten().rev().find(|f| is(&f.name, &f.dim, name))
    }
    /// The element a reference text names, seen from a peripheral
    pub fn to_per(&self, t: &str) -> Option<&'a Per> {
        self.per(t)
    }
    /// .. from an element of block `home`; also the full path of the target
    pub fn to_clu(&self, t: &str, home: &Path) -> Option<(&'a Clu, Path)> {
        let mut p = parts(t);
        let n = p.pop()?;
        let b = if p.is_empty() { home.clone() } else { p };
        Some((self.clu(&b, &n)?, plus(&b, &n)))
    }
    pub fn to_reg(&self, t: &str, home: &Path) -> Option<(&'a Reg, Path)> {
        let mut p = parts(t);
        let n = p.pop()?;
        let b = if p.is_empty() { home.clone() } else { p };
        Some((self.reg(&b, &n)?, plus(&b, &n)))
    }
    /// .. from a field of the register at `home`
    pub fn to_field(&self, t: &str, home: &Path) -> Option<(&'a Field, Path)> {
        let mut p = parts(t);
        let n = p.pop()?;
        let reg = self.reg_path(p, home)?;
        Some((self.field(&reg, &n)?, plus(&reg, &n)))
    }
    /// nothing: the same register; one part: a register of the same block; more: a full path
    fn reg_path(&self, p: Path, home: &Path) -> Option<Path> {
        Some(match p.len() {
            0 => home.clone(),
            1 => plus(&home.split_last()?.1.to_vec(), &p[0]),
            _ => p,
        })
    }
    /// .. from enumeratedValues of the field at `home`; the path is that of the target's field
    pub fn to_evs(&self, t: &str, home: &Path) -> Option<(&'a Evs, Path)> {
        let mut p = parts(t);
        let n = p.pop()?;
        let own_reg = home.split_last()?.1.to_vec();
        match p.pop() {
            None => {
                let (rn, b) = own_reg.split_last()?;
                let r = self.reg(b, rn)?;
                for f in r.fields.iter().flatten() {
                    if let Some(e) = f.evs.iter().rev().find(|e| e.name.as_deref() == Some(&n)) {
                        return Some((e, plus(&own_reg, &f.name)));
                    }
                }
                None
            }
            Some(fname) => {
                let reg = self.reg_path(p, &own_reg)?;
                let f = self.field(&reg, &fname)?;
                let e = f.evs.iter().rev().find(|e| e.name.as_deref() == Some(&n))?;
                Some((e, plus(&reg, &fname)))
            }
        }
    }

    /// The element and all those it derives from, each with its full path
    fn chain<T>(
        &self,
        first: &'a T,
        path: Path,
        derived: impl Fn(&T) -> Option<&String>,
        find: impl Fn(&str, &Path) -> Option<(&'a T, Path)>,
    ) -> Result<Chain<'a, T>, String> {
        let mut v: Chain<T> = vec![(first, path)];
        loop {
            let (t, p) = v[v.len() - 1].clone();
            let r = match derived(t) {
                None => return Ok(v),
                Some(r) => r,
            };
            match find(r, &p) {
                None => return Err(format!("{r} not found from {p:?}")),
                Some((n, np)) => {
                    if v.iter().any(|(o, _)| std::ptr::eq(*o, n)) {
                        return Err(format!("{r} derives from itself"));
                    }
                    v.push((n, np));
                }
            }
        }
    }
    pub fn per_chain(&self, p: &'a Per) -> Result<Chain<'a, Per>, String> {
        self.chain(
            p,
            vec![p.name.clone()],
            |p| p.derived.as_ref(),
            |t, _| self.to_per(t).map(|p| (p, vec![t.to_string()])),
        )
    }
    pub fn clu_chain(&self, c: &'a Clu, home: &Path) -> Result<Chain<'a, Clu>, String> {
        self.chain(
            c,
            plus(home, &c.name),
            |c| c.derived.as_ref(),
            |t, p| self.to_clu(t, &Self::up(p)),
        )
    }
    pub fn reg_chain(&self, r: &'a Reg, home: &Path) -> Result<Chain<'a, Reg>, String> {
        self.chain(
            r,
            plus(home, &r.name),
            |r| r.derived.as_ref(),
            |t, p| self.to_reg(t, &Self::up(p)),
        )
    }
    pub fn field_chain(&self, f: &'a Field, reg: &Path) -> Result<Chain<'a, Field>, String> {
        self.chain(
            f,
            plus(reg, &f.name),
            |f| f.derived.as_ref(),
            |t, p| self.to_field(t, &Self::up(p)),
        )
    }
    pub fn evs_chain(&self, e: &'a Evs, field: &Path) -> Result<Chain<'a, Evs>, String> {
        if e.derived.is_some() && e.derived == e.name {
            return Err("enumeratedValues derived from its own name".into());
        }
        self.chain(
            e,
            field.clone(),
            |e| e.derived.as_ref(),
            |t, p| self.to_evs(t, p),
        )
    }
    fn up(p: &Path) -> Path {
        let mut p = p.clone();
        p.pop();
        p
    }

    pub fn expand(&self) -> Result<Dev, String> {
        let mut out = self.d.clone();
        out.pers.clear();
        for p in &self.d.pers {
            let ch = self.per_chain(p)?;
            let mut acc = p.clone();
            for (o, _) in &ch[1..] {
                derive_per(&mut acc, o);
            }
            if let Some((o, home)) = ch.iter().find(|(o, _)| o.regs.is_some()) {
                let v = self.rcs(o.regs.as_deref().unwrap_or(&[]), home, &mut vec![])?;
                acc.regs = Some(v.into_iter().map(Rc::R).collect());
            }
            acc.derived = None;
            let items = per_items(&acc)?;
            self.spend(
                items.len() * (1 + acc.regs.as_ref().map(|r| r.len()).unwrap_or(0)),
            )?;
            out.pers.extend(items);
        }
        Ok(out)
    }
    fn rcs(
        &self,
        v: &'a [Rc],
        home: &Path,
        active: &mut Vec<*const Clu>,
    ) -> Result<Vec<Reg>, String> {
        let mut out = vec![];
        for k in v {
            match k {
                Rc::R(r) => out.extend(self.one_reg(r, home)?),
                Rc::C(c) => out.extend(self.one_clu(c, home, active)?),
            }
        }
        Ok(out)
    }
    fn one_clu(
        &self,
        c: &'a Clu,
        home: &Path,
        active: &mut Vec<*const Clu>,
    ) -> Result<Vec<Reg>, String> {
        if active.contains(&(c as *const Clu)) {
            return Err(format!("cluster {} contains itself", c.name));
        }
        active.push(c);
        let ch = self.clu_chain(c, home)?;
        let mut acc = c.clone();
        acc.children.clear();
        for (o, _) in &ch[1..] {
            derive_dim(&acc.name, &mut acc.dim, &o.dim);
        }
        let mut inner = vec![];
        if let Some((o, h)) = ch.iter().find(|(o, _)| !o.children.is_empty()) {
            inner = self.rcs(&o.children, h, active)?;
        }
        active.pop();
        let mut out = vec![];
        let items = clu_items(&acc)?;
        self.spend(1 + items.len() * inner.len())?;
        for it in items {
            for r in &inner {
                let mut r = r.clone();
                r.name = format!("{}_{}", it.name, r.name);
                r.off = r
                    .off
                    .checked_add(it.off)
                    .ok_or("register out of the address space")?;
                out.push(r);
            }
        }
        Ok(out)
    }
    fn one_reg(&self, r: &'a Reg, home: &Path) -> Result<Vec<Reg>, String> {
        let ch = self.reg_chain(r, home)?;
        let mut acc = r.clone();
        for (o, _) in &ch[1..] {
            derive_reg(&mut acc, o);
        }
        acc.derived = None;
        if let Some((o, h)) = ch.iter().find(|(o, _)| o.fields.is_some()) {
            let mut v = vec![];
            for f in o.fields.iter().flatten() {
                v.extend(self.one_field(f, h)?);
            }
            acc.fields = Some(v);
        }
        let items = reg_items(&acc)?;
        self.spend(items.len() * (1 + acc.fields.as_ref().map(|f| f.len()).unwrap_or(0)))?;
        Ok(items)
    }
    fn one_field(&self, f: &'a Field, reg: &Path) -> Result<Vec<Field>, String> {
        let ch = self.field_chain(f, reg)?;
        let mut acc = f.clone();
        for (o, _) in &ch[1..] {
            derive_field(&mut acc, o);
        }
        acc.derived = None;
        if let Some((o, h)) = ch.iter().find(|(o, _)| !o.evs.is_empty()) {
            acc.evs = vec![];
            for e in &o.evs {
                acc.evs.push(self.one_evs(e, h)?);
            }
        }
        field_items(&acc)
    }
    fn one_evs(&self, e: &'a Evs, field: &Path) -> Result<Evs, String> {
        let ch = self.evs_chain(e, field)?;
        let mut acc = e.clone();
        for (o, _) in &ch[1..] {
            derive_evs(&mut acc, o);
        }
        acc.derived = None;
        Ok(acc)
    }
}

/// Reference of expand_properties
pub fn inherit(d: &mut Dev) {
    fn go(v: &mut [Rc], from: Props) {
        for k in v {
            if k.derived().is_some() {
                continue;
            }
            match k {
                Rc::R(r) => derive_props(&mut r.props, &from),
                Rc::C(c) => {
                    let mut own = c.props;
                    derive_props(&mut own, &from);
                    go(&mut c.children, own);
                }
            }
        }
    }
    let top = d.props;
    for p in &mut d.pers {
        if p.derived.is_none() {
            let mut own = p.props;
            derive_props(&mut own, &top);
            go(p.regs.as_deref_mut().unwrap_or(&mut []), own);
        }
    }
}

// ------------------------------------------------------------------ linked devices

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    P,
    C,
    R,
    F,
    E,
}
pub const KINDS: [Kind; 5] = [Kind::P, Kind::C, Kind::R, Kind::F, Kind::E];

/// Where an element is in the model: peripheral, indexes into nested children, field, evs
#[derive(Clone, Debug)]
pub struct At {
    pub kind: Kind,
    pub per: usize,
    pub rc: Vec<usize>,
    pub f: usize,
    pub e: usize,
    /// (name, array) of the element's containers and the element itself
    pub names: Vec<(String, Option<Dim>)>,
}

pub fn places(d: &Dev) -> Vec<At> {
    let mut out = vec![];
    fn go(out: &mut Vec<At>, v: &[Rc], at: &At) {
        for (i, k) in v.iter().enumerate() {
            let mut a = at.clone();
            a.rc.push(i);
            match k {
                Rc::C(c) => {
                    a.kind = Kind::C;
                    a.names.push((c.name.clone(), c.dim.clone()));
                    out.push(a.clone());
                    go(out, &c.children, &a);
                }
                Rc::R(r) => {
                    a.kind = Kind::R;
                    a.names.push((r.name.clone(), r.dim.clone()));
                    out.push(a.clone());
                    for (i, f) in r.fields.iter().flatten().enumerate() {
                        let mut a = a.clone();
                        a.kind = Kind::F;
                        a.f = i;
                        a.names.push((f.name.clone(), f.dim.clone()));
                        out.push(a.clone());
                        for (j, e) in f.evs.iter().enumerate() {
                            let mut a = a.clone();
                            a.kind = Kind::E;
                            a.e = j;
                            a.names.push((e.name.clone().unwrap_or_default(), None));
                            out.push(a);
                        }
                    }
                }
            }
        }
    }
    for (i, p) in d.pers.iter().enumerate() {
        let a = At {
            kind: Kind::P,
            per: i,
            rc: vec![],
            f: 0,
            e: 0,
            names: vec![(p.name.clone(), p.dim.clone())],
        };
        out.push(a.clone());
        go(&mut out, p.regs.as_deref().unwrap_or(&[]), &a);
    }
    out
}
pub fn rc_mut<'a>(d: &'a mut Dev, at: &At) -> &'a mut Rc {
    fn go<'a>(v: &'a mut [Rc], p: &[usize]) -> &'a mut Rc {
        if p.len() == 1 {
            return &mut v[p[0]];
        }
        match &mut v[p[0]] {
            Rc::C(c) => go(&mut c.children, &p[1..]),
            Rc::R(_) => unreachable!(),
        }
    }
    go(d.pers[at.per].regs.as_deref_mut().unwrap_or(&mut []), &at.rc)
}
pub fn reg_mut<'a>(d: &'a mut Dev, at: &At) -> &'a mut Reg {
    match rc_mut(d, at) {
        Rc::R(r) => r,
        Rc::C(_) => unreachable!(),
    }
}
pub fn field_mut<'a>(d: &'a mut Dev, at: &At) -> &'a mut Field {
    match &mut reg_mut(d, at).fields {
        Some(v) => &mut v[at.f],
        None => unreachable!(),
    }
}
pub fn derived_mut<'a>(d: &'a mut Dev, at: &At) -> &'a mut Option<String> {
    match at.kind {
        Kind::P => &mut d.pers[at.per].derived,
        Kind::C | Kind::R => match rc_mut(d, at) {
            Rc::R(r) => &mut r.derived,
            Rc::C(c) => &mut c.derived,
        },
        Kind::F => &mut field_mut(d, at).derived,
        Kind::E => &mut field_mut(d, at).evs[at.e].derived,
    }
}

pub fn rc_at<'a>(d: &'a Dev, at: &At) -> &'a Rc {
    let mut v = d.pers[at.per].regs.as_deref().unwrap_or(&[]);
    for (k, i) in at.rc.iter().enumerate() {
        if k + 1 == at.rc.len() {
            return &v[*i];
        }
        if let Rc::C(c) = &v[*i] {
            v = &c.children;
        }
    }
    unreachable!()
}
pub fn field_at<'a>(d: &'a Dev, at: &At) -> &'a Field {
    match rc_at(d, at) {
        Rc::R(Reg { fields: Some(f), .. }) => &f[at.f],
        _ => unreachable!(),
    }
}
/// Names of the element's containers
pub fn home(at: &At) -> Path {
    at.names[..at.names.len() - 1].iter().map(|n| n.0.clone()).collect()
}

/// one of the names an element can be referred to by
fn some_name(s: &mut Src, n: &(String, Option<Dim>), simple: bool) -> String {
    if let Some(d) = &n.1 {
        let mut v = item_names(&n.0, d);
        if simple {
            // only items whose index is a number that is set apart from the letters around it
            let after = n.0.find("%s").map(|k| n.0[k + 2..].trim_start_matches(']').to_string());
            let clear = !n.0.starts_with('%')
                && !n.0.starts_with('[')
                && after.map(|a| a.is_empty() || a.starts_with('_')) == Some(true);
            let idx = indexes(d);
            let mut k = 0;
            v.retain(|x| {
                k += 1;
                let i = &idx[k - 1];
                clear && i.bytes().all(|c| c.is_ascii_digit()) && *x == fill(&n.0, i)
            });
        }
        if !v.is_empty() && s.chance(2, 3) {
            return s.pick(&v).clone();
        }
    }
    n.0.clone()
}
fn same(a: &[(String, Option<Dim>)], b: &[(String, Option<Dim>)], n: usize) -> bool {
    a.len() >= n && b.len() >= n && a[..n].iter().zip(&b[..n]).all(|(x, y)| x.0 == y.0)
}
/// A reference to `to` as written at `from`, in one of the documented forms
pub fn ref_text(s: &mut Src, from: &At, to: &At) -> String {
    ref_text_of(s, from, to, false)
}
fn ref_text_of(s: &mut Src, from: &At, to: &At, simple: bool) -> String {
    let n = to.names.len();
    // how many trailing parts suffice
    let depth = |from: &At, lvl: usize| -> bool {
        // do both share everything above the last `lvl` parts?
        from.names.len() == n && n >= lvl && same(&from.names, &to.names, n - lvl)
    };
    let mut forms: Vec<usize> = vec![n];
    match from.kind {
        Kind::P => {}
        Kind::C | Kind::R => {
            if depth(from, 1) {
                forms.push(1);
                forms.push(1);
            }
        }
        Kind::F => {
            if depth(from, 1) {
                forms.push(1);
            }
            if depth(from, 2) {
                forms.push(2);
            }
        }
        Kind::E => {
            if depth(from, 2) {
                forms.push(1);
                forms.push(2);
            }
            if depth(from, 3) {
                forms.push(3);
            }
        }
    }
    let k = *s.pick(&forms);
    let v: Vec<String> = to.names[n - k..].iter().map(|x| some_name(s, x, simple)).collect();
    v.join(".")
}

/// Make the names of each scope distinct, array items included
pub fn distinct(d: &mut Dev, apart: bool) {
    fn claim(used: &mut HashSet<String>, name: &mut String, dim: &mut Option<Dim>) {
        let all = |name: &str, dim: &Option<Dim>| {
            let mut v: HashSet<String> = HashSet::new();
            v.insert(name.to_string());
            if let Some(d) = dim {
                v.extend(item_names(name, d));
            }
            v
        };
        if all(name, dim).iter().any(|n| used.contains(n)) {
            if let Some(d) = dim {
                d.dai = None;
            }
        }
        while all(name, dim).iter().any(|n| used.contains(n)) {
            name.push_str("_u");
        }
        used.extend(all(name, dim));
    }
    fn rcs(v: &mut [Rc], apart: bool) {
        let mut ur = HashSet::new();
        let mut uc = HashSet::new();
        for k in v {
            match k {
                Rc::C(c) => {
                    claim(if apart { &mut uc } else { &mut ur }, &mut c.name, &mut c.dim);
                    rcs(&mut c.children, apart);
                }
                Rc::R(r) => {
                    claim(&mut ur, &mut r.name, &mut r.dim);
                    let mut u = HashSet::new();
                    for f in r.fields.iter_mut().flatten() {
                        claim(&mut u, &mut f.name, &mut f.dim);
                    }
                }
            }
        }
    }
    let mut u = HashSet::new();
    for p in &mut d.pers {
        claim(&mut u, &mut p.name, &mut p.dim);
        rcs(p.regs.as_deref_mut().unwrap_or(&mut []), apart);
    }
}
pub fn each_dim(d: &mut Dev, f: &mut impl FnMut(&mut String, &mut Option<Dim>)) {
    fn rcs(v: &mut [Rc], f: &mut impl FnMut(&mut String, &mut Option<Dim>)) {
        for k in v {
            match k {
                Rc::C(c) => {
                    f(&mut c.name, &mut c.dim);
                    rcs(&mut c.children, f);
                }
                Rc::R(r) => {
                    f(&mut r.name, &mut r.dim);
                    for x in r.fields.iter_mut().flatten() {
                        f(&mut x.name, &mut x.dim);
                    }
                }
            }
        }
    }
    for p in &mut d.pers {
        f(&mut p.name, &mut p.dim);
        rcs(p.regs.as_deref_mut().unwrap_or(&mut []), f);
    }
}

/// Remove some of what the element has, so that a derivation has something to fill in
fn bare(s: &mut Src, d: &mut Dev, at: &At) {
    match at.kind {
        Kind::P => {
            let p = &mut d.pers[at.per];
            if s.chance(2, 3) {
                p.regs = None;
            }
            if s.flip() {
                p.abs = None;
                p.ints.clear();
            }
            if s.flip() {
                p.props = Props::default();
                p.desc = None;
            }
        }
        Kind::C | Kind::R => match rc_mut(d, at) {
            Rc::C(c) => {
                if s.chance(2, 3) {
                    c.children.clear();
                }
                if s.flip() {
                    c.desc = None;
                    c.hdr = None;
                }
            }
            Rc::R(r) => {
                if s.chance(2, 3) {
                    r.fields = None;
                }
                if s.flip() {
                    r.props = Props::default();
                    r.desc = None;
                }
                if s.flip() {
                    r.dtype = None;
                    r.mwv = None;
                    r.wc = None;
                    r.ra = None;
                }
            }
        },
        Kind::F => {
            let f = field_mut(d, at);
            if s.chance(2, 3) {
                f.evs.clear();
            }
            if s.flip() {
                f.desc = None;
                f.access = None;
            }
            if s.flip() {
                f.mwv = None;
                f.wc = None;
                f.ra = None;
            }
        }
        Kind::E => {
            let e = &mut field_mut(d, at).evs[at.e];
            if s.chance(2, 3) {
                e.values.clear();
            }
            if s.chance(1, 3) {
                e.name = None;
            }
            if s.chance(1, 3) {
                e.usage = None;
            }
        }
    }
}

#[derive(Clone, Copy)]
pub struct L {
    pub plain: bool,
    pub arrays: bool,
    /// placeholders may be given to single elements that derive from arrays
    pub grow: bool,
    /// clusters and registers of a block may have equal names
    pub apart: bool,
    /// refer to array items only by plain numeric indexes
    pub simple: bool,
    pub max_refs: u64,
}

/// A device whose references all resolve (by the reference semantics)
pub fn linked(s: &mut Src, l: L) -> Dev {
    let g = G {
        strict: true,
        arrays: l.arrays,
        derive: false,
        depth: s.below(4) as u32,
        plain: l.plain,
        small: true,
        dup: false,
    };
    let mut d = dev(s, &g);
    linked_from(s, l, &mut d);
    d
}
pub fn linked_from(s: &mut Src, l: L, d: &mut Dev) {
    let apart = l.apart && s.chance(1, 3);
    distinct(d, apart);
    if Ref::new(d).expand().is_err() {
        // too many items: keep arrays short
        each_dim(d, &mut |_, dim| {
            if let Some(dm) = dim {
                dm.dim = dm.dim.min(1);
                if let Some(i) = &mut dm.index {
                    i.truncate(dm.dim as usize);
                }
            }
        });
        distinct(d, apart);
    }
    if l.max_refs > 0 && s.chance(1, 6) {
        row(s, d);
    }
    if l.max_refs > 0 && s.chance(1, 6) {
        tour(s, l, d);
    }
    let n = s.below(l.max_refs + 1);
    for _ in 0..n {
        add_ref(s, l, d);
    }
}
/// Twins of a peripheral, with elements of the same names but other content, and a chain of
/// derivations that goes to and fro between their scopes
fn tour(s: &mut Src, l: L, d: &mut Dev) {
    let with: Vec<usize> = (0..d.pers.len()).filter(|i| d.pers[*i].regs.as_ref().map(|v| !v.is_empty()) == Some(true)).collect();
    if with.is_empty() {
        return;
    }
    let of = *s.pick(&with);
    let mut n = d.clone();
    for k in 0..1 + s.below(2) {
        let mut p = d.pers[of].clone();
        let tag = format!("_t{k}");
        match p.name.strip_suffix("[%s]") {
            Some(h) => p.name = format!("{h}{tag}[%s]"),
            None => p.name.push_str(&tag),
        }
        if let Some(d) = &mut p.dim {
            d.dai = None;
        }
        if n.pers.iter().any(|q| q.name == p.name) {
            return;
        }
        fn mark(v: &mut [Rc], tag: &str) {
            for r in v {
                match r {
                    Rc::C(c) => {
                        c.desc = Some(format!("cluster{tag}"));
                        mark(&mut c.children, tag);
                    }
                    Rc::R(r) => {
                        r.desc = Some(format!("register{tag}"));
                        for f in r.fields.iter_mut().flatten() {
                            f.desc = Some(format!("field{tag}"));
                            for e in f.evs.iter_mut().flat_map(|e| &mut e.values) {
                                e.desc = Some(format!("value{tag}"));
                            }
                        }
                    }
                }
            }
        }
        mark(p.regs.as_deref_mut().unwrap_or(&mut []), &tag);
        n.pers.push(p);
    }
    if !settled(&n) || Ref::new(&n).expand().is_err() {
        return;
    }
    *d = n;
    let all = places(d);
    let kind = *s.pick(&KINDS[1..]);
    let of: Vec<&At> = all.iter().filter(|a| a.kind == kind && a.names.last().map(|n| n.0.is_empty()) == Some(false)).collect();
    if of.len() < 3 {
        return;
    }
    let mut to = *s.pick(&of);
    for _ in 0..2 + s.below(4) {
        let near = s.flip();
        let up = to.names.len() - 1;
        let mut c = d.clone();
        let next: Vec<&&At> = of
            .iter()
            .filter(|a| {
                let close = a.names.len() == up + 1 && same(&a.names, &to.names, up.saturating_sub((kind == Kind::E) as usize));
                !std::ptr::eq(**a, to) && close == near && derived_mut(&mut c, a).is_none()
            })
            .collect();
        if next.is_empty() {
            continue;
        }
        let from = **s.pick(&next);
        let text = ref_text_of(s, from, to, l.simple);
        let mut n = d.clone();
        match kind {
            Kind::F => {
                let f = field_mut(&mut n, from);
                f.desc = None;
                if s.flip() {
                    f.evs.clear();
                }
            }
            Kind::E => field_mut(&mut n, from).evs[from.e].values.clear(),
            _ => match rc_mut(&mut n, from) {
                Rc::R(r) => {
                    r.desc = None;
                    if s.flip() {
                        r.fields = None;
                    }
                }
                Rc::C(c) => {
                    c.desc = None;
                    if s.flip() {
                        c.children.clear();
                    }
                }
            },
        }
        *derived_mut(&mut n, from) = Some(text);
        if settled(&n) && Ref::new(&n).expand().is_ok() && places(&n).len() == all.len() {
            *d = n;
            to = from;
        }
    }
}
/// Many siblings of one element, or a long chain of derivations among such
fn row(s: &mut Src, d: &mut Dev) {
    let all = places(d);
    if all.is_empty() {
        return;
    }
    let kind = KINDS[s.idx(5)];
    let of: Vec<&At> = all.iter().filter(|a| a.kind == kind).collect();
    let at = if of.is_empty() { s.pick(&all) } else { *s.pick(&of) }.clone();
    let chain = s.flip();
    let n = if chain && s.chance(1, 6) {
        9 + s.below(40)
    } else if chain {
        3 + s.below(6)
    } else if s.chance(1, 12) {
        60 + s.below(240)
    } else {
        8 + s.below(30)
    };
    let front = s.flip();
    let mut out = d.clone();
    let list = |len: usize, i: usize| if front { 0 } else { len + 0 * i };
    let rename = |name: &mut String, dim: &mut Option<Dim>, i: u64| {
        let k = format!("_k{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
        match name.strip_suffix("[%s]") {
            Some(h) => *name = format!("{h}{k}[%s]"),
            None => name.push_str(&k),
        }
        if let Some(d) = dim {
            d.dai = None;
        }
    };
    // what a derivation names, from the first copy to the last
    let mut last = at.names.last().map(|n| n.0.clone()).unwrap_or_default();
    macro_rules! copies {
        ($v:expr, $i:expr, $own:expr, $set:expr) => {{
            let v = $v;
            let own: fn(&mut _) -> (&mut String, &mut Option<Dim>) = $own;
            let set: &dyn Fn(&mut _, String) = $set;
            let orig = v[$i].clone();
            for i in 0..n {
                let mut e = orig.clone();
                if chain {
                    set(&mut e, last.clone());
                }
                let (name, dim) = own(&mut e);
                rename(name, dim, i);
                last = name.clone();
                v.insert(list(v.len(), i as usize), e);
            }
        }};
    }
    let strip = s.flip();
    match at.kind {
        Kind::P => copies!(&mut out.pers, at.per, |p: &mut Per| (&mut p.name, &mut p.dim), &|p: &mut Per, t| {
            p.derived = Some(t);
            if strip {
                p.regs = None;
                p.ints.clear();
                p.desc = None;
                p.dim = None;
                p.props = Props::default();
            }
        }),
        Kind::C | Kind::R => {
            let (i, up) = match at.rc.split_last() {
                Some(x) => x,
                None => return,
            };
            let v = if up.is_empty() {
                match &mut out.pers[at.per].regs {
                    Some(v) => v,
                    None => return,
                }
            } else {
                let mut a = at.clone();
                a.rc = up.to_vec();
                match rc_mut(&mut out, &a) {
                    Rc::C(c) => &mut c.children,
                    Rc::R(_) => return,
                }
            };
            copies!(
                v,
                *i,
                |k: &mut Rc| match k {
                    Rc::C(c) => (&mut c.name, &mut c.dim),
                    Rc::R(r) => (&mut r.name, &mut r.dim),
                },
                &|k: &mut Rc, t| match k {
                    Rc::C(c) => {
                        c.derived = Some(t);
                        if strip {
                            c.children.clear();
                            c.desc = None;
                            c.dim = None;
                            c.props = Props::default();
                        }
                    }
                    Rc::R(r) => {
                        r.derived = Some(t);
                        if strip {
                            r.fields = None;
                            r.desc = None;
                            r.dim = None;
                            r.props = Props::default();
                        }
                    }
                }
            )
        }
        Kind::F | Kind::E => {
            let e = if at.kind == Kind::E { Some(at.e) } else { None };
            let field = at.names[at.names.len() - if e.is_some() { 2 } else { 1 }].0.clone();
            let fields = match &mut reg_mut(&mut out, &at).fields {
                Some(v) => v,
                None => return,
            };
            last = field;
            copies!(fields, at.f, |f: &mut Field| (&mut f.name, &mut f.dim), &|f: &mut Field, t| match e {
                Some(e) => {
                    let x = &mut f.evs[e];
                    x.derived = Some(format!("{t}.{}", x.name.clone().unwrap_or_default()));
                    if strip {
                        x.values.clear();
                    }
                }
                None => {
                    f.derived = Some(t);
                    if strip {
                        f.evs.clear();
                        f.desc = None;
                        f.dim = None;
                        f.wc = None;
                    }
                }
            })
        }
    }
    // an element that lost its array marks is no template any more
    each_dim(&mut out, &mut |name, dim| {
        if dim.is_none() && name.contains("%s") {
            *name = name.replace("[%s]", "").replace("%s", "x");
        }
    });
    if settled(&out) && Ref::new(&out).expand().is_ok() {
        *d = out;
    }
}
/// Try to make one element derive from another; keeps the device resolvable
pub fn add_ref(s: &mut Src, l: L, d: &mut Dev) -> bool {
    let all = places(d);
    // a kind that has at least two elements
    let start = s.idx(5);
    let mut kind = KINDS[start];
    let mut of: Vec<&At> = vec![];
    for k in 0..5 {
        kind = KINDS[(start + k) % 5];
        of = all.iter().filter(|a| a.kind == kind).collect();
        if of.len() > 1 {
            break;
        }
    }
    if of.len() < 2 {
        return false;
    }
    let from = *s.pick(&of);
    let to = if s.flip() {
        // prefer one that is close
        let near: Vec<&&At> = of
            .iter()
            .filter(|a| {
                a.names.len() == from.names.len()
                    && same(&a.names, &from.names, from.names.len().saturating_sub(2))
            })
            .collect();
        **s.pick(&near)
    } else {
        *s.pick(&of)
    };
    if std::ptr::eq(from, to) || (kind == Kind::E && to.names.last().map(|n| n.0.is_empty()) == Some(true)) {
        return false;
    }
    let text = ref_text_of(s, from, to, l.simple);
    let mut n = d.clone();
    bare(s, &mut n, from);
    if kind == Kind::E && !text.contains('.') && s.chance(1, 2) {
        // another field of the register has values of that name too: the first field counts
        let (r, _) = from.names.split_at(from.names.len().saturating_sub(2));
        let other: Vec<&&At> = of
            .iter()
            .filter(|a| {
                !std::ptr::eq(**a, from)
                    && a.per == from.per
                    && a.names.len() == from.names.len()
                    && same(&a.names, r, r.len())
            })
            .collect();
        if !other.is_empty() {
            let o = *s.pick(&other);
            let f = field_mut(&mut n, o);
            if !f.evs.iter().any(|e| e.name.as_ref() == Some(&text)) {
                f.evs[o.e].name = Some(text.clone());
            }
        }
    }
    *derived_mut(&mut n, from) = Some(text);
    let single = from.names.last().map(|x| x.1.is_none()) == Some(true);
    let arr = to.names.last().map(|x| x.1.is_some()) == Some(true);
    if l.grow && single && arr && kind != Kind::E && s.flip() {
        let name = match kind {
            Kind::P => &mut n.pers[from.per].name,
            Kind::F => &mut field_mut(&mut n, from).name,
            _ => match rc_mut(&mut n, from) {
                Rc::R(r) => &mut r.name,
                Rc::C(c) => &mut c.name,
            },
        };
        if !name.contains("%s") {
            name.push_str("%s");
        }
    }
    if settled(&n) && Ref::new(&n).expand().is_ok() {
        *d = n;
        true
    } else {
        false
    }
}
/// A single element with the placeholder in its name derives directly from an array (otherwise it
/// is left open what it means)
fn settled(d: &Dev) -> bool {
    let r = Ref::new(d);
    for a in places(d) {
        let (name, dim) = match a.names.last() {
            Some(x) => x,
            None => continue,
        };
        if dim.is_some() || !name.contains("%s") || a.kind == Kind::E {
            continue;
        }
        let mut c = d.clone();
        let t = match derived_mut(&mut c, &a).clone() {
            Some(t) => t,
            None => return false,
        };
        let home = home(&a);
        let ok = match a.kind {
            Kind::P => r.to_per(&t).map(|p| p.dim.is_some()),
            Kind::C => r.to_clu(&t, &home).map(|p| p.0.dim.is_some()),
            Kind::R => r.to_reg(&t, &home).map(|p| p.0.dim.is_some()),
            Kind::F => r.to_field(&t, &home).map(|p| p.0.dim.is_some()),
            Kind::E => Some(true),
        };
        if ok != Some(true) {
            return false;
        }
    }
    true
}
