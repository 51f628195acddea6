//! XML trees owned by the harness: built by the renderer, printed with chosen layout, and read
//! back from the encoder's output by a small independent parser.

use crate::engine::Src;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct X {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<N>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum N {
    E(X),
    T(String),
    /// printed as is (comments, processing instructions, deliberately odd markup)
    Raw(String),
}

impl X {
    pub fn new(tag: &str) -> X {
        X {
            tag: tag.into(),
            attrs: vec![],
            kids: vec![],
        }
    }
    pub fn leaf(tag: &str, text: impl Into<String>) -> X {
        X {
            tag: tag.into(),
            attrs: vec![],
            kids: vec![N::T(text.into())],
        }
    }
    pub fn attr(&mut self, k: &str, v: impl Into<String>) {
        self.attrs.push((k.into(), v.into()));
    }
    pub fn push(&mut self, x: X) {
        self.kids.push(N::E(x));
    }
    pub fn add(&mut self, tag: &str, text: impl Into<String>) {
        self.push(X::leaf(tag, text));
    }
    pub fn add_opt(&mut self, tag: &str, text: &Option<String>) {
        if let Some(t) = text {
            self.add(tag, t.clone());
        }
    }
    pub fn elems(&self) -> impl Iterator<Item = &X> {
        self.kids.iter().filter_map(|k| match k {
            N::E(x) => Some(x),
            _ => None,
        })
    }
    pub fn elems_mut(&mut self) -> impl Iterator<Item = &mut X> {
        self.kids.iter_mut().filter_map(|k| match k {
            N::E(x) => Some(x),
            _ => None,
        })
    }
    pub fn child(&self, tag: &str) -> Option<&X> {
        self.elems().find(|x| x.tag == tag)
    }
    pub fn child_mut(&mut self, tag: &str) -> Option<&mut X> {
        self.elems_mut().find(|x| x.tag == tag)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let N::T(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    pub fn get_attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn is_leaf(&self) -> bool {
        !self.kids.iter().any(|k| matches!(k, N::E(_)))
    }
    /// every element in document order, self first
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a X)) {
        f(self);
        for k in self.elems() {
            k.walk(f);
        }
    }
    pub fn walk_mut(&mut self, f: &mut impl FnMut(&mut X)) {
        f(self);
        for k in self.elems_mut() {
            k.walk_mut(f);
        }
    }
    pub fn at(&self, path: &[usize]) -> &X {
        let mut x = self;
        for &i in path {
            x = match &x.kids[i] {
                N::E(e) => e,
                _ => unreachable!(),
            };
        }
        x
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut X {
        let mut x = self;
        for &i in path {
            x = match &mut x.kids[i] {
                N::E(e) => e,
                _ => unreachable!(),
            };
        }
        x
    }
    /// child index paths of all elements satisfying `p`
    pub fn find_all(&self, p: &mut impl FnMut(&X) -> bool) -> Vec<Vec<usize>> {
        fn go(
            x: &X,
            pre: &mut Vec<usize>,
            p: &mut impl FnMut(&X) -> bool,
            out: &mut Vec<Vec<usize>>,
        ) {
            if p(x) {
                out.push(pre.clone());
            }
            for (i, k) in x.kids.iter().enumerate() {
                if let N::E(e) = k {
                    pre.push(i);
                    go(e, pre, p, out);
                    pre.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], p, &mut out);
        out
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }

    /// one element per line, indented
    pub fn print(&self) -> String {
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
        self.print_at(&mut s, 0);
        s
    }
    fn open(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.tag);
        for (k, v) in &self.attrs {
            s.push(' ');
            s.push_str(k);
            s.push_str("=\"");
            s.push_str(&esc(v).replace('\n', "&#10;").replace('\t', "&#9;"));
            s.push('"');
        }
    }
    fn print_at(&self, s: &mut String, d: usize) {
        for _ in 0..d {
            s.push_str("  ");
        }
        self.open(s);
        if self.kids.is_empty() {
            s.push_str("/>\n");
            return;
        }
        s.push('>');
        if self.is_leaf() {
            for k in &self.kids {
                match k {
                    N::T(t) => s.push_str(&esc(t)),
                    N::Raw(t) => s.push_str(t),
                    N::E(_) => unreachable!(),
                }
            }
        } else {
            s.push('\n');
            for k in &self.kids {
                match k {
                    N::T(t) => s.push_str(&esc(t)),
                    N::Raw(t) => s.push_str(t),
                    N::E(x) => x.print_at(s, d + 1),
                }
            }
            for _ in 0..d {
                s.push_str("  ");
            }
        }
        s.push_str("</");
        s.push_str(&self.tag);
        s.push_str(">\n");
    }
    /// Canonical form used to compare two trees: the text of leaves trimmed, other text dropped
    pub fn canon(&self) -> X {
        let leaf = self.is_leaf();
        let mut attrs = self.attrs.clone();
        attrs.sort();
        let mut kids: Vec<N> = vec![];
        if leaf {
            let t = self.text().trim().to_string();
            if !t.is_empty() {
                kids.push(N::T(t));
            }
        } else {
            kids = self.elems().map(|e| N::E(e.canon())).collect();
        }
        X {
            tag: self.tag.clone(),
            attrs,
            kids,
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

// ------------------------------------------------------------------ layout noise

#[derive(Clone, Copy, Default)]
pub struct Noise {
    pub ws: bool,
    pub comments: bool,
    pub entities: bool,
    pub cdata: bool,
    pub pad: bool,
    pub shuffle: bool,
    pub unknown: bool,
    pub quotes: bool,
    pub bom: bool,
    pub noxmldecl: bool,
    pub crlf: bool,
    /// a name space of a vendor
    pub ns: bool,
}
impl Noise {
    pub fn gen(s: &mut Src) -> Noise {
        Noise {
            ws: s.flip(),
            comments: s.flip(),
            entities: s.flip(),
            cdata: s.flip(),
            pad: s.flip(),
            shuffle: s.flip(),
            unknown: s.flip(),
            quotes: s.flip(),
            bom: s.chance(1, 4),
            noxmldecl: s.chance(1, 3),
            crlf: s.chance(1, 4),
            ns: s.chance(1, 4),
        }
    }
}

fn ws(s: &mut Src, o: &mut String, n: Noise) {
    if n.ws {
        for _ in 0..s.below(4) {
            o.push_str(*s.pick(&[" ", "\n", "\t", "   ", "\n\n"]));
        }
    } else {
        o.push('\n');
    }
    if n.comments && s.chance(1, 6) {
        o.push_str(*s.pick(&[
            "<!-- a comment -->",
            "<!--<name>NOT_THIS</name>-->",
            "<?pi some data?>",
            "<!-- multi\nline -->",
        ]));
    }
}

fn noisy_text(s: &mut Src, t: &str, n: Noise) -> String {
    let mut o = String::new();
    if n.cdata && !t.contains("]]>") && s.chance(1, 4) {
        o.push_str("<![CDATA[");
        o.push_str(t);
        o.push_str("]]>");
        return o;
    }
    // a text may also be part plain, part CDATA
    let mut split = n.cdata && !t.contains("]]>") && s.chance(1, 4);
    for c in t.chars() {
        if split && s.chance(1, 6) {
            split = false;
            o.push_str("<![CDATA[");
            o.push(c);
            o.push_str("]]>");
            continue;
        }
        if n.entities && s.chance(1, 12) {
            if s.flip() {
                o.push_str(&format!("&#{};", c as u32));
            } else {
                o.push_str(&format!("&#x{:X};", c as u32));
            }
        } else {
            o.push_str(&match c {
                // quotes need no escape in text
                '"' | '\'' => c.to_string(),
                c => esc(&c.to_string()),
            });
        }
    }
    o
}

/// Tags of children whose relative order among themselves has meaning
fn ordered(tag: &str) -> u8 {
    match tag {
        "register" | "cluster" => 1,
        "peripheral" => 2,
        "field" => 3,
        "enumeratedValues" => 4,
        "enumeratedValue" => 5,
        "addressBlock" => 6,
        "interrupt" => 7,
        _ => 0,
    }
}

impl X {
    /// The same document in another layout
    pub fn print_noisy(&self, s: &mut Src, n: Noise) -> String {
        let mut o = String::new();
        if n.bom {
            o.push('\u{feff}');
        }
        if !n.noxmldecl {
            o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>");
        }
        if !n.noxmldecl || n.ws {
            o.push('\n');
        }
        if n.comments {
            o.push_str("<!-- head -->\n");
        }
        self.noisy_at(s, n, &mut o, true);
        if n.comments {
            o.push_str("\n<!-- tail -->\n");
        }
        if n.crlf {
            o = o.replace('\n', "\r\n");
        }
        o
    }
    fn noisy_at(&self, s: &mut Src, n: Noise, o: &mut String, root: bool) {
        o.push('<');
        o.push_str(&self.tag);
        let mut attrs: Vec<_> = self.attrs.iter().map(|(k, v)| (k, v)).collect();
        if n.shuffle && attrs.len() > 1 && s.flip() {
            attrs.reverse();
        }
        let vendor = [("xmlns:v".to_string(), "http://vendor".to_string()), ("v:derivedFrom".into(), "Nothing".into())];
        if n.ns && root {
            let i = s.idx(attrs.len() + 1);
            attrs.insert(i, (&vendor[0].0, &vendor[0].1));
        }
        if n.ns && s.chance(1, 10) {
            let i = s.idx(attrs.len() + 1);
            attrs.insert(i, (&vendor[1].0, &vendor[1].1));
        }
        for (k, v) in attrs {
            o.push_str(if n.ws && s.flip() { "\n  " } else { " " });
            o.push_str(k);
            o.push_str(if n.ws && s.flip() { " = " } else { "=" });
            let mut e = esc(v);
            if n.entities && s.chance(1, 4) {
                e = v.chars().map(|c| format!("&#x{:x};", c as u32)).collect();
            }
            if n.quotes && s.flip() && !v.contains('\'') {
                o.push('\'');
                o.push_str(&e);
                o.push('\'');
            } else {
                o.push('"');
                o.push_str(&e);
                o.push('"');
            }
        }
        if n.unknown && s.chance(1, 10) {
            o.push_str(*s.pick(&[
                " unknownAttribute=\"x\"",
                " derivedfrom=\"NOT_THIS\"",
                " DerivedFrom=\"NOT_THIS\"",
                " name=\"NOT_THIS\"",
                " derived=\"\"",
            ]));
        }
        if n.ws && s.chance(1, 8) {
            o.push_str(*s.pick(&[" ", "\n\t"]));
        }
        if self.kids.is_empty() {
            if s.flip() {
                o.push_str("/>");
            } else {
                o.push_str("></");
                o.push_str(&self.tag);
                o.push('>');
            }
            return;
        }
        o.push('>');
        if self.is_leaf() {
            if n.pad {
                o.push_str(*s.pick(&["", " ", "\n    ", "\t"]));
            }
            o.push_str(&noisy_text(s, &self.text(), n));
            if n.pad {
                o.push_str(*s.pick(&["", " ", "\n  ", "  \t"]));
            }
        } else {
            let mut kids: Vec<X> = self.elems().cloned().collect();
            if n.unknown && unknown_ok(&self.tag) && s.chance(1, 3) {
                let x = match s.below(5) {
                    3 => {
                        // like a known one, but not quite
                        let known: Vec<&str> = kids.iter().map(|k| k.tag.as_str()).collect();
                        let k = if known.is_empty() { "name" } else { *s.pick(&known) };
                        let t = match s.below(5) {
                            0 => k.to_uppercase(),
                            1 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
                            2 => format!("{k}s_"),
                            3 => format!("_{k}"),
                            _ => format!("{k}.{k}"),
                        };
                        match s.below(3) {
                            0 => X::leaf(&t, "1"),
                            1 => X::leaf(&t, "NOT_THIS"),
                            _ => X::new(&t),
                        }
                    }
                    4 => {
                        // known ones, but not here
                        let mut x = X::new(*s.pick(&["vendorExtensions", "x", "extension"]));
                        for k in &kids {
                            // (not the marks that P11 looks for)
                            if s.chance(1, 3) && !k.print().contains(" zz_mark") {
                                x.kids.push(N::E(k.clone()));
                            }
                        }
                        x.add("dimIncrement", "4");
                        x
                    }
                    0 => X::leaf("vendorSpecific", "some text"),
                    1 if n.ns && s.flip() => X::leaf("v:extension", "some text"),
                    1 => X::new("emptyExtension"),
                    _ => {
                        let mut x = X::new("vendorExtensions");
                        x.add("name", "NOT_A_NAME");
                        x.add("value", "0x123");
                        x
                    }
                };
                let i = s.idx(kids.len() + 1);
                kids.insert(i, x);
            }
            // a name for the C header, which the data model does not hold
            if n.unknown && self.tag == "enumeratedValues" && s.chance(1, 4) {
                let i = s.idx(kids.len() + 1);
                kids.insert(i, X::leaf("headerEnumName", "HEADER_ENUM"));
            }
            if n.shuffle {
                kids = shuffle(s, kids);
            }
            for k in &kids {
                ws(s, o, n);
                k.noisy_at(s, n, o, false);
            }
            ws(s, o, n);
        }
        o.push_str("</");
        o.push_str(&self.tag);
        if n.ws && s.chance(1, 8) {
            o.push_str(*s.pick(&[" ", "\n"]));
        }
        o.push('>');
    }
}

/// elements whose content is open to elements the parser does not know
fn unknown_ok(tag: &str) -> bool {
    matches!(
        tag,
        "device" | "cpu" | "peripheral" | "register" | "cluster" | "field" | "interrupt"
            | "addressBlock" | "enumeratedValue"
    )
}

/// A random permutation keeping the relative order of children whose order has meaning
pub fn shuffle(s: &mut Src, kids: Vec<X>) -> Vec<X> {
    let mut keys: Vec<usize> = (0..kids.len()).collect();
    for i in (1..keys.len()).rev() {
        let j = i - s.idx(i + 1);
        keys.swap(i, j);
    }
    // positions drawn for each ordered class are handed out in document order
    let mut out: Vec<Option<X>> = vec![None; kids.len()];
    for class in 0..8u8 {
        let members: Vec<usize> = (0..kids.len())
            .filter(|&i| ordered(&kids[i].tag) == class)
            .collect();
        let mut pos: Vec<usize> = members.iter().map(|&i| keys[i]).collect();
        if class != 0 {
            pos.sort();
        }
        for (m, p) in members.into_iter().zip(pos) {
            out[p] = Some(kids[m].clone());
        }
    }
    out.into_iter().flatten().collect()
}

// ------------------------------------------------------------------ reader

/// A small strict XML reader for the encoder's output. It accepts well-formed documents made of a
/// declaration, elements, attributes, text, comments and CDATA, and rejects everything else.
pub fn read(text: &str) -> Result<X, String> {
    let mut r = R {
        b: text.as_bytes(),
        t: text,
        i: 0,
    };
    if r.t.starts_with('\u{feff}') {
        r.i = 3;
    }
    if r.at("<?xml") {
        r.skip_past("?>")?;
    }
    r.misc()?;
    let x = r.element()?;
    r.misc()?;
    if r.i != r.b.len() {
        return Err(format!("content after the root element at byte {}", r.i));
    }
    Ok(x)
}
struct R<'a> {
    b: &'a [u8],
    t: &'a str,
    i: usize,
}
impl R<'_> {
    fn at(&self, p: &str) -> bool {
        self.t[self.i..].starts_with(p)
    }
    fn skip_past(&mut self, p: &str) -> Result<(), String> {
        match self.t[self.i..].find(p) {
            Some(k) => {
                self.i += k + p.len();
                Ok(())
            }
            None => Err(format!("`{p}` missing")),
        }
    }
    fn sp(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.sp();
            if self.at("<!--") {
                self.skip_past("-->")?;
            } else if self.at("<?") {
                self.skip_past("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let s = self.i;
        while self.i < self.b.len()
            && (self.b[self.i].is_ascii_alphanumeric() || b"_:-.".contains(&self.b[self.i]))
        {
            self.i += 1;
        }
        if self.i == s || self.b[s].is_ascii_digit() {
            return Err(format!("name expected at byte {s}"));
        }
        Ok(self.t[s..self.i].to_string())
    }
    fn unesc(&self, s: &str) -> Result<String, String> {
        let mut o = String::new();
        let mut rest = s;
        while let Some(k) = rest.find('&') {
            o.push_str(&rest[..k]);
            rest = &rest[k + 1..];
            let e = rest.find(';').ok_or("unterminated entity")?;
            let name = &rest[..e];
            rest = &rest[e + 1..];
            o.push(match name {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                _ => {
                    let cp = if let Some(h) = name.strip_prefix("#x") {
                        u32::from_str_radix(h, 16).ok()
                    } else {
                        name.strip_prefix('#').and_then(|d| d.parse().ok())
                    };
                    cp.and_then(char::from_u32)
                        .ok_or_else(|| format!("bad entity &{name};"))?
                }
            });
        }
        o.push_str(rest);
        for c in o.chars() {
            if (c < ' ' && !matches!(c, '\n' | '\t' | '\r')) || matches!(c, '\u{fffe}' | '\u{ffff}')
            {
                return Err(format!("character {:?} is not allowed in XML", c));
            }
        }
        Ok(o)
    }
    fn element(&mut self) -> Result<X, String> {
        if !self.at("<") {
            return Err(format!("element expected at byte {}", self.i));
        }
        self.i += 1;
        let tag = self.name()?;
        let mut x = X::new(&tag);
        loop {
            let had_space = self.i < self.b.len() && self.b[self.i].is_ascii_whitespace();
            self.sp();
            if self.at("/>") {
                self.i += 2;
                return Ok(x);
            }
            if self.at(">") {
                self.i += 1;
                break;
            }
            if !had_space {
                return Err(format!("space expected in <{tag}> at byte {}", self.i));
            }
            let k = self.name()?;
            self.sp();
            if !self.at("=") {
                return Err("= expected".into());
            }
            self.i += 1;
            self.sp();
            let q = *self.b.get(self.i).ok_or("end of input")?;
            if q != b'"' && q != b'\'' {
                return Err("quote expected".into());
            }
            self.i += 1;
            let s = self.i;
            while self.i < self.b.len() && self.b[self.i] != q {
                if self.b[self.i] == b'<' {
                    return Err("< in attribute".into());
                }
                self.i += 1;
            }
            let v = self.unesc(&self.t[s..self.i])?;
            self.i += 1;
            if x.get_attr(&k).is_some() {
                return Err(format!("attribute {k} repeated in <{tag}>"));
            }
            x.attrs.push((k, v));
        }
        loop {
            if self.i >= self.b.len() {
                return Err(format!("<{tag}> not closed"));
            }
            if self.at("</") {
                self.i += 2;
                let t = self.name()?;
                if t != tag {
                    return Err(format!("</{t}> closes <{tag}>"));
                }
                self.sp();
                if !self.at(">") {
                    return Err("> expected".into());
                }
                self.i += 1;
                return Ok(x);
            }
            if self.at("<!--") {
                self.skip_past("-->")?;
            } else if self.at("<![CDATA[") {
                let s = self.i + 9;
                self.skip_past("]]>")?;
                x.kids.push(N::T(self.t[s..self.i - 3].to_string()));
            } else if self.at("<?") {
                self.skip_past("?>")?;
            } else if self.at("<") {
                let e = self.element()?;
                x.kids.push(N::E(e));
            } else {
                let s = self.i;
                while self.i < self.b.len() && self.b[self.i] != b'<' {
                    self.i += 1;
                }
                let raw = &self.t[s..self.i];
                if raw.contains("]]>") {
                    return Err("]]> in text".into());
                }
                let t = self.unesc(raw)?;
                x.kids.push(N::T(t));
            }
        }
    }
}
