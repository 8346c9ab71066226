//! The reference model of the supported device-tree source grammar: a scannerless recogniser that
//! works on characters and knows nothing of the implementation's tokens. For every text it says
//! whether the text must be accepted, must be rejected or is left unspecified, and what tree,
//! ranges and lints an accepted text has.
use crate::tree::*;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    Accept,
    Reject(String),
    Unspec(String),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum At {
    Exact(Sp),
    OneOf(Vec<Sp>),
    Anywhere,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Lint {
    pub kind: &'static str,
    pub sev: &'static str,
    pub at: At,
    /// may be missing
    pub optional: bool,
}

impl Lint {
    pub fn error(kind: &'static str, sp: Sp) -> Lint {
        Lint { kind, sev: "error", at: At::Exact(sp), optional: false }
    }
    pub fn warning(kind: &'static str, sp: Sp) -> Lint {
        Lint { kind, sev: "warning", at: At::Exact(sp), optional: false }
    }
    pub fn maybe(mut self) -> Lint {
        self.optional = true;
        self
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ref {
    Label(String),
    Path(Vec<String>),
}

/// a reference with what is known of it
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RefAt {
    pub r: Ref,
    pub sp: Sp,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub verdict: Verdict,
    pub elems: Vec<Elem>,
    /// syntactic lints: names, literals, placement within nodes
    pub lints: Vec<Lint>,
    /// references in property values, in order
    pub refs: Vec<RefAt>,
    /// references that extend, delete or omit, by span
    pub heads: Vec<RefAt>,
    /// labels within property values
    pub vlabels: Vec<String>,
    /// the values of the literals are specified
    pub values_known: bool,
    /// the ranges are specified
    pub spans_known: bool,
    /// other admissible ranges
    pub alt: HashMap<Sp, Sp>,
    /// end of the document
    pub eof: P,
    /// ends of all lines
    pub lines: Vec<u32>,
    /// ranges of the cells that are references, labels, ... by construct: used for cursor queries
    pub labels: Vec<T>,
    /// ranges of the number literals and byte groups
    pub literals: Vec<T>,
    /// terminating semicolons: index of the character, what it terminates
    /// (n: node, v: property with value, p: property without value, d: directive), end of the token before
    pub semis: Vec<(usize, char, P)>,
}

enum Stop {
    Reject(String),
    Unspec(String),
}
type R<X> = Result<X, Stop>;

fn rej<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Reject(s.into()))
}
fn uns<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unspec(s.into()))
}

pub struct Parse {
    c: Vec<char>,
    pos: Vec<P>,
    i: usize,
    depth: usize,
    /// where the last token ends, and where the last gap ends
    tok_end: usize,
    ws_exit: usize,
    d: Doc,
}

pub fn is_name(c: char) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, ',' | '.' | '_' | '+' | '?' | '#' | '-')
}

pub fn positions(text: &str) -> (Vec<char>, Vec<P>, Vec<u32>) {
    let c: Vec<char> = text.chars().collect();
    let mut pos = Vec::with_capacity(c.len() + 1);
    let mut lines = vec![];
    let (mut l, mut k) = (0, 0);
    for &ch in &c {
        pos.push((l, k));
        if ch == '\n' {
            lines.push(k);
            l += 1;
            k = 0;
        } else {
            k += ch.len_utf16() as u32;
        }
    }
    pos.push((l, k));
    lines.push(k);
    (c, pos, lines)
}

const DIRECTIVES: [&str; 8] = [
    "/dts-v1/",
    "/plugin/",
    "/memreserve/",
    "/include/",
    "/delete-node/",
    "/delete-property/",
    "/omit-if-no-ref/",
    "/bits/",
];

pub fn parse(text: &str) -> Doc {
    let (c, pos, lines) = positions(text);
    let eof = *pos.last().unwrap();
    let lone_cr = c.iter().enumerate().any(|(i, ch)| *ch == '\r' && c.get(i + 1) != Some(&'\n'));
    let d = Doc {
        verdict: Verdict::Accept,
        elems: vec![],
        lints: vec![],
        refs: vec![],
        heads: vec![],
        vlabels: vec![],
        values_known: true,
        spans_known: !lone_cr,
        alt: HashMap::new(),
        eof,
        lines,
        labels: vec![],
        literals: vec![],
        semis: vec![],
    };
    let mut p = Parse { c, pos, i: 0, depth: 0, tok_end: 0, ws_exit: 0, d };
    if text.starts_with('\u{feff}') {
        p.d.verdict = Verdict::Unspec("byte order mark".into());
        return p.d;
    }
    if let Err(e) = p.file() {
        p.d.verdict = match e {
            Stop::Reject(s) => Verdict::Reject(s),
            Stop::Unspec(s) => Verdict::Unspec(s),
        };
    }
    p.d
}

/// What the name rules say about a name.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Breach {
    None,
    Char(usize),
    Empty,
    Start,
    Long,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum NameKind {
    Label,
    Node,
    Unit,
    Property,
}
pub fn breach(name: &str, kind: NameKind) -> Breach {
    let legal = |c: char| match kind {
        NameKind::Label => c.is_ascii_alphanumeric() || c == '_',
        NameKind::Node | NameKind::Unit => c.is_ascii_alphanumeric() || matches!(c, ',' | '.' | '_' | '+' | '-'),
        NameKind::Property => is_name(c),
    };
    if let Some(k) = name.chars().position(|c| !legal(c)) {
        return Breach::Char(k);
    }
    let Some(first) = name.chars().next() else { return Breach::Empty };
    let start = match kind {
        NameKind::Label => first.is_ascii_alphabetic() || first == '_',
        NameKind::Node => first.is_ascii_alphabetic(),
        NameKind::Unit | NameKind::Property => true,
    };
    if !start {
        return Breach::Start;
    }
    if name.chars().count() > 31 {
        return Breach::Long;
    }
    Breach::None
}

impl Parse {
    fn at(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn p(&self, i: usize) -> P {
        self.pos[i]
    }
    fn sp(&self, a: usize, b: usize) -> Sp {
        Sp::new(self.p(a), self.p(b))
    }
    fn starts(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, ch)| self.c.get(self.i + k) == Some(&ch))
    }
    fn text(&self, a: usize, b: usize) -> String {
        self.c[a..b].iter().collect()
    }

    fn ws(&mut self) -> R<()> {
        if self.i != self.ws_exit {
            self.tok_end = self.i;
        }
        let r = self.ws_inner();
        self.ws_exit = self.i;
        r
    }

    fn ws_inner(&mut self) -> R<()> {
        loop {
            match self.at() {
                Some(' ' | '\t' | '\n' | '\r' | '\x0c') => self.i += 1,
                Some('\x0b') => return uns("vertical tab"),
                Some('/') if self.starts("//") => {
                    while self.at().is_some_and(|c| c != '\n') {
                        self.i += 1;
                    }
                }
                Some('/') if self.starts("/*") => {
                    self.i += 2;
                    while !self.starts("*/") {
                        if self.at().is_none() {
                            return rej("unterminated comment");
                        }
                        self.i += 1;
                    }
                    self.i += 2;
                }
                _ => return Ok(()),
            }
        }
    }

    /// known directive at the cursor
    fn directive(&self) -> Option<&'static str> {
        DIRECTIVES.iter().copied().find(|d| self.starts(d))
    }

    fn expect(&mut self, ch: char) -> R<usize> {
        self.ws()?;
        if self.at() == Some(ch) {
            self.i += 1;
            Ok(self.i)
        } else {
            rej(format!("expected {ch:?} at {:?}", self.p(self.i)))
        }
    }

    fn semi(&mut self, what: char) -> R<usize> {
        self.ws()?;
        let before = self.p(self.tok_end);
        let e = self.expect(';')?;
        self.d.semis.push((e - 1, what, before));
        Ok(e)
    }

    fn run(&mut self, f: impl Fn(char) -> bool) -> usize {
        let a = self.i;
        while self.at().is_some_and(&f) {
            self.i += 1;
        }
        a
    }

    fn name_lint(&mut self, name: &str, kind: NameKind, a: usize, whole: Sp, pathref: bool) {
        let l = match breach(name, kind) {
            Breach::None => return,
            Breach::Char(k) => {
                let at = if pathref { whole } else { self.sp(a + k, a + k + 1) };
                Lint::error("illegal_char", at)
            }
            Breach::Empty => Lint::error("expected_name", whole),
            Breach::Start => Lint::error("illegal_start", whole),
            Breach::Long => Lint::warning("name_too_long", whole),
        };
        let l = if pathref || l.kind == "illegal_char" {
            l
        } else {
            // the name itself: the whole token, or the part of it that breaks the rule
            let n = name.chars().count();
            let part = self.sp(a, a + n);
            if part == whole {
                l
            } else {
                Lint { at: At::OneOf(vec![whole, part]), ..l }
            }
        };
        self.d.lints.push(l);
    }

    fn node_name_lints(&mut self, full: &str, a: usize, whole: Sp, pathref: bool) {
        if full == "__symbols__" {
            return;
        }
        match full.split_once('@') {
            None => self.name_lint(full, NameKind::Node, a, whole, pathref),
            Some((n, u)) => {
                self.name_lint(n, NameKind::Node, a, whole, pathref);
                let ua = a + n.chars().count() + 1;
                // the range of a unit address may be given with or without the node name
                if !pathref {
                    if let Some(l) = match breach(u, NameKind::Unit) {
                        Breach::None => None,
                        Breach::Char(k) => Some(Lint::error("illegal_char", self.sp(ua + k, ua + k + 1))),
                        b => {
                            let at = At::OneOf(vec![Sp::new(self.p(ua), whole.e), whole]);
                            Some(match b {
                                Breach::Empty => Lint { kind: "expected_name", sev: "error", at, optional: false },
                                Breach::Long => Lint { kind: "name_too_long", sev: "warning", at, optional: false },
                                _ => unreachable!(),
                            })
                        }
                    } {
                        self.d.lints.push(l);
                    }
                } else {
                    self.name_lint(u, NameKind::Unit, ua, whole, true);
                }
            }
        }
    }

    fn file(&mut self) -> R<()> {
        loop {
            self.ws()?;
            let a = self.i;
            let Some(ch) = self.at() else { return Ok(()) };
            match ch {
                '/' => match self.directive() {
                    Some(d) => {
                        self.i += d.len();
                        let tok = self.sp(a, self.i);
                        match d {
                            "/dts-v1/" | "/plugin/" => {
                                self.semi('d')?;
                                self.d.elems.push(if d == "/plugin/" { Elem::Plugin(tok) } else { Elem::Header(tok) });
                            }
                            "/memreserve/" => {
                                let x = self.mem_number()?;
                                let y = self.mem_number()?;
                                self.semi('d')?;
                                self.d.elems.push(Elem::Memreserve(format!("/memreserve/ 0x{x:x} 0x{y:x};")));
                            }
                            "/include/" => {
                                self.ws()?;
                                let s = self.i;
                                if self.at() != Some('"') {
                                    return rej("include without file name");
                                }
                                let known = self.d.values_known;
                                let t = self.string()?;
                                if known != self.d.values_known {
                                    return uns("escape in an include");
                                }
                                let name = T { t, sp: self.sp(s, self.i) };
                                self.d.elems.push(Elem::Include { sp: self.sp(a, self.i), name });
                                self.ws()?;
                                if self.at() == Some(';') {
                                    let l = Lint::error("parser_error", self.sp(self.i, self.i + 1));
                                    self.d.lints.push(l);
                                    self.i += 1;
                                }
                            }
                            "/delete-node/" | "/omit-if-no-ref/" => {
                                self.ws()?;
                                let (r, _) = self.reference(true)?;
                                self.semi('d')?;
                                self.d.elems.push(if d == "/delete-node/" {
                                    Elem::Delete { tok, r }
                                } else {
                                    Elem::Omit { tok, r }
                                });
                            }
                            _ => return rej("directive not allowed here"),
                        }
                    }
                    None if self.c.get(a + 1).is_some_and(|c| c.is_ascii_alphabetic()) => {
                        return rej("unknown directive")
                    }
                    None => {
                        self.i += 1;
                        let name = T { t: "/".into(), sp: self.sp(a, a + 1) };
                        let (items, e) = self.body()?;
                        self.d.elems.push(Elem::Root(Node {
                            omit: None,
                            label: None,
                            name,
                            sp: self.sp(a, e),
                            items,
                        }));
                    }
                },
                '&' => {
                    let (r, _) = self.reference(true)?;
                    let (items, e) = self.body()?;
                    self.d.elems.push(Elem::Ext { r, sp: self.sp(a, e), items });
                }
                c if is_name(c) => {
                    self.run(is_name);
                    if self.text(a, self.i) == "#include" {
                        return uns("C preprocessor");
                    }
                    if self.at() == Some(':') {
                        return uns("label at top level");
                    }
                    return rej("name at top level");
                }
                _ => return rej("unexpected character at top level"),
            }
        }
    }

    /// `{ ... };` the index after the semicolon
    fn body(&mut self) -> R<(Vec<Item>, usize)> {
        self.depth += 1;
        if self.depth > 55 {
            return uns("deep nesting");
        }
        self.expect('{')?;
        let mut items = vec![];
        let mut node_seen = false;
        loop {
            self.ws()?;
            let Some(ch) = self.at() else { return rej("end of file within a node") };
            if ch == '}' {
                self.i += 1;
                let e = self.semi('n')?;
                self.depth -= 1;
                return Ok((items, e));
            }
            let a = self.i;
            let mut omit = None;
            if ch == '/' {
                match self.directive() {
                    Some("/delete-node/") => {
                        self.i += 13;
                        let tok = self.sp(a, self.i);
                        self.ws()?;
                        let (s, full, _) = self.name()?;
                        let sp = self.sp(s, self.i);
                        self.node_name_lints(&full, s, sp, false);
                        self.semi('d')?;
                        items.push(Item::DelNode { tok, name: T { t: full, sp } });
                        continue;
                    }
                    Some("/delete-property/") => {
                        self.i += 17;
                        let tok = self.sp(a, self.i);
                        self.ws()?;
                        let (s, full, _) = self.name()?;
                        let sp = self.sp(s, self.i);
                        self.name_lint(&full, NameKind::Property, s, sp, false);
                        self.semi('d')?;
                        items.push(Item::DelProp { tok, name: T { t: full, sp } });
                        continue;
                    }
                    Some("/omit-if-no-ref/") => {
                        self.i += 16;
                        omit = Some(self.sp(a, self.i));
                        self.ws()?;
                        if self.starts("/omit-if-no-ref/") {
                            return rej("repeated omit marker");
                        }
                    }
                    Some("/include/") => return uns("include within a node"),
                    _ => return rej("directive not allowed within a node"),
                }
            }
            // label and name
            let (mut s, mut full, mut has_at) = self.name()?;
            let mut label = None;
            let start = s;
            if !has_at && self.at() == Some(':') {
                self.i += 1;
                let sp = self.sp(s, self.i);
                self.name_lint(&full, NameKind::Label, s, sp, false);
                let t = T { t: full, sp };
                self.d.labels.push(t.clone());
                label = Some(t);
                self.ws()?;
                if self.starts("/omit-if-no-ref/") {
                    return uns("label before omit marker");
                }
                (s, full, has_at) = self.name()?;
                if !has_at && self.at() == Some(':') {
                    return uns("more than one label");
                }
            }
            let _ = has_at;
            let name = T { sp: self.sp(s, self.i), t: full };
            self.ws()?;
            match self.at() {
                Some('{') => {
                    let sp = name.sp;
                    self.node_name_lints(&name.t, s, sp, false);
                    node_seen = true;
                    let (sub, e) = self.body()?;
                    items.push(Item::Node(Node { omit, label, name, sp: self.sp(start, e), items: sub }));
                }
                Some(c @ ('=' | ';')) => {
                    let sp = name.sp;
                    self.name_lint(&name.t, NameKind::Property, s, sp, false);
                    self.i += 1;
                    let mut vals = vec![];
                    let mut e = self.i;
                    if c == '=' {
                        let is_string = self.values(&mut vals)?;
                        e = self.semi('v')?;
                        if name.t == "compatible" {
                            for (v, is_string) in vals.iter().zip(is_string) {
                                if !is_string {
                                    self.d.lints.push(Lint::warning("non_string_in_compatible", v.sp));
                                }
                            }
                        }
                    }
                    let sp = self.sp(start, e);
                    if node_seen {
                        self.d.lints.push(Lint::error("property_after_node", sp));
                    }
                    if let Some(o) = omit {
                        self.d.lints.push(Lint::error("incorrect_directive", o));
                    }
                    items.push(Item::Prop(Prop { label, name, sp, vals }));
                }
                _ => return rej("name followed by neither '{', '=' nor ';'"),
            }
        }
    }

    /// start, full text, has unit address
    fn name(&mut self) -> R<(usize, String, bool)> {
        let s = self.run(is_name);
        if s == self.i {
            return rej("expected a name");
        }
        let mut unit = false;
        if self.at() == Some('@') {
            unit = true;
            self.i += 1;
            self.run(is_name);
        }
        Ok((s, self.text(s, self.i), unit))
    }

    /// a label within a value, if there is one
    fn value_label(&mut self) -> R<bool> {
        let Some(ch) = self.at() else { return Ok(false) };
        if ch == ',' || ch.is_ascii_digit() || !is_name(ch) {
            return Ok(false);
        }
        let s = self.i;
        self.run(is_name);
        if self.at() != Some(':') {
            self.i = s;
            return Ok(false);
        }
        let name = self.text(s, self.i);
        self.i += 1;
        self.name_lint(&name, NameKind::Label, s, self.sp(s, self.i), false);
        self.d.vlabels.push(name);
        self.ws()?;
        let t = self.i;
        self.run(is_name);
        let again = t < self.i && self.at() == Some(':');
        self.i = t;
        if again {
            return uns("more than one label");
        }
        Ok(true)
    }

    fn values(&mut self, vals: &mut Vec<T>) -> R<Vec<bool>> {
        let mut is_string = vec![];
        loop {
            self.ws()?;
            self.value_label()?;
            let (v, s) = self.value()?;
            vals.push(v);
            is_string.push(s);
            self.ws()?;
            self.value_label()?;
            self.ws()?;
            if self.at() == Some(',') {
                self.i += 1;
            } else {
                return Ok(is_string);
            }
        }
    }

    fn value(&mut self) -> R<(T, bool)> {
        let mut a = self.i;
        match self.at() {
            Some('"') => {
                let s = self.string()?;
                Ok((T { t: format!("\"{s}\""), sp: self.sp(a, self.i) }, true))
            }
            Some('&') => {
                let (r, _) = self.reference(false)?;
                Ok((r, false))
            }
            Some('<') => {
                let t = self.cells(32)?;
                Ok((T { t, sp: self.sp(a, self.i) }, false))
            }
            Some('[') => {
                let t = self.bytes()?;
                Ok((T { t, sp: self.sp(a, self.i) }, false))
            }
            Some('/') if self.starts("/bits/") => {
                let start = a;
                self.i += 6;
                self.ws()?;
                let s = self.run(|c| c.is_ascii_alphanumeric());
                let w = self.text(s, self.i);
                if w.is_empty() || !w.starts_with(|c: char| c.is_ascii_digit()) {
                    return if self.at() == Some('(') { uns("width expression") } else { rej("bits without width") };
                }
                let sp = self.sp(s, self.i);
                let bits = match literal(&w, 32) {
                    Lit::Value(b @ (8 | 16 | 32 | 64)) => b as u32,
                    Lit::Unspec => return uns("width of another dialect"),
                    _ => {
                        self.d.lints.push(Lint::error("int_error", sp));
                        self.d.values_known = false;
                        // any width is as good
                        0
                    }
                };
                self.ws()?;
                a = self.i;
                match self.at() {
                    Some('<') => {
                        let t = self.cells(bits)?;
                        let sp = self.sp(a, self.i);
                        self.d.alt.insert(self.sp(start, self.i), sp);
                        Ok((T { t, sp }, false))
                    }
                    Some('"' | '[' | '&') => uns("bits prefix of something that is not an array"),
                    _ => rej("bits without array"),
                }
            }
            Some('/') if self.starts("/incbin/") => uns("incbin"),
            _ => rej("expected a value"),
        }
    }

    fn string(&mut self) -> R<String> {
        self.i += 1;
        let mut s = String::new();
        loop {
            let Some(ch) = self.at() else { return rej("unterminated string") };
            self.i += 1;
            match ch {
                '"' => return Ok(s),
                '\\' => {
                    let Some(e) = self.at() else { return rej("unterminated string") };
                    self.i += 1;
                    if e != '"' && e != '\\' {
                        self.d.values_known = false;
                    }
                    s.push(e);
                }
                c => s.push(c),
            }
        }
    }

    fn cells(&mut self, bits: u32) -> R<String> {
        self.i += 1;
        let mut out = vec![];
        loop {
            self.ws()?;
            self.value_label()?;
            self.ws()?;
            match self.at() {
                None => return rej("end of file within a cell list"),
                Some('>') => {
                    self.i += 1;
                    return Ok(format!("<{}>", out.join(" ")));
                }
                Some('&') => {
                    if bits != 32 && bits != 0 {
                        return uns("reference in an array of other width");
                    }
                    let (r, _) = self.reference(false)?;
                    out.push(r.t);
                }
                Some('(') => {
                    self.expression()?;
                    out.push("(not implemented)".into());
                }
                Some('\'') => return uns("character literal"),
                Some(c) if c.is_ascii_digit() => {
                    let v = self.number(bits)?;
                    out.push(format!("0x{v:x}"));
                }
                _ => return rej("not a cell"),
            }
        }
    }

    fn expression(&mut self) -> R<()> {
        let mut depth = 0;
        loop {
            self.ws()?;
            let Some(ch) = self.at() else { return rej("unbalanced parentheses") };
            match ch {
                '(' => depth += 1,
                ')' => depth -= 1,
                '/' if self.c.get(self.i + 1).is_some_and(|c| c.is_ascii_digit() || matches!(c, ' ' | '(' | '\n')) => {}
                '+' | '-' | '*' | '<' | '>' | '=' | '!' | '|' | '^' | '%' | '~' | '_' | '&' | ':' | '?' | ',' => {}
                c if c.is_ascii_alphanumeric() => {}
                _ => {
                    let close = self.c[self.i..].iter().filter(|c| **c == ')').count();
                    return if close < depth { rej("unbalanced parentheses") } else { uns("expression") };
                }
            }
            self.i += 1;
            if depth == 0 {
                return Ok(());
            }
        }
    }

    fn number(&mut self, bits: u32) -> R<u64> {
        let s = self.run(|c| c.is_ascii_alphanumeric());
        if self.at() == Some(':') {
            return uns("literal glued to a label");
        }
        let t = self.text(s, self.i);
        let sp = self.sp(s, self.i);
        self.d.literals.push(T { t: t.clone(), sp });
        if bits == 0 && !matches!(literal(&t, 8), Lit::Value(_)) {
            return uns("literal of unknown width");
        }
        match literal(&t, if bits == 0 { 8 } else { bits }) {
            Lit::Value(v) => Ok(v),
            Lit::Bad => {
                self.d.lints.push(Lint::error("int_error", sp));
                self.d.values_known = false;
                Ok(0)
            }
            Lit::Unspec => uns("literal of another dialect"),
        }
    }

    fn mem_number(&mut self) -> R<u64> {
        self.ws()?;
        match self.at() {
            Some(c) if c.is_ascii_digit() => self.number(64),
            Some('(' | '\'') => uns("memory reservation with an expression"),
            _ => rej("memory reservation without number"),
        }
    }

    fn bytes(&mut self) -> R<String> {
        self.i += 1;
        let mut out = vec![];
        loop {
            self.ws()?;
            self.value_label()?;
            self.ws()?;
            match self.at() {
                None => return rej("end of file within a byte string"),
                Some(']') => {
                    self.i += 1;
                    return Ok(format!("[{}]", out.join(" ")));
                }
                Some(c) if c.is_ascii_alphanumeric() => {
                    let s = self.run(|c| c.is_ascii_alphanumeric());
                    if self.at() == Some(':') {
                        return uns("literal glued to a label");
                    }
                    let t = self.text(s, self.i);
                    let sp = self.sp(s, self.i);
                    self.d.literals.push(T { t: t.clone(), sp });
                    let odd = t.len() % 2 != 0;
                    let bad = t.chars().any(|c| !c.is_ascii_hexdigit());
                    if odd || bad {
                        // a group that is both may be reported for either reason
                        let kind = match (odd, bad) {
                            (true, true) => "odd_number_of_bytestring_elements|int_error",
                            (true, _) => "odd_number_of_bytestring_elements",
                            _ => "int_error",
                        };
                        self.d.lints.push(Lint::error(kind, sp));
                        self.d.values_known = false;
                    }
                    out.push(t.to_lowercase());
                }
                _ => return rej("not a byte"),
            }
        }
    }

    fn reference(&mut self, head: bool) -> R<(T, Ref)> {
        let a = self.i;
        if self.at() != Some('&') {
            return rej("expected a reference");
        }
        self.i += 1;
        let r;
        if self.at() == Some('{') {
            self.i += 1;
            let s = self.run(|c| c != '}');
            if self.at().is_none() {
                return rej("unterminated path reference");
            }
            let t = self.text(s, self.i);
            self.i += 1;
            let sp = self.sp(a, self.i);
            if t.is_empty() {
                self.d.lints.push(Lint::error("path_cannot_be_empty", sp));
                r = Ref::Path(vec![]);
            } else {
                if !t.starts_with('/') {
                    return uns("path without leading slash");
                }
                let comps: Vec<String> =
                    if t == "/" { vec![] } else { t[1..].split('/').map(|s| s.to_string()).collect() };
                if comps.iter().any(|c| c.is_empty()) {
                    return uns("path with empty component");
                }
                for c in &comps {
                    self.node_name_lints(c, 0, sp, true);
                }
                r = Ref::Path(comps);
            }
        } else {
            let s = self.run(|c| c.is_ascii_alphanumeric() || c == '_');
            let t = self.text(s, self.i);
            if !t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
                return rej("reference without label");
            }
            let sp = self.sp(a, self.i);
            if t.len() > 31 {
                self.d.lints.push(Lint {
                    kind: "name_too_long",
                    sev: "warning",
                    at: At::OneOf(vec![sp, self.sp(s, self.i)]),
                    optional: false,
                });
            }
            r = Ref::Label(t);
        }
        let sp = self.sp(a, self.i);
        let x = RefAt { r: r.clone(), sp };
        if head {
            self.d.heads.push(x);
        } else {
            self.d.refs.push(x);
        }
        Ok((T { t: ref_text(&r), sp }, r))
    }
}

pub fn ref_text(r: &Ref) -> String {
    match r {
        Ref::Label(l) => format!("&{l}"),
        Ref::Path(p) if p.is_empty() => "&{/}".into(),
        Ref::Path(p) => format!("&{{/{}}}", p.join("/")),
    }
}

pub enum Lit {
    Value(u64),
    Bad,
    Unspec,
}

/// the value of an integer literal that must fit into a number of bits
pub fn literal(t: &str, bits: u32) -> Lit {
    fn digits(t: &str, radix: u32, max: u128) -> Option<u128> {
        if t.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for c in t.chars() {
            v = v * radix as u128 + c.to_digit(radix)? as u128;
            if v > max {
                return None;
            }
        }
        Some(v)
    }
    let max = (1u128 << bits) - 1;
    let of = |t: &str, max: u128| {
        if let Some(h) = t.strip_prefix("0x") {
            digits(h, 16, max)
        } else if t.len() > 1 && t.starts_with('0') {
            digits(&t[1..], 8, max)
        } else {
            digits(t, 10, max)
        }
    };
    if let Some(v) = of(t, max) {
        return Lit::Value(v as u64);
    }
    if t.starts_with("0X") {
        return Lit::Unspec;
    }
    let stem = t.trim_end_matches(['u', 'U', 'l', 'L']);
    if stem.len() < t.len() && of(stem, u64::MAX as u128).is_some() {
        return Lit::Unspec;
    }
    Lit::Bad
}
