//! The reference model of a project: which files are reached through includes, what each of them
//! defines, and which diagnostics each of them must have.
use crate::refparse::*;
use crate::sut::D;
use crate::tree::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FT {
    Source,
    Include,
    Overlay,
    Other,
}

pub fn ft(path: &Path) -> FT {
    match path.extension().and_then(|e| e.to_str()) {
        Some("dts") => FT::Source,
        Some("dtsi") => FT::Include,
        Some("dtso" | "overlay") => FT::Overlay,
        _ => FT::Other,
    }
}

pub type Def = (PathBuf, Sp);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Target {
    Node(Vec<String>),
    Prop,
    Unknown,
}

#[derive(Clone, Default, Debug)]
pub struct Env {
    pub labels: BTreeMap<String, BTreeSet<Target>>,
    pub nodes: BTreeMap<Vec<String>, BTreeSet<Def>>,
    pub tainted: BTreeSet<String>,
    pub deleted: BTreeSet<Vec<String>>,
    pub vlabels: BTreeSet<String>,
    /// something unknown was contributed
    pub any: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    /// defined; the declarations of the node, if it is a node and known
    Yes(Option<BTreeSet<Def>>),
    No,
    Unknown,
}

impl Env {
    fn gone(&self, path: &[String]) -> bool {
        self.deleted.iter().any(|d| path.starts_with(d))
    }

    /// where the children of a node that is extended belong
    fn place(&self, r: &Ref) -> Option<Vec<String>> {
        match r {
            Ref::Label(l) => {
                let t = self.labels.get(l)?;
                match t.iter().next() {
                    Some(Target::Node(p)) if t.len() == 1 && !self.gone(p) => Some(p.clone()),
                    _ => None,
                }
            }
            Ref::Path(p) => (self.nodes.contains_key(p) && !self.gone(p)).then(|| p.clone()),
        }
    }

    pub fn resolve(&self, r: &Ref) -> Res {
        match r {
            Ref::Label(l) => match self.labels.get(l) {
                Some(ts) => {
                    if ts.iter().any(|t| matches!(t, Target::Node(p) if self.gone(p))) {
                        return Res::Unknown;
                    }
                    match ts.iter().next() {
                        Some(Target::Node(p)) if ts.len() == 1 => Res::Yes(self.nodes.get(p).cloned()),
                        _ => Res::Yes(None),
                    }
                }
                None if self.any || self.vlabels.contains(l) => Res::Unknown,
                None => Res::No,
            },
            Ref::Path(p) => {
                if let Some(d) = self.nodes.get(p) {
                    return if self.gone(p) { Res::Unknown } else { Res::Yes(Some(d.clone())) };
                }
                let loose = |a: &String, b: &String| a == b || b.split_once('@').is_some_and(|(n, _)| n == a);
                if self.any
                    || p.is_empty()
                    || self.gone(p)
                    || p.iter().any(|c| self.tainted.contains(c))
                    || self.nodes.keys().any(|k| k.len() == p.len() && p.iter().zip(k).all(|(a, b)| loose(a, b)))
                {
                    return Res::Unknown;
                }
                Res::No
            }
        }
    }

    fn merge(&mut self, o: &Env) {
        for (k, v) in &o.labels {
            self.labels.entry(k.clone()).or_default().extend(v.iter().cloned());
        }
        for (k, v) in &o.nodes {
            self.nodes.entry(k.clone()).or_default().extend(v.iter().cloned());
        }
        self.tainted.extend(o.tainted.iter().cloned());
        self.deleted.extend(o.deleted.iter().cloned());
        self.vlabels.extend(o.vlabels.iter().cloned());
        self.any |= o.any;
    }

    fn label(&mut self, l: &Option<T>, t: Target) {
        if let Some(l) = l {
            let name = l.t.trim_end_matches(':').to_string();
            self.labels.entry(name).or_default().insert(t);
        }
    }

    fn items(&mut self, items: &[Item], at: Option<&Vec<String>>, file: &Path) {
        for i in items {
            match i {
                Item::Prop(p) => self.label(&p.label, Target::Prop),
                Item::Node(n) => {
                    let path = at.map(|a| {
                        let mut a = a.clone();
                        a.push(n.name.t.clone());
                        a
                    });
                    self.node(n, path, file);
                }
                Item::DelNode { name, .. } => match at {
                    Some(a) => {
                        let mut a = a.clone();
                        a.push(name.t.clone());
                        self.deleted.insert(a);
                    }
                    None => {
                        self.tainted.insert(name.t.clone());
                    }
                },
                Item::DelProp { .. } => {}
            }
        }
    }

    fn node(&mut self, n: &Node, path: Option<Vec<String>>, file: &Path) {
        match &path {
            Some(p) => {
                self.label(&n.label, Target::Node(p.clone()));
                self.nodes.entry(p.clone()).or_default().insert((file.to_owned(), n.name.sp));
            }
            None => {
                self.label(&n.label, Target::Unknown);
                self.tainted.insert(n.name.t.clone());
            }
        }
        self.items(&n.items, path.as_ref(), file);
    }
}

#[derive(Clone, Debug)]
pub struct Expected {
    pub verdict: Verdict,
    pub lints: Vec<Lint>,
    pub env: Env,
    pub doc: Doc,
    /// whether the file has errors of its own or through includes, if that is known
    pub errors: Option<bool>,
    /// canonical target of each include
    pub includes: Vec<Option<PathBuf>>,
}

pub struct World {
    pub open: BTreeMap<PathBuf, String>,
    pub include_paths: Vec<PathBuf>,
    pub cwd: PathBuf,
    docs: BTreeMap<PathBuf, (Doc, Vec<Option<PathBuf>>)>,
    cyclic: BTreeSet<PathBuf>,
    pub done: BTreeMap<PathBuf, Expected>,
}

impl World {
    /// The open documents (by canonical path), the configured include paths and the working directory
    pub fn new(open: BTreeMap<PathBuf, String>, include_paths: Vec<PathBuf>, cwd: PathBuf) -> World {
        let mut w = World { open, include_paths, cwd, docs: BTreeMap::new(), cyclic: BTreeSet::new(), done: BTreeMap::new() };
        let roots: Vec<PathBuf> = w.open.keys().cloned().collect();
        for r in &roots {
            w.load(r);
        }
        w.find_cycles();
        for r in w.docs.keys().cloned().collect::<Vec<_>>() {
            w.judge(&r);
        }
        w
    }

    pub fn single(path: &Path, text: &str) -> World {
        World::new(BTreeMap::from([(path.to_owned(), text.to_string())]), vec![], PathBuf::from("/"))
    }

    pub fn target(&self, from: &Path, name: &str) -> Option<PathBuf> {
        let mut dirs: Vec<&Path> = vec![];
        dirs.extend(from.parent());
        dirs.extend(self.include_paths.iter().map(|p| p.as_path()));
        dirs.push(&self.cwd);
        dirs.iter().find_map(|d| std::fs::canonicalize(d.join(name)).ok())
    }

    fn load(&mut self, path: &Path) {
        if self.docs.contains_key(path) {
            return;
        }
        let text = match self.open.get(path) {
            Some(t) => t.clone(),
            None => match std::fs::read_to_string(path) {
                Ok(t) => t,
                Err(_) => return,
            },
        };
        let doc = parse(&text);
        let incs: Vec<Option<PathBuf>> = doc
            .elems
            .iter()
            .filter_map(|e| match e {
                Elem::Include { name, .. } => Some(self.target(path, &name.t)),
                _ => None,
            })
            .collect();
        let accept = doc.verdict == Verdict::Accept;
        self.docs.insert(path.to_owned(), (doc, incs.clone()));
        if accept {
            for i in incs.into_iter().flatten() {
                self.load(&i);
            }
        }
    }

    pub fn succ(&self, p: &Path) -> Vec<PathBuf> {
        self.docs.get(p).map(|d| d.1.iter().flatten().cloned().collect()).unwrap_or_default()
    }

    pub fn reach(&self, p: &Path) -> BTreeSet<PathBuf> {
        let mut seen = BTreeSet::new();
        let mut stack = self.succ(p);
        while let Some(q) = stack.pop() {
            if self.docs.contains_key(&q) && seen.insert(q.clone()) {
                stack.extend(self.succ(&q));
            }
        }
        seen
    }

    fn find_cycles(&mut self) {
        let on: BTreeSet<PathBuf> = self.docs.keys().filter(|k| self.reach(k).contains(*k)).cloned().collect();
        self.cyclic = self
            .docs
            .keys()
            .filter(|k| on.contains(*k) || self.reach(k).iter().any(|r| on.contains(r)))
            .cloned()
            .collect();
    }

    pub fn files(&self) -> impl Iterator<Item = &PathBuf> {
        self.docs.keys()
    }

    fn judge(&mut self, path: &Path) {
        if self.done.contains_key(path) {
            return;
        }
        let (doc, incs) = self.docs[path].clone();
        let mut e = Expected {
            verdict: doc.verdict.clone(),
            lints: vec![],
            env: Env { any: true, ..Env::default() },
            errors: match &doc.verdict {
                Verdict::Reject(_) => Some(true),
                _ => None,
            },
            doc,
            includes: incs,
        };
        if self.cyclic.contains(path) {
            if e.verdict == Verdict::Accept {
                e.verdict = Verdict::Unspec("reaches an include cycle".into());
            }
        } else if e.verdict == Verdict::Accept {
            for i in e.includes.clone().into_iter().flatten() {
                if self.docs.contains_key(&i) {
                    self.judge(&i);
                }
            }
            self.lints(path, &mut e);
        }
        self.done.insert(path.to_owned(), e);
    }

    fn lints(&self, path: &Path, e: &mut Expected) {
        let ft = ft(path);
        let doc = &e.doc;
        let mut lints = doc.lints.clone();
        let mut env = Env::default();
        let mut heads = doc.heads.iter();
        let mut incs = e.includes.iter();
        let (mut header, mut other, mut plugin) = (false, false, ft == FT::Overlay);
        let plugin_later = doc.elems.iter().any(|x| matches!(x, Elem::Plugin(_)));
        for x in &doc.elems {
            // a reference before the plugin marker may or may not be judged
            let judged = ft == FT::Source && !plugin;
            let mut unresolved = |res: &Res, sp: Sp| {
                let l = Lint::error("unresolved_reference", sp);
                match res {
                    Res::Yes(_) => {}
                    Res::No if judged => lints.push(if plugin_later { l.maybe() } else { l }),
                    Res::Unknown if judged => lints.push(l.maybe()),
                    _ => {}
                }
            };
            match x {
                Elem::Header(sp) => {
                    if header {
                        lints.push(Lint::warning("duplicate_directive", *sp));
                    } else if other {
                        lints.push(Lint::error("misplaced_dts_header", *sp));
                    }
                    header = true;
                    continue;
                }
                Elem::Include { sp, .. } => {
                    let t = incs.next().unwrap();
                    match t {
                        None => lints.push(Lint::error("io_error", *sp)),
                        Some(t) => match self.done.get(t) {
                            None => lints.push(Lint::error("io_error", *sp)),
                            Some(i) => {
                                match i.errors {
                                    Some(true) => lints.push(Lint::error("errors_in_include", *sp)),
                                    Some(false) => {}
                                    None => lints.push(Lint::error("errors_in_include", *sp).maybe()),
                                }
                                env.merge(&i.env);
                            }
                        },
                    }
                    continue;
                }
                Elem::Plugin(_) => plugin = true,
                Elem::Memreserve(_) | Elem::CInclude(_) => {}
                Elem::Root(n) => env.node(n, Some(vec![]), path),
                Elem::Ext { r, items, .. } => {
                    let h = heads.next().unwrap();
                    let res = env.resolve(&h.r);
                    let place = env.place(&h.r);
                    let res = if place.is_none() && matches!(res, Res::Yes(_)) { Res::Unknown } else { res };
                    unresolved(&res, r.sp);
                    // what is not defined here may be defined by an includer
                    let place = place.or_else(|| match &h.r {
                        Ref::Path(p) if !judged && !env.gone(p) => Some(p.clone()),
                        _ => None,
                    });
                    env.items(items, place.as_ref(), path);
                }
                Elem::Delete { r, .. } => {
                    let h = heads.next().unwrap();
                    let res = env.resolve(&h.r);
                    let place = env.place(&h.r);
                    let res = if place.is_none() && matches!(res, Res::Yes(_)) { Res::Unknown } else { res };
                    unresolved(&res, r.sp);
                    if let Some(p) = place {
                        env.deleted.insert(p);
                    }
                    if let Ref::Path(p) = &h.r {
                        env.deleted.insert(p.clone());
                    }
                }
                Elem::Omit { r, .. } => {
                    let h = heads.next().unwrap();
                    // not stated for omit markers
                    if !matches!(env.resolve(&h.r), Res::Yes(_)) {
                        lints.push(Lint::error("unresolved_reference", r.sp).maybe());
                    }
                }
            }
            other = true;
        }
        env.vlabels.extend(doc.vlabels.iter().cloned());
        if !header && ft == FT::Source {
            lints.push(Lint { kind: "non_dts_v1", sev: "error", at: At::Exact(Sp::ZERO), optional: false });
        }
        if ft == FT::Source && !plugin {
            for r in &doc.refs {
                match env.resolve(&r.r) {
                    Res::Yes(_) => {}
                    Res::No => lints.push(Lint::error("unresolved_reference", r.sp)),
                    Res::Unknown => lints.push(Lint::error("unresolved_reference", r.sp).maybe()),
                }
            }
        }
        let sure = lints.iter().any(|l| l.sev == "error" && !l.optional);
        let maybe = lints.iter().any(|l| l.sev == "error");
        e.errors = if sure { Some(true) } else if maybe { None } else { Some(false) };
        e.lints = lints;
        e.env = env;
    }
}

fn fits(l: &Lint, d: &D) -> bool {
    l.sev == d.sev
        && l.kind.split('|').any(|k| k == d.kind)
        && match &l.at {
            At::Exact(s) => *s == d.sp,
            At::OneOf(v) => v.contains(&d.sp),
            At::Anywhere => true,
        }
}

/// Matches the diagnostics of a file with the expected ones.
pub fn compare(lints: &[Lint], got: &[D]) -> Result<(), String> {
    let mut left: Vec<&D> = got.iter().collect();
    // those with exactly one admissible range first
    let mut order: Vec<&Lint> = lints.iter().filter(|l| !l.optional).collect();
    order.sort_by_key(|l| !matches!(l.at, At::Exact(_)));
    for l in order {
        match left.iter().position(|d| fits(l, d)) {
            Some(k) => {
                left.remove(k);
            }
            None => return Err(format!("missing diagnostic {l:?}; reported: {}", crate::sut::show(got))),
        }
    }
    for l in lints.iter().filter(|l| l.optional) {
        if let Some(k) = left.iter().position(|d| fits(l, d)) {
            left.remove(k);
        }
    }
    match left.first() {
        None => Ok(()),
        Some(d) => Err(format!("unexpected diagnostic {}; expected {}", d.short(), show_lints(lints))),
    }
}

pub fn show_lints(l: &[Lint]) -> String {
    if l.is_empty() {
        return "none".into();
    }
    l.iter().map(|l| format!("{}{} {} {:?}", if l.optional { "maybe " } else { "" }, l.sev, l.kind, l.at)).collect::<Vec<_>>().join("; ")
}

/// Judges one file of a project against the model. `None`: unspecified.
pub fn judge_file(e: &Expected, got: &[D]) -> Result<Option<bool>, String> {
    match &e.verdict {
        Verdict::Accept => compare(&e.lints, got).map(|_| Some(true)),
        Verdict::Reject(why) => {
            if got.iter().any(|d| d.sev == "error") {
                Ok(Some(false))
            } else {
                Err(format!("malformed text ({why}) has no error diagnostic; reported: {}", crate::sut::show(got)))
            }
        }
        Verdict::Unspec(_) => Ok(None),
    }
}
