//! Checks that judge a single document against the reference grammar: C02 to C05 and C10.
use crate::engine::*;
use crate::gen::*;
use crate::refparse::*;
use crate::resolve::*;
use crate::sut::{self, D};
use crate::tree::*;
use ginko::dts::Project;
use std::path::{Path, PathBuf};

/// Files next to the checked document
pub fn surroundings(dir: &Path) {
    let f = dir.join("e.dtsi");
    if !f.exists() {
        std::fs::write(f, "").unwrap();
    }
}

/// Where a document is said to be. Documents that cannot include anything are placed in a directory that
/// cannot exist, which spares the file system.
pub fn place(dir: &Path, ext: &str, text: &str) -> PathBuf {
    if text.contains("include") {
        surroundings(dir);
        dir.join(format!("doc.{ext}"))
    } else {
        PathBuf::from(format!("/ginko-mc-nowhere\0/doc.{ext}"))
    }
}

pub struct Run {
    pub path: PathBuf,
    pub exp: Expected,
    pub got: Vec<D>,
    pub project: Project,
}

pub fn run(dir: &Path, ext: &str, text: &str) -> Run {
    let path = place(dir, ext, text);
    let mut world = World::single(&path, text);
    let exp = world.done.remove(&path).unwrap();
    let mut project = Project::default();
    sut::open(&mut project, &path, text);
    let got = sut::diags(&project, &path);
    Run { path, exp, got, project }
}

/// canonical ranges where more than one is admissible
fn canon(elems: &mut [Elem], doc: &Doc) {
    if doc.alt.is_empty() {
        return;
    }
    fn items(v: &mut [Item], doc: &Doc) {
        for i in v {
            match i {
                Item::Prop(p) => {
                    for v in &mut p.vals {
                        if let Some(s) = doc.alt.get(&v.sp) {
                            v.sp = *s;
                        }
                    }
                }
                Item::Node(n) => items(&mut n.items, doc),
                _ => {}
            }
        }
    }
    for e in elems {
        match e {
            Elem::Root(n) => items(&mut n.items, doc),
            Elem::Ext { items: i, .. } => items(i, doc),
            _ => {}
        }
    }
}

pub fn in_document(doc: &Doc, s: Sp) -> bool {
    let ok = |p: P, extra: u32| doc.lines.get(p.0 as usize).is_some_and(|l| p.1 <= *l + extra);
    // the line terminator counts as the last character of its line
    let last = s.e.0 as usize + 1 == doc.lines.len();
    s.s <= s.e && ok(s.s, 0) && ok(s.e, if last { 0 } else { 1 })
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Aspect {
    Accept,
    Reject,
    Tree,
    Spans,
    All,
}

pub fn judge(aspect: Aspect, dir: &Path, ext: &str, text: &str) -> Judged {
    let r = run(dir, ext, text);
    let doc = &r.exp.doc;
    let want = |a: Aspect| aspect == a || aspect == Aspect::All;
    if let Some(d) = r.got.iter().find(|d| d.file != r.path) {
        return Err(format!("diagnostic of {} listed for {}", d.file.display(), r.path.display()));
    }
    if want(Aspect::Spans) && doc.spans_known {
        for d in &r.got {
            if !in_document(doc, d.sp) {
                return Err(format!("range outside of the document or inverted: {}", d.short()));
            }
        }
    }
    match &r.exp.verdict {
        Verdict::Unspec(_) => undecided(2, "unspecified"),
        Verdict::Reject(_) => {
            if want(Aspect::Reject) {
                judge_file(&r.exp, &r.got)?;
                ok(2, "malformed")
            } else if want(Aspect::Spans) {
                ok(2, "malformed")
            } else {
                undecided(2, "malformed")
            }
        }
        Verdict::Accept => {
            let clean = r.exp.lints.is_empty();
            let mut decided = false;
            if want(Aspect::Accept) && clean {
                decided = true;
                if !r.got.is_empty() {
                    return Err(format!("well-formed document has diagnostics: {}", sut::show(&r.got)));
                }
            }
            if want(Aspect::All) {
                compare(&r.exp.lints, &r.got)?;
            }
            if want(Aspect::Tree) || want(Aspect::Spans) {
                let Some(mut got) = sut::tree(&r.project, &r.path) else {
                    return if want(Aspect::Tree) {
                        Err(format!("no syntax tree for a well-formed document: {}", sut::show(&r.got)))
                    } else {
                        undecided(2, "no tree")
                    };
                };
                let mut model = doc.elems.clone();
                canon(&mut got, doc);
                if !doc.values_known {
                    blank(&mut got);
                    blank(&mut model);
                }
                let (mut a, mut b) = (got.clone(), model.clone());
                strip(&mut a);
                strip(&mut b);
                let same = a == b;
                if want(Aspect::Tree) {
                    decided = true;
                    if !same {
                        return Err(diff(&a, &b));
                    }
                }
                if want(Aspect::Spans) && same && doc.spans_known {
                    decided = true;
                    if got != model {
                        return Err(format!("ranges differ: {}", diff(&got, &model)));
                    }
                    lint_spans(&r)?;
                }
            }
            if decided {
                ok(3, if clean { "clean" } else { "linted" })
            } else {
                undecided(3, if clean { "clean" } else { "linted" })
            }
        }
    }
}

/// values that are not specified
fn blank(elems: &mut [Elem]) {
    fn items(v: &mut [Item]) {
        for i in v {
            match i {
                Item::Prop(p) => p.vals.iter_mut().for_each(|v| v.t.clear()),
                Item::Node(n) => items(&mut n.items),
                _ => {}
            }
        }
    }
    for e in elems {
        match e {
            Elem::Root(n) => items(&mut n.items),
            Elem::Ext { items: i, .. } => items(i),
            Elem::Memreserve(m) => m.clear(),
            _ => {}
        }
    }
}

/// Where the right number of problems of a kind is reported they must be at the right place.
fn lint_spans(r: &Run) -> Result<(), String> {
    let mut kinds: Vec<&str> = r.exp.lints.iter().flat_map(|l| l.kind.split('|')).collect();
    kinds.sort();
    kinds.dedup();
    for k in kinds {
        let exp: Vec<Lint> = r.exp.lints.iter().filter(|l| l.kind.split('|').any(|x| x == k)).cloned().collect();
        let got: Vec<D> = r.got.iter().filter(|d| d.kind == k).cloned().collect();
        if exp.iter().all(|l| !l.optional && l.kind == k) && exp.len() == got.len() {
            compare(&exp, &got)?;
        }
    }
    Ok(())
}

pub fn explore_spaces(eng: &Eng, spaces: &[Space], ext: &str, f: impl Fn(&mut Worker<'_>, &Case) -> Judged + Sync) {
    for s in spaces {
        eng.par(&s.name, s.n, |w, i| {
            let c = Case::new("doc", vec![ext.to_string(), s.get(i)]);
            w.case(c, |w, c| f(w, c))
        });
    }
}

/// tabs, CRLF, comments and non-ASCII text in front of and between everything
pub fn layouts(s: Space, k: usize) -> Space {
    const SEP: [&str; 6] = [" ", "\t", "\r\n", "/*é𝄞*/", "//é𝄞;\n", "\n\t \t"];
    let sep = SEP[k];
    let name = format!("{} separated by {sep:?}", s.name);
    s.map(&name, move |t| {
        let toks = split(&t);
        let mut out = String::from(sep);
        for x in toks {
            out.push_str(&x);
            out.push_str(sep);
        }
        out
    })
}

pub struct Docs {
    pub id: &'static str,
    pub aspect: Aspect,
}

impl Check for Docs {
    fn id(&self) -> &'static str {
        self.id
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let dir = w.dir.clone();
        judge(self.aspect, &dir, &c.s[0], &c.s[1])
    }
    fn explore(&self, eng: &Eng) {
        let mut spaces = if self.aspect == Aspect::Spans { well_formed(2, eng.tier(3, 4), eng.tier(4, 5)) } else { well_formed(eng.tier(3, 4), eng.tier(4, 5), 5) };
        spaces.extend(scaled());
        match self.aspect {
            Aspect::Accept | Aspect::Tree => {
                spaces.extend(token_spaces(eng.tier(3, 4)));
                spaces.extend(edits());
                spaces.extend(char_spaces(eng.tier(3, 4)));
            }
            Aspect::Reject => {
                spaces.clear();
                spaces.extend(token_spaces(eng.tier(4, 5)));
                spaces.extend(edits());
                if eng.thorough {
                    spaces.push(double_edits());
                }
                spaces.extend(char_spaces(eng.tier(4, 5)));
            }
            Aspect::Spans | Aspect::All => {
                let base = well_formed(2, eng.tier(2, 3), eng.tier(3, 4));
                for k in 0..6 {
                    spaces.extend(base.iter().map(|s| layouts(s.clone(), k)));
                }
                spaces.extend(token_spaces(eng.tier(3, 4)));
                let e = edits();
                spaces.extend((0..6).map(|k| layouts(e[0].clone(), k)));
                spaces.extend(e);
                spaces.extend(char_spaces(eng.tier(3, 4)));
            }
        }
        spaces.extend(names());
        spaces.extend(mistakes(eng.tier(33, 1001)));
        spaces.push(far());
        spaces.push(any_char_edits());
        spaces.extend(any_pairs());
        explore_spaces(eng, &spaces, "dts", |w, c| self.judge(w, c));
    }
}
