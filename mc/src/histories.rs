//! C15 (results depend on current contents only) and C16 (not on hashing or the order of addition).
use crate::engine::*;
use crate::gen::*;
use crate::projects::*;
use crate::refparse::*;
use crate::resolve::*;
use crate::sut::{self, D};
use crate::tree::*;
use ginko::dts::Project;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub type View = BTreeMap<PathBuf, (Vec<D>, Option<Vec<Elem>>, Vec<(Sp, Option<sut::Hit>)>)>;

/// What can be observed of a set of files: diagnostics, tree, and what every reference leads to.
pub fn view(p: &Project, files: &BTreeSet<PathBuf>, texts: &BTreeMap<PathBuf, Vec<Sp>>) -> View {
    files
        .iter()
        .map(|f| {
            let hits = texts.get(f).map(|v| v.iter().map(|s| (*s, sut::hit(p, f, s.s))).collect()).unwrap_or_default();
            (f.clone(), (sut::diags(p, f), sut::tree(p, f), hits))
        })
        .collect()
}

/// the ranges of all references of a document
pub fn ref_spans(d: &Doc) -> Vec<Sp> {
    let mut v: Vec<Sp> = d.refs.iter().map(|r| r.sp).collect();
    for e in &d.elems {
        match e {
            Elem::Ext { r, .. } | Elem::Delete { r, .. } | Elem::Omit { r, .. } => v.push(r.sp),
            _ => {}
        }
    }
    v
}

pub fn differ(a: &View, b: &View) -> Option<String> {
    for (f, x) in a {
        let y = &b[f];
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        if x.0 != y.0 {
            return Some(format!("{n}: diagnostics {}; expected {}", sut::show(&x.0), sut::show(&y.0)));
        }
        if x.1 != y.1 {
            return Some(format!("{n}: the syntax trees differ"));
        }
        if x.2 != y.2 {
            let d = x.2.iter().zip(&y.2).find(|(a, b)| a != b).unwrap();
            return Some(format!("{n}: reference at {:?} leads to {:?}; expected {:?}", d.0 .0, d.0 .1, d.1 .1));
        }
    }
    None
}

// ---------------------------------------------------------------- C15

pub struct Histories;

pub const A: &[&str] = &[
    "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { x { p = &lb, &lc; }; };",
    "/dts-v1/;\n/ { lb: own { }; y { p = &lb, &lc, &{/b0/k}; }; };",
    "/dts-v1/;\n/include/ \"c.dtsi\"\n/include/ \"b.dtsi\"\n&lb { q = &{/b0/k}; };",
    "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { x { p = &lb",
    "/dts-v1/;\n/include/ \"e.dtsi\"\n/include/ \"b.dtsi\"\n/ { x { p = &le, &lc, &{/b0/k}; } };",
    // further ones
    "/dts-v1/;\n/ { lb: own { k { }; }; y { p = &lb, &lc, &{/own/k}; } };",
    "/dts-v1/;\n/ { y { p = &lb; };",
    "/dts-v1/;\n/ { lb: a { }; y { p = &lb, &{/a}; }; };",
];
/// documents that include nothing
pub const ALONE: &[&str] = &["Oa1", "Oa5", "Oa6", "Oa7", "Oa7w", "Ob1", "Ob2", "Ob4", "Oc0", "Oc2", "Xa", "Xb"];
pub const B: &[&str] = &[
    "/include/ \"c.dtsi\"\n/ { lb: b0 { k { }; }; };",
    "/ { a0 { }; lb: b1 { }; };",
    "/ { lb: b0 { } };",
    "/include/ \"a.dts\"\n/ { lb: b0 { }; };",
    "/ { lb: b0 {",
    "/include/ \"e.dtsi\"\n/ { compatible = <1>; lb: b2 { k { }; }; };",
];
pub const C: &[&str] = &["/ { lc: c0 { }; };", "\n/ { lb: c1 { }; };", "/ { 1c { }; lc: c2 { }; };", ""];

/// on disk: a, b, c (index of the content or none)
pub const DISKS: &[[Option<usize>; 3]] = &[[Some(0), Some(0), Some(0)], [None, None, Some(2)], [Some(1), Some(5), None]];

pub fn content(f: u8, v: usize) -> &'static str {
    match f {
        b'a' => A[v],
        b'b' => B[v],
        _ => C[v],
    }
}
pub fn name(f: u8) -> String {
    if f == b'a' { "a.dts".into() } else { format!("{}.dtsi", f as char) }
}

/// unusual names of directories, for the configurations from 10
pub const ODD: &[&str] = &[
    "a b", "é€𝄞", "%41", "a#b", "a?b=c", "a%", "a+b", "a:b", "a;b,c", "[x]{y}", "'q'\"q\"", "~", "a\\b", "@", "$HOME", "%2F", "a&b", "<x>", "^`|", "!*()", ".x", "...", "x.dts", "e\u{301}", "%20 %", "a\tb", "%C3%A9",
];

/// The files of a configuration of the disk; yields their directory.
pub fn on_disk(w: &Worker<'_>, cfg: usize) -> PathBuf {
    let root = w.dir.join(format!("h{cfg}"));
    let root = if cfg < 10 { root } else { root.join(ODD[cfg / 10 - 1]) };
    let dsk = DISKS[cfg % 10];
    if !root.exists() {
        for d in ["main/sub", "i1", "i2", "i3"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for (k, f) in [b'a', b'b', b'c'].into_iter().enumerate() {
            if let Some(v) = dsk[k] {
                std::fs::write(root.join("main").join(name(f)), content(f, v)).unwrap();
            }
        }
        std::fs::write(root.join("i1/e.dtsi"), "/ { le: e1 { }; };").unwrap();
        std::fs::write(root.join("i2/e.dtsi"), "/ { lc: e2 { }; n { }; p; };").unwrap();
    }
    root
}

pub fn ops() -> Vec<String> {
    let mut v = vec![];
    for (f, n) in [('a', 5), ('b', B.len()), ('c', C.len())] {
        v.extend((0..n).map(|k| format!("O{f}{k}")));
    }
    v.extend(["Xa", "Xb", "Xc", "P", "P1", "P2", "P21"].map(|s| s.to_string()));
    // the same document by another name; adding from disk
    v.extend(["Qb1", "Yb", "Fb"].map(|s| s.to_string()));
    // edits that only move the text
    v.extend(["Oa0w", "Ob5w", "Oc0w"].map(|s| s.to_string()));
    v
}

/// the content of an operation: `w` moves the text, `r` exchanges two labels, `i` two includes,
/// `n` renames nodes; the latter leave its length and structure
pub fn text_of(o: &[u8]) -> String {
    let t = content(o[1], (o[2] - b'0') as usize);
    let swap = |a: &str, b: &str| t.replace(a, "\0").replace(b, a).replace('\0', b);
    match o.get(3) {
        Some(b'w') => format!("\n \t{t}\n\n"),
        Some(b'r') => swap("lb", "lc"),
        Some(b'i') => swap("b.dtsi", "c.dtsi"),
        Some(b'n') => t.replace("b0", "b9").replace(" k ", " j ").replace("c0", "b0").replace("<1>", "\"1\""),
        _ => t.to_string(),
    }
}

/// edits that keep the length
pub const SAME_LENGTH: &[&str] = &["Oa0", "Oa0r", "Oa0i", "Oa2", "Oa2i", "Ob0", "Ob0r", "Ob0n", "Oc0", "Oc0r", "Oc0n", "Xb", "Xc"];

/// Many repetitions of two operations, then a third.
pub fn pump(few: &[&str], i: u64) -> Vec<String> {
    const TIMES: [usize; 3] = [3, 12, 40];
    let n = few.len() as u64;
    let op = |k: u64| few[(k % n) as usize].to_string();
    let mut v = vec![];
    let i = match i.checked_sub(n * n * n * 3) {
        None => i,
        Some(j) => {
            for _ in 0..[64, 128, 130][(j / n / n) as usize] {
                v.push(op(j));
                v.push(op(j / n));
            }
            return v;
        }
    };
    for _ in 0..TIMES[(i / n / n / n) as usize] {
        v.push(op(i));
        v.push(op(i / n));
    }
    v.push(op(i / n / n));
    v
}
pub fn pump_count(few: &[&str]) -> u64 {
    (few.len() as u64).pow(3) * 3 + (few.len() as u64).pow(2) * 3
}

thread_local! {
    /// files of this worker that were saved with other content
    static CREATED: std::cell::RefCell<BTreeSet<PathBuf>> = const { std::cell::RefCell::new(BTreeSet::new()) };
    static SAVED: std::cell::RefCell<BTreeSet<(PathBuf, usize, u8)>> = const { std::cell::RefCell::new(BTreeSet::new()) };
}

/// Carries out the operations of a history: the project, the open documents, the include paths
pub fn carry_out(root: &std::path::Path, cfg: usize, ops: &[String]) -> (Project, BTreeMap<PathBuf, String>, Vec<String>) {
    let path = |f: u8| root.join("main").join(name(f));
    let odd = |f: u8| root.join("main/sub/..").join(name(f));
    let mut p = Project::default();
    let mut open: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut inc: Vec<String> = vec![];
    for op in ops {
        let o = op.as_bytes();
        match o[0] {
            b'O' | b'Q' => {
                let at = if o[0] == b'O' { path(o[1]) } else { odd(o[1]) };
                let t = text_of(o);
                sut::open(&mut p, &at, &t);
                // an unsaved document has no other name
                let key = if path(o[1]).exists() { path(o[1]) } else { at };
                open.insert(key, t);
            }
            b'W' => {
                // edited and saved; only files that are present
                let at = path(o[1]);
                let Some(v) = DISKS[cfg % 10][(o[1] - b'a') as usize] else { continue };
                let t = text_of(o);
                SAVED.with(|s| s.borrow_mut().insert((at.clone(), v, o[1])));
                std::fs::write(&at, &t).unwrap();
                sut::open(&mut p, &at, &t);
                open.insert(at, t);
            }
            b'N' => {
                // another program writes a file that was not there
                let at = path(o[1]);
                if !at.exists() {
                    CREATED.with(|s| s.borrow_mut().insert(at.clone()));
                    std::fs::write(&at, if o[1] == b'e' { "/ { le: e0 { }; };" } else { content(o[1], (o[2] - b'0') as usize) }).unwrap();
                }
            }
            b'X' | b'Y' => {
                let at = if o[0] == b'X' { path(o[1]) } else { odd(o[1]) };
                p.remove_file(&at);
                open.remove(&if path(o[1]).exists() { path(o[1]) } else { at });
            }
            b'F' => {
                if p.add_file(path(o[1]).display().to_string()).is_ok() {
                    open.insert(path(o[1]), std::fs::read_to_string(path(o[1])).unwrap());
                }
            }
            _ => {
                inc = op[1..].chars().map(|x| root.join(format!("i{x}")).display().to_string()).collect();
                p.set_include_paths(inc.clone());
            }
        }
    }
    (p, open, inc)
}

impl Check for Histories {
    fn id(&self) -> &'static str {
        "C15"
    }
    /// s: configuration of the disk, operations
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let cfg: usize = c.s[0].parse().unwrap();
        let root = on_disk(w, cfg);
        for file in CREATED.with(|s| std::mem::take(&mut *s.borrow_mut())) {
            std::fs::remove_file(file).unwrap();
        }
        for (file, v, f) in SAVED.with(|s| std::mem::take(&mut *s.borrow_mut())) {
            std::fs::write(file, content(f, v)).unwrap();
        }
        let cwd = w.eng.scratch.join("cwd");
        let path = |f: u8| root.join("main").join(name(f));
        let (p, open, inc) = carry_out(&root, cfg, &c.s[1..]);
        let world = World::new(open.clone(), inc.iter().map(PathBuf::from).collect(), cwd);
        // a file that appears is seen by documents that are edited afterwards
        let new = CREATED.with(|s| s.borrow().clone());
        let at = c.s.iter().rposition(|o| o.starts_with('N')).unwrap_or(0);
        let fresh = |f: &PathBuf| c.s[at..].iter().any(|o| o.starts_with('P') || (o.starts_with('O') && path(o.as_bytes()[1]) == *f));
        let sees = |f: &PathBuf| world.succ(f).iter().any(|t| new.contains(t));
        if world.files().any(|f| sees(f) && !fresh(f)) {
            return undecided(c.s.len() as u64, "a file that appeared");
        }
        let (all, _) = judge_world(&world, &p, None)?;
        // a fresh project; the documents in both orders
        let files: BTreeSet<PathBuf> = world.files().cloned().collect();
        let acyclic: BTreeSet<PathBuf> = files
            .iter()
            .filter(|f| {
                let r = world.reach(f);
                !r.contains(*f) && !r.iter().any(|x| world.reach(x).contains(x))
            })
            .cloned()
            .collect();
        let refs: BTreeMap<PathBuf, Vec<Sp>> = files.iter().map(|f| (f.clone(), ref_spans(&world.done[f].doc))).collect();
        let got = view(&p, &acyclic, &refs);
        for rev in [false, true] {
            let mut q = Project::default();
            q.set_include_paths(inc.clone());
            let list: Vec<_> = if rev { open.iter().rev().collect() } else { open.iter().collect() };
            for (f, t) in list {
                sut::open(&mut q, f, t);
            }
            if let Some(d) = differ(&got, &view(&q, &acyclic, &refs)) {
                return Err(format!("differs from a fresh project: {d}"));
            }
            for f in files.difference(&acyclic) {
                let cyc = |p: &Project| {
                    let mut r = world.reach(f);
                    r.insert(f.clone());
                    r.iter().flat_map(|x| sut::diags(p, x)).any(|d| d.kind == "cyclic_dependency_error")
                };
                if cyc(&p) != cyc(&q) {
                    return Err(format!("{}: differs from a fresh project in whether a cycle is reported", f.display()));
                }
            }
        }
        // a document that is neither open nor included has nothing to say that is not about its own text
        for f in [b'a', b'b', b'c'].map(path) {
            if !files.contains(&f) && !f.exists() {
                let left = sut::diags(&p, &f);
                if !left.is_empty() {
                    return Err(format!("{} is gone but has {}", f.display(), sut::show(&left)));
                }
            }
        }
        let class = match (files.len() - acyclic.len(), got.values().all(|v| v.0.is_empty())) {
            (0, true) => "clean",
            (0, false) => "diagnostics",
            _ => "cyclic",
        };
        if all {
            ok(c.s.len() as u64, class)
        } else {
            // the comparison with a fresh project was decided
            ok(c.s.len() as u64, class)
        }
    }
    fn explore(&self, eng: &Eng) {
        cwd_setup(eng);
        let o = ops();
        let n = o.len() as u64;
        for cfg in 0..DISKS.len() {
            let k = if cfg == 0 { 4 } else { eng.tier(3, 4) };
            eng.par(&format!("histories over disk {cfg}"), seq_count(n, k), |w, i| {
                let mut s = vec![cfg.to_string()];
                s.extend(seq(i, n, k).into_iter().map(|x| o[x].clone()));
                w.case(Case::new("history", s), |w, c| self.judge(w, c))
            });
        }
        // documents that are saved
        let few = ["Oa0", "Oa2", "Wa1", "Wa0w", "Ob1", "Wb0", "Wb1", "Wb2", "Wb3", "Wc1", "Wc0w", "Wb5", "Oc2", "Xa", "Xb", "Xc", "P1", "P21"];
        let n = few.len() as u64;
        let k = eng.tier(4, 5);
        eng.par("histories with saving", seq_count(n, k), |w, i| {
            let mut s = vec!["0".to_string()];
            s.extend(seq(i, n, k).into_iter().map(|x| few[x].to_string()));
            w.case(Case::new("history", s), |w, c| self.judge(w, c))
        });
        // files that appear
        let few = ["Oa0", "Oa2", "Oa4", "Ob0", "Ob5", "Nb0", "Nc0", "Nb1", "Ne0", "Xa", "Xb", "P1", "P"];
        let n = few.len() as u64;
        let k = eng.tier(4, 5);
        for cfg in 1..DISKS.len() {
            eng.par(&format!("files that appear on disk {cfg}"), seq_count(n, k), |w, i| {
                let mut s = vec![cfg.to_string()];
                s.extend(seq(i, n, k).into_iter().map(|x| few[x].to_string()));
                if s.iter().any(|o| o.starts_with('N')) {
                    w.case(Case::new("history", s), |w, c| self.judge(w, c))
                }
            });
        }
        let n = SAME_LENGTH.len() as u64;
        let k = eng.tier(4, 5);
        eng.par("edits that keep the length", seq_count(n, k), |w, i| {
            let mut s = vec!["0".to_string()];
            s.extend(seq(i, n, k).into_iter().map(|x| SAME_LENGTH[x].to_string()));
            w.case(Case::new("history", s), |w, c| self.judge(w, c))
        });
        let n = ALONE.len() as u64;
        eng.par("documents that include nothing", seq_count(n, k), |w, i| {
            let mut s = vec!["1".to_string()];
            s.extend(seq(i, n, k).into_iter().map(|x| ALONE[x].to_string()));
            w.case(Case::new("history", s), |w, c| self.judge(w, c))
        });
        let few = ["Oa0", "Oa0r", "Oa2", "Oa3", "Ob0", "Ob0r", "Ob4", "Oc0w", "Xb", "P1", "P2"];
        eng.par("many repetitions", pump_count(&few), |w, i| {
            let mut s = vec!["0".to_string()];
            s.extend(pump(&few, i));
            w.case(Case::new("history", s), |w, c| self.judge(w, c))
        });
        // longer histories over fewer operations
        let few = ["Oa0", "Oa1", "Oa4", "Ob0", "Ob1", "Ob4", "Oc1", "Oc2", "Xa", "Xb", "Xc", "P1"];
        let n = few.len() as u64;
        let k = eng.tier(5, 6);
        eng.par("longer histories", n.pow(k), |w, mut i| {
            let mut s = vec!["0".to_string()];
            for _ in 0..k {
                s.push(few[(i % n) as usize].into());
                i /= n;
            }
            w.case(Case::new("history", s), |w, c| self.judge(w, c))
        });
    }
}

// ---------------------------------------------------------------- C16

pub struct Orders;

// The keys of the hash tables of new threads are drawn from here.
thread_local! {
    static SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Stands in for the function of the C library, from which the keys of hash tables come.
/// # Safety
/// `buf` is valid for `len` bytes
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.with(|s| s.get());
    let mut x = s.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    for i in 0..len {
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        *buf.add(i) = (x.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 56) as u8;
    }
    len as isize
}

/// Runs in a thread of its own whose hash tables use the given keys.
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                SEED.with(|s| s.set(seed));
                guarded(f)
            })
            .unwrap();
        h.join().map_err(|_| "the thread died".to_string())
    })?
}

/// The iteration order of a table of these keys under a seed
fn order(seed: u64, p: &Project, paths: &[PathBuf]) -> Vec<usize> {
    let _ = seed;
    p.files().map(|f| paths.iter().position(|x| x == f).unwrap_or(99)).collect()
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// s: names and contents of the files in turn
struct Set {
    paths: Vec<PathBuf>,
    texts: Vec<String>,
}

impl Orders {
    fn set(&self, w: &mut Worker<'_>, s: &[String]) -> Set {
        let d = disk(w);
        let mut set = Set { paths: vec![], texts: vec![] };
        for f in s.chunks(2) {
            set.paths.push(d.put(&f[0], &f[1]));
            set.texts.push(f[1].clone());
        }
        set
    }
    fn run(&self, set: &Set, seed: u64, order_of: &[usize], from_disk: bool) -> Result<(View, Vec<usize>), String> {
        with_seed(seed, || {
            let mut p = Project::default();
            for i in order_of {
                if from_disk {
                    p.add_file(set.paths[*i].display().to_string()).map_err(|e| e.to_string())?;
                } else {
                    sut::open(&mut p, &set.paths[*i], &set.texts[*i]);
                }
            }
            let files: BTreeSet<PathBuf> = set.paths.iter().cloned().collect();
            let refs: BTreeMap<PathBuf, Vec<Sp>> =
                set.paths.iter().zip(&set.texts).map(|(p, t)| (p.clone(), ref_spans(&parse(t)))).collect();
            Ok((view(&p, &files, &refs), order(seed, &p, &set.paths)))
        })?
    }
}

/// The view of a project after some operations must not depend on the seed.
fn alike(seeds: u64, world: &World, run: impl Fn() -> Project + Sync) -> Judged {
    let files: BTreeSet<PathBuf> = world.files().cloned().collect();
    let refs: BTreeMap<PathBuf, Vec<Sp>> = files.iter().map(|f| (f.clone(), ref_spans(&world.done[f].doc))).collect();
    let mut first: Option<View> = None;
    let mut orders = BTreeSet::new();
    let paths: Vec<PathBuf> = files.iter().cloned().collect();
    for seed in 1..=seeds {
        let (v, it) = with_seed(seed, || {
            let p = run();
            (view(&p, &files, &refs), order(seed, &p, &paths))
        })?;
        orders.insert(it.clone());
        match &first {
            None => {
                for (f, e) in &world.done {
                    judge_file(e, &v[f].0).map_err(|m| format!("{}: {m}", f.file_name().unwrap().to_string_lossy()))?;
                }
                first = Some(v);
            }
            Some(a) => {
                if let Some(d) = differ(&v, a) {
                    return Err(format!("with hash seed {seed} (iteration order {it:?}): {d}"));
                }
            }
        }
    }
    let all: usize = (1..=files.len()).product();
    ok(seeds * files.len() as u64, if orders.len() == all { "all iteration orders" } else { "some iteration orders" })
}

impl Orders {
    fn judge_history(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let cfg: usize = c.s[1].parse().unwrap();
        let root = on_disk(w, cfg);
        let ops = &c.s[2..];
        let cwd = w.eng.scratch.join("cwd");
        let (_, open, inc) = carry_out(&root, cfg, ops);
        let world = World::new(open, inc.iter().map(PathBuf::from).collect(), cwd);
        alike(c.s[0].parse().unwrap(), &world, || carry_out(&root, cfg, ops).0)
    }
    fn judge_dirs(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let d = disk(w);
        for k in "1234".chars() {
            std::fs::create_dir_all(d.dir.join(format!("d{k}"))).unwrap();
            let name = format!("d{k}/e.dtsi");
            if c.s[1].contains(k) {
                d.put(&name, &format!("/ {{ n{k} {{ }}; l{k}: m {{ }}; }};"));
            } else {
                d.gone(&name);
            }
        }
        let t = "/dts-v1/;\n/include/ \"e.dtsi\"\n/ { u = &l1, &l2, &l3, &l4, &{/n1}, &{/n2}, &{/n3}, &{/n4}; };";
        let main = d.put("main/a.dts", t);
        let inc: Vec<String> = c.s[2].bytes().map(|k| d.dir.join(format!("d{}", k as char)).display().to_string()).collect();
        let open: BTreeMap<PathBuf, String> = [(main.clone(), t.to_string())].into();
        let world = World::new(open, inc.iter().map(PathBuf::from).collect(), PathBuf::from("/"));
        alike(c.s[0].parse().unwrap(), &world, || {
            let mut p = Project::default();
            p.set_include_paths(inc.clone());
            sut::open(&mut p, &main, t);
            p
        })
    }
}

impl Check for Orders {
    fn id(&self) -> &'static str {
        "C16"
    }
    /// "files": number of hash seeds, files. All orders of addition x seeds until every iteration
    /// order of the table of files was seen (or as many as given).
    /// "history": number of hash seeds, configuration of the disk, operations
    /// "dirs": number of hash seeds, which directories hold the file, their order in the include paths
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        match c.sub.as_str() {
            "history" => return self.judge_history(w, c),
            "dirs" => return self.judge_dirs(w, c),
            _ => {}
        }
        let limit: u64 = c.s[0].parse().unwrap();
        let set = self.set(w, &c.s[1..]);
        let n = set.paths.len();
        let open: BTreeMap<PathBuf, String> = set.paths.iter().cloned().zip(set.texts.iter().cloned()).collect();
        let world = World::new(open, vec![], PathBuf::from("/"));
        let all_orders = if n <= 4 {
            perms(n)
        } else {
            // some rotations, forwards and backwards
            let rot = |k: usize| -> Vec<usize> { (0..n).map(|i| (i + k) % n).collect() };
            (0..n).step_by(n.div_ceil(3)).flat_map(|k| [rot(k), rot(k).into_iter().rev().collect()]).collect()
        };
        let first = self.run(&set, 1, &all_orders[0], false)?.0;
        // the reference model
        for (f, e) in &world.done {
            judge_file(e, &first[f].0).map_err(|m| format!("{}: {m}", f.file_name().unwrap().to_string_lossy()))?;
        }
        let mut ops = 0;
        let mut check = |seed: u64, o: &[usize], from_disk: bool| -> Result<Vec<usize>, String> {
            let (v, it) = self.run(&set, seed, o, from_disk)?;
            ops += n as u64;
            if let Some(d) = differ(&v, &first) {
                return Err(format!("added in the order {o:?} with hash seed {seed} (iteration order {it:?}): {d}"));
            }
            Ok(it)
        };
        for o in &all_orders {
            check(1, o, false)?;
            check(2, o, true)?;
        }
        let want: usize = if n <= 4 { (1..=n).product() } else { usize::MAX };
        let mut seen = BTreeSet::new();
        for seed in 3..3 + limit {
            let o = &all_orders[(seed as usize * 7) % all_orders.len()];
            seen.insert(check(seed, o, seed % 2 == 0)?);
            if seen.len() == want {
                break;
            }
        }
        ok(ops, if seen.len() == want { "all iteration orders" } else { "some iteration orders" })
    }
    fn explore(&self, eng: &Eng) {
        eng.assume("the hash tables draw their keys from the C library's getrandom, which the harness provides");
        const KINDS: &[&str] = &[
            "/ { l@: n@ { }; };\n/ { u = &l0, &l1, &l2, &l3, &{/n0}, &{/n3}; };",
            "/ { l@: n@ { } };",
            "/ { 1x { }; l@: n@ { }; };\n/ { u = &l0, &l1, &l2, &l3; };",
            "/ { l@: n@ { }; shared: n@ { }; };\n&shared { v = &shared; };",
        ];
        let mut seeds_seen = BTreeSet::new();
        for s in 0..200 {
            // the iteration order does depend on the seed
            let o = with_seed(s, || {
                let m: std::collections::HashMap<u32, u32> = (0..4).map(|x| (x, x)).collect();
                m.keys().copied().collect::<Vec<_>>()
            });
            seeds_seen.insert(o);
        }
        eng.extra("iteration_orders_of_four_keys_reached", serde_json::json!(seeds_seen.len()));
        assert!(seeds_seen.len() == 24, "hash seeds are not controlled");
        for n in [2usize, 3, 4] {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| a < b).collect();
            let g = 1u64 << pairs.len();
            let k = if n < 4 { (KINDS.len() as u64).pow(n as u32) } else { eng.tier(6, 24) };
            let variants = 2u64; // which names sort first
            eng.par(&format!("acyclic graphs over {n} files, all orders of addition and of iteration"), g * k * variants, |w, i| {
                let (gi, ki, vi) = (i % g, i / g % k, i / g / k);
                let nm = |a: usize| format!("f{}.dts", if vi == 0 { a } else { n - 1 - a });
                let mut s = vec![if n == 4 { "300".to_string() } else { "60".to_string() }];
                for a in 0..n {
                    let mut t = "/dts-v1/;\n".to_string();
                    for (x, (p, q)) in pairs.iter().enumerate() {
                        if *p == a && gi >> x & 1 == 1 {
                            t.push_str(&format!("/include/ \"{}\"\n", nm(*q)));
                        }
                    }
                    let kind = if n < 4 { (ki / (KINDS.len() as u64).pow(a as u32)) as usize % KINDS.len() } else { (ki as usize * (a + 1) + a * (ki as usize / 6)) % KINDS.len() };
                    t.push_str(&KINDS[kind].replace('@', &a.to_string()));
                    s.push(nm(a));
                    s.push(t);
                }
                w.case(Case::new("files", s), |w, c| self.judge(w, c));
            });
        }
        // any graph
        for n in [2usize, 3] {
            let g = 1u64 << (n * n);
            eng.par(&format!("any graphs over {n} files"), g * 2, |w, i| {
                let mut s = vec!["60".to_string()];
                for a in 0..n {
                    let mut t = "/dts-v1/;\n".to_string();
                    for b in 0..n {
                        if i / 2 >> (a * n + b) & 1 == 1 {
                            t.push_str(&format!("/include/ \"f{b}.dts\"\n"));
                        }
                    }
                    t.push_str(&KINDS[if i % 2 == 0 { 0 } else { a % KINDS.len() }].replace('@', &a.to_string()));
                    s.push(format!("f{a}.dts"));
                    s.push(t);
                }
                w.case(Case::new("files", s), |w, c| self.judge(w, c));
            });
        }
        // larger projects
        const LARGE: &[&str] = &[
            "/ { l@: n@ { }; };\n/ { u = &l0, &l+, &l-, &{/n0}, &{/n+}; };",
            "/ { l@: n@ { } };\n/ { u = &l+, &no; };",
            "/ { compatible = <1>; l@: n@ { }; shared: n@ { k@ { }; }; };\n&shared { v = &shared, &{/n+/k+}; };",
            "&l+ { m: m { }; };\n&l- { m: m { }; };\n/ { l@: n@ { }; u = &m, &{/n+/m}; };",
            "/delete-node/ &l+;\n/ { l@: n@ { }; u = &l-, &l@; };",
        ];
        let mut list = vec![];
        for n in [5usize, 6, 8, 9, 12, 17].into_iter().chain(eng.tier(None, Some(24))) {
            for shape in (0..9).filter(|s| *s != 5 || n < 10) {
                for names in 0..3 {
                    for kind in 0..LARGE.len() + 2 {
                        let nm = |a: usize| format!("f{:02}.dts", [a, n - 1 - a, a * 7 % 31 + a / 31 * 31][names]);
                        let mut s = vec![eng.tier("8", "40").to_string()];
                        for a in 0..n {
                            let to: Vec<usize> = match shape {
                                0 => vec![a + 1],
                                1 => if a == 0 { (1..n).collect() } else { vec![] },
                                2 => if a + 1 < n { vec![n - 1] } else { vec![] },
                                3 => vec![2 * a + 1, 2 * a + 2],
                                4 => vec![a + 1, a + 2],
                                5 => (a + 1..n).rev().collect(),
                                6 => if a % 2 == 0 { (a + 1..n).step_by(2).collect() } else { vec![] },
                                7 => vec![(a + 1) % n],
                                _ => vec![],
                            };
                            let mut t = "/dts-v1/;\n".to_string();
                            for b in to.into_iter().filter(|b| *b < n) {
                                t.push_str(&format!("/include/ \"{}\"\n", nm(b)));
                            }
                            let x = LARGE[if kind < LARGE.len() { kind } else if kind == LARGE.len() { a % LARGE.len() } else if a == n / 2 { 1 } else { 0 }];
                            t.push_str(&x.replace('@', &a.to_string()).replace("l+", &format!("l{}", a + 1)).replace("n+", &format!("n{}", a + 1)).replace("k+", &format!("k{}", a + 1)).replace("l-", &format!("l{}", a + 2)));
                            s.push(nm(a));
                            s.push(t);
                        }
                        list.push(Case::new("files", s));
                    }
                }
            }
        }
        eng.par_list("larger projects", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // histories
        let ops = ["Oa0", "Oa2", "Oa3", "Oa4", "Ob0", "Ob1", "Ob2", "Ob3", "Ob5", "Oc0", "Oc1", "Oc2", "Xa", "Xb", "Xc", "P", "P1", "P2", "P21"];
        let n = ops.len() as u64;
        let (k, seeds) = eng.tier((3, "6"), (4, "12"));
        for cfg in 0..DISKS.len() {
            eng.par(&format!("histories over disk {cfg}, hash seeds"), seq_count(n, k), |w, i| {
                let mut s = vec![seeds.to_string(), cfg.to_string()];
                s.extend(seq(i, n, k).into_iter().map(|x| ops[x].to_string()));
                w.case(Case::new("history", s), |w, c| self.judge(w, c))
            });
        }
        // include paths
        let mut list = vec![];
        for p in perms(4) {
            for len in 1..=4 {
                let order: String = p[..len].iter().map(|x| (b'1' + *x as u8) as char).collect();
                for m in 0..16u32 {
                    let held: String = (0..4).filter(|x| m >> x & 1 == 1).map(|x| (b'1' + x) as char).collect();
                    list.push(Case::new("dirs", vec!["24".into(), held, order.clone()]));
                }
            }
        }
        list.sort_by_key(|c| c.s.clone());
        list.dedup_by_key(|c| c.s.clone());
        eng.par_list("include paths, hash seeds", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // one file: its own tables
        let mut list = vec![];
        for n in [5usize, 8, 9, 16, 17, 33, 65, 129, 257] {
            let all = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
            for t in [
                format!("/dts-v1/;/{{{}}};/{{p={}&none;}};", all(&|i| format!("l{i}:n{i}{{}};")), all(&|i| format!("&l{i},&{{/n{i}}},&no{i},&{{/no{i}}},"))),
                format!("/dts-v1/;/{{{}}};{}/{{p={}&none;}};", all(&|i| format!("l{i}:n{{k{i}{{}};}};")), all(&|i| format!("&l{i}{{x{i}:m{i}{{}};}};")), all(&|i| format!("&x{i},&l{i},&{{/n/k{i}}},&{{/n/m{i}}},"))),
                format!("/dts-v1/;/{{{}}};{}/{{p={}&none;}};", all(&|i| format!("l{i}:n{i}{{}};")), all(&|i| if i % 2 == 0 { format!("/delete-node/&l{i};") } else { format!("/delete-node/&{{/n{i}}};") }), all(&|i| format!("&l{i},"))),
            ] {
                list.push(Case::new("files", vec!["20".into(), "f0.dts".into(), t]));
            }
        }
        for t in [
            "/dts-v1/;/{a:n{};b:m{};};/{p=&a,&b,&c,&{/n},&{/m},&{/k};};",
            "/dts-v1/;/{a:n{};a:m{};};&a{};/{p=&a,&{/n};};",
            "/dts-v1/;/{n@1{};n@2{};};/{p=&{/n@1},&{/n@2},&{/n};};",
            "/dts-v1/;/{a:n{};};/{n{x:y{};};};&x{};&{/n/y}{};/{p=&x,&a;};",
        ] {
            list.push(Case::new("files", vec!["200".into(), "f0.dts".into(), t.into()]));
        }
        eng.par_list("one file", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
    }
}

