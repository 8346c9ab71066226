//! Checks over projects of several files: C11 to C16.
use crate::engine::*;
use crate::gen::*;
use crate::refparse::*;
use crate::resolve::*;
use crate::sut::{self, D};
use crate::tree::*;
use ginko::dts::Project;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// Writes a file if its content differs from what this worker wrote last.
pub struct Disk {
    pub dir: PathBuf,
    now: BTreeMap<PathBuf, Vec<u8>>,
}

impl Disk {
    pub fn new(dir: &Path) -> Disk {
        std::fs::create_dir_all(dir).unwrap();
        Disk { dir: dir.to_owned(), now: BTreeMap::new() }
    }
    pub fn put(&mut self, name: &str, text: &str) -> PathBuf {
        let p = self.dir.join(name);
        if self.now.get(&p).map(|v| v.as_slice()) != Some(text.as_bytes()) {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, text).unwrap();
            self.now.insert(p.clone(), text.as_bytes().to_vec());
        }
        p
    }
    pub fn gone(&mut self, name: &str) -> PathBuf {
        let p = self.dir.join(name);
        let _ = std::fs::remove_file(&p);
        self.now.remove(&p);
        p
    }
}

/// the disk of the worker
pub fn disk<'a>(w: &'a mut Worker<'_>) -> &'a mut Disk {
    if w.any.as_ref().is_none_or(|a| !a.is::<Disk>()) {
        let d = Disk::new(&w.dir.join("disk"));
        w.any = Some(Box::new(d));
    }
    w.any.as_mut().unwrap().downcast_mut::<Disk>().unwrap()
}

/// Compares every file of the model with the project.
pub fn judge_world(world: &World, p: &Project, only: Option<&[&str]>) -> Result<(bool, usize), String> {
    let mut all = true;
    let mut lints = 0;
    for (f, e) in &world.done {
        let got = sut::diags(p, f);
        if let Some(d) = got.iter().find(|d| &d.file != f) {
            return Err(format!("{}: diagnostic of another file: {} {}", f.display(), d.file.display(), d.short()));
        }
        let r = match (&e.verdict, only) {
            (Verdict::Accept, Some(kinds)) => {
                let exp: Vec<Lint> = e.lints.iter().filter(|l| kinds.contains(&l.kind)).cloned().collect();
                let got: Vec<D> = got.into_iter().filter(|d| kinds.contains(&d.kind.as_str())).collect();
                lints += exp.len();
                compare(&exp, &got).map(|_| Some(true))
            }
            _ => {
                lints += e.lints.len();
                judge_file(e, &got)
            }
        };
        match r {
            Ok(Some(_)) => {}
            Ok(None) => all = false,
            Err(m) => return Err(format!("{}: {m}", f.file_name().unwrap().to_string_lossy())),
        }
    }
    Ok((all, lints))
}

// ---------------------------------------------------------------- C11

pub struct Resolve;

const R_ELEMS: &[&str] = &[
    "/ { a: n { }; };",
    "/ { n { b: m { }; }; };",
    "/ { n { m { }; }; };",
    "/ { c: p = <1>; };",
    "/ { n@1 { e: m { f: q; }; }; };",
    "&a { };",
    "&a { k: m { }; };",
    "&b { y: z { p; }; };",
    "&{/n} { d: k { }; };",
    "&{/n/m} { x { }; };",
    "&k { w: v { }; };",
    "/delete-node/ &a;",
    "/delete-node/ &{/zz};",
    "/delete-node/ &zz;",
    "/omit-if-no-ref/ &b;",
    "/ { u = &a, &b, &k, &d, &c, <&y 1 &e>, <&f>, &w; };",
    "/ { u = &{/n}, &{/n/m}, <&{/n/m/z} &{/n/k}>, &{/n/m/x}, &{/m}, &{/n@1/m}, &{/n/m/v}, &{/}; };",
    "/plugin/;",
    "/ { o { s = <&{/o} &t>; t: r { }; }; };",
];
const UNRES: &[&str] = &["unresolved_reference", "io_error", "errors_in_include"];

impl Check for Resolve {
    fn id(&self) -> &'static str {
        "C11"
    }
    /// s: names and contents of files in turn; the first is the main one, all are open.
    /// "outside": programs that the model leaves open because an include extends what only its
    /// includer defines; s[0] tells how many references of the main file are unresolved.
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let d = disk(w);
        if c.sub == "outside" {
            let mut p = Project::default();
            d.put(&c.s[3], &c.s[4]);
            let main = d.put(&c.s[1], &c.s[2]);
            sut::open(&mut p, &main, &c.s[2]);
            let got: Vec<D> = sut::diags(&p, &main).into_iter().filter(|d| d.kind == "unresolved_reference").collect();
            if got.len().to_string() != c.s[0] {
                return Err(format!("expected {} unresolved references, got {}", c.s[0], sut::show(&got)));
            }
            return ok(1, "outside");
        }
        let mut open = BTreeMap::new();
        let mut order = vec![];
        for f in c.s.chunks(2) {
            let p = d.put(&f[0], "");
            open.insert(p.clone(), f[1].clone());
            order.push((p, f[1].clone()));
        }
        let world = World::new(open, vec![], PathBuf::from("/"));
        let mut p = Project::default();
        for (f, t) in order.iter().rev() {
            sut::open(&mut p, f, t);
        }
        let (all, n) = judge_world(&world, &p, Some(UNRES))?;
        let class = if n == 0 { "all resolved" } else { "some unresolved" };
        if all {
            ok(order.len() as u64 + 1, class)
        } else {
            undecided(order.len() as u64 + 1, class)
        }
    }
    fn explore(&self, eng: &Eng) {
        let ne = R_ELEMS.len() as u64;
        let k = eng.tier(4, 5);
        let text = |v: &[usize]| v.iter().map(|i| R_ELEMS[*i]).collect::<Vec<_>>().join("\n");
        for ext in ["dts", "dtsi", "dtso", "overlay", "txt", "DTS"] {
            let k = if ext == "dts" { k } else { 3 };
            eng.par(&format!("programs in .{ext}"), seq_count(ne, k), |w, i| {
                let c = Case::new("program", vec![format!("main.{ext}"), format!("/dts-v1/;\n{}", text(&seq(i, ne, k)))]);
                w.case(c, |w, c| self.judge(w, c))
            });
        }
        // any names
        for s in names() {
            for ext in ["dts", "dtso"] {
                eng.par(&format!("{} in .{ext}", s.name), s.n, |w, i| {
                    w.case(Case::new("program", vec![format!("main.{ext}"), s.get(i)]), |w, c| self.judge(w, c))
                });
            }
        }
        // other beginnings
        for head in ["", "/plugin/;\n", "/plugin/;\n/dts-v1/;\n", "/dts-v1/;\n/memreserve/ 1 2;\n/plugin/;\n"] {
            let k = eng.tier(2, 3);
            eng.par(&format!("programs that begin with {:?}", head.replace('\n', " ")), seq_count(ne, k), |w, i| {
                let c = Case::new("program", vec!["main.dts".into(), format!("{head}{}", text(&seq(i, ne, k)))]);
                w.case(c, |w, c| self.judge(w, c))
            });
        }
        // one element among many, many different names
        let s = amid("one among many elements", eng.tier(33, 257), "/dts-v1/;\n", R_ELEMS, R_ELEMS, "\n", "");
        eng.par(&s.name, s.n, |w, i| w.case(Case::new("program", vec!["main.dts".into(), s.get(i)]), |w, c| self.judge(w, c)));
        let mut list = vec![];
        for n in COUNTS.iter().filter(|n| **n <= eng.tier(257, 1001)) {
            let all = |f: &dyn Fn(usize) -> String| (0..*n).map(f).collect::<String>();
            let defs = [
                all(&|i| format!("/ {{ l{i}: n{i} {{ }}; }};\n")),
                format!("/ {{ {} }};\n", all(&|i| format!("l{i}: n{i} {{ }};\n"))),
                format!("/ {{ {} }};\n", all(&|i| format!("l{i}: n@{i:x} {{ m {{ }}; }};\n"))),
                format!("/ {{ {} }};\n", all(&|i| format!("l{i}: p{i} = <{i}>;\n"))),
                format!("/ {{ l0: n0 {{ }}; }};\n{}", all(&|i| format!("&l{i} {{ l{}: n{} {{ }}; }};\n", i + 1, i + 1))),
                format!("/ {{ n0 {{ }}; }};\n{}", all(&|i| format!("&{{/n{i}}} {{ }}; / {{ l{0}: n{0} {{ m {{ }}; }}; }};\n", i + 1))),
                format!("/ {{ m: n {{ }}; }};\n{}", all(&|i| format!("&m {{ l{i}: n{i} {{ k {{ }}; }}; }};\n"))),
            ];
            for d in defs {
                for uses in [
                    all(&|i| format!("&l{i}, ")),
                    all(&|i| format!("<&l{}>, ", i + 1)),
                    all(&|i| format!("&{{/n{i}}}, ")),
                    all(&|i| format!("<1 &{{/n@{i:x}/m}}>, ")),
                    all(&|i| format!("&{{/n{i}/m}}, &{{/n/n{i}/k}}, ")),
                    format!("&{{{}}}, ", all(&|i| format!("/n{i}"))),
                ] {
                    let use_ = format!("/ {{ u = {uses}<1>; }};\n");
                    list.push(Case::new("program", vec!["main.dts".into(), format!("/dts-v1/;\n{d}{use_}")]));
                    list.push(Case::new("program", vec!["main.dts".into(), format!("/dts-v1/;\n{use_}{d}")]));
                    list.push(Case::new("include", vec!["main.dts".into(), format!("/dts-v1/;\n/include/ \"i.dtsi\"\n{use_}"), "i.dtsi".into(), d.clone()]));
                }
                let each = all(&|i| format!("&l{i} {{ }};\n/delete-node/ &{{/n{i}}};\n"));
                list.push(Case::new("program", vec!["main.dts".into(), format!("/dts-v1/;\n{d}{each}")]));
            }
        }
        eng.par_list("many names", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        let list: Vec<Case> = definitions_and_places(usize::MAX, 6).into_iter().map(|f| Case::new("places", f)).collect();
        eng.par_list("every kind of definition and every place of a reference", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        let mut list = vec![];
        // deep nesting
        for n in 1..60usize {
            let open: String = (0..n).map(|i| format!("l{i}: n{i} {{ ")).collect();
            let path = |k: usize| (0..k).map(|i| format!("/n{i}")).collect::<String>();
            let uses: String = (0..=n).map(|k| format!("&l{k}, &{{{}}}, ", if k == 0 { "/".into() } else { path(k) })).collect();
            let ext: String = (1..=n).map(|k| format!("&{{{}}} {{ e{k}: x{k} {{ }}; }};\n&l{} {{ f{k}: y{k} {{ }}; }};\n", path(k), k - 1)).collect();
            let euses: String = (1..=n).map(|k| format!("&e{k}, &f{k}, &{{{0}/x{k}}}, &{{{0}/y{k}}}, ", path(k))).collect();
            list.push(Case::new("program", vec!["main.dts".into(), format!("/dts-v1/;\n/ {{ {open}{}}};\n/ {{ u = {uses}<1>; }};\n{ext}/ {{ v = {euses}<1>; }};", "}; ".repeat(n))]));
        }
        eng.par_list("deep nesting", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // every consecutive part of a program in an include
        let k = eng.tier(3, 4);
        for inc in ["i.dtsi", "i.dts", "i.dtso"] {
            let k = if inc == "i.dtsi" { k } else { 3 };
            eng.par(&format!("parts of programs in {inc}"), seq_count(ne, k), |w, i| {
                let v = seq(i, ne, k);
                for a in 0..v.len() {
                    for b in a + 1..=v.len() {
                        let main = format!("/dts-v1/;\n{}\n/include/ \"{inc}\"\n{}", text(&v[..a]), text(&v[b..]));
                        let head = if inc == "i.dts" { "/dts-v1/;" } else { "" };
                        let c = Case::new(
                            "include",
                            vec!["main.dts".into(), main, inc.into(), format!("{head}{}", text(&v[a..b]))],
                        );
                        w.case(c, |w, c| self.judge(w, c));
                    }
                }
            });
        }
        // an include that extends a node of its includer
        let mut list = vec![];
        for (n, uses) in [("1", "&{/child}"), ("0", "&{/n/child}"), ("0", "&c"), ("0", "&x"), ("1", "&d"), ("0", "&{/n}")] {
            let main = format!("/dts-v1/;\n/ {{ x: n {{ }}; }};\n/include/ \"i.dtsi\"\n/ {{ u = {uses}; }};");
            let inc = "&x { c: child { }; };";
            list.push(Case::new("outside", vec![n.into(), "main.dts".into(), main, "i.dtsi".into(), inc.into()]));
        }
        eng.par_list("includes that extend nodes of the includer", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // through two includes
        let k = 3;
        eng.par("parts of programs in nested includes", seq_count(ne, k), |w, i| {
            let v = seq(i, ne, k);
            for a in 0..=v.len() {
                for b in a..=v.len() {
                    for front in [false, true] {
                        let main = format!("/dts-v1/;\n/include/ \"i.dtsi\"\n{}", text(&v[b..]));
                        let j = "/include/ \"j.dtsi\"\n";
                        let i_text = if front { format!("{j}{}", text(&v[a..b])) } else { format!("{}\n{j}", text(&v[a..b])) };
                        let c = Case::new(
                            "nested",
                            vec!["main.dts".into(), main, "i.dtsi".into(), i_text, "j.dtsi".into(), text(&v[..a])],
                        );
                        w.case(c, |w, c| self.judge(w, c));
                    }
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C12

pub struct Includes;

pub fn cwd_setup(eng: &Eng) {
    let d = eng.scratch.join("cwd");
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
}

/// make the working directory of this process the one of the check
pub fn ensure_cwd(w: &Worker<'_>) {
    let d = w.eng.scratch.join("cwd");
    if std::env::current_dir().ok().as_deref() != Some(d.as_path()) {
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
    }
}

impl Check for Includes {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        match c.sub.as_str() {
            "graph" => judge_graph(w, c),
            "many" => self.judge_many(w, c),
            _ => self.judge_place(w, c),
        }
    }
    fn explore(&self, eng: &Eng) {
        cwd_setup(eng);
        // which directories have the file (and in which form) x include paths x spelling
        let lists: &[&str] = &[
            "", "inc1", "inc2", "inc1,inc2", "inc2,inc1", "inc1,inc2,inc3", "inc3,inc1,inc2", "none,inc2", "none", "inc2,none,inc1", "inc1,inc1",
            "none,inc3,none2,inc1", "main", "inc2,main", "FILE,inc1", "inc1/../inc2,inc1", "inc1/sub,inc2", "inc1/,inc2/",
        ];
        let names: &[&str] = &["F", "./F", "sub/F", "../main/F", "../inc2/F", "ABS", "ABSX", "sub/../F", "F/", ".//F", "././F", "F/."];
        let forms = 4u64; // absent, file, directory, unreadable
        let total = forms.pow(5) * (lists.len() * names.len()) as u64;
        eng.par("placements of the included file", total, |w, i| {
            let place = i % forms.pow(5);
            let r = (i / forms.pow(5)) as usize;
            let place: String = (0..5).map(|k| char::from(b'0' + (place / forms.pow(k) % forms) as u8)).collect();
            let c = Case::new("place", vec![place, lists[r % lists.len()].into(), names[r / lists.len()].into()]);
            w.case(c, |w, c| self.judge(w, c))
        });
        // links: absent, file, link to a file, dangling link, link to itself
        let lists: &[&str] = &["", "inc1", "inc1,inc2", "inc2,inc1", "inc3,none,inc1,inc2", "FILE,inc2"];
        let names: &[&str] = &["F", "sub/F"];
        let kinds = [b'0', b'1', b'4', b'5', b'6'];
        eng.par("placements of links to the included file", 3125 * (lists.len() * names.len()) as u64, |w, i| {
            let r = (i / 3125) as usize;
            let place: String = (0..5).map(|k| char::from(kinds[(i / 5u64.pow(k) % 5) as usize])).collect();
            let c = Case::new("place", vec![place, lists[r % lists.len()].into(), names[r / lists.len()].into()]);
            w.case(c, |w, c| self.judge(w, c))
        });
        graphs(eng, self, 4);
        // long lists of include paths: the file in any one or two of the places
        let mut list = vec![];
        for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 64, 65].into_iter().chain(eng.tier(None, Some(130))) {
            for a in 0..n {
                for b in [None, Some(a + 1), Some(n - 1)].into_iter().filter(|b| b.is_none_or(|b| b > a && b < n)) {
                    let held = [Some(a), b].iter().flatten().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                    list.push(Case::new("many", vec![n.to_string(), held, "f.dtsi".into(), "f.dtsi".into()]));
                }
            }
        }
        eng.par_list("long lists of include paths", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // many files included by one, directly or one by the other
        let mut list = vec![];
        for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 128, 200, 256, 257, 300] {
            for gone in [None, Some(0), Some(n / 2), Some(n - 1)] {
                for nested in [false, true] {
                    for between in ["", "/ { };\n", "/ { v = &l0, &m; };\n"] {
                        let inc = |j: usize| format!("/include/ \"i{j}.dtsi\"\n{between}");
                        let uses: String = (0..n).map(|k| format!("&l{k}, &{{/n{k}}}, ")).collect();
                        let incs: String = (0..if nested { 1 } else { n }).map(inc).collect();
                        let mut s = vec!["a.dts".to_string(), format!("/dts-v1/;\n{incs}/ {{ u = {uses}&l{n}; }};")];
                        for j in 0..n {
                            s.push(format!("i{j}.dtsi"));
                            if Some(j) == gone {
                                s.push("\0".into());
                                continue;
                            }
                            s.push(format!("{}/ {{ l{j}: n{j} {{ }}; }};", if nested && j + 1 < n { inc(j + 1) } else { String::new() }));
                        }
                        list.push(Case::new("graph", s));
                    }
                }
            }
        }
        eng.par_list("many included files", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // lists of directives, of which several may fail
        let dirs = ["f.dtsi", "g.dtsi", "no.dtsi", "nor.dtsi", "sub", "./no.dtsi", "sub/h.dtsi", "", "f.dtsi/no"];
        let n = dirs.len() as u64;
        for len in 1..=eng.tier(4u32, 5) {
            eng.par(&format!("lists of {len} directives"), n.pow(len) * 4, |w, i| {
                let (nested, between, mut i) = (i % 2 == 1, i / 2 % 2 == 1, i / 4);
                let mut list = String::new();
                for _ in 0..len {
                    list.push_str(&format!("/include/ \"{}\"\n{}", dirs[(i % n) as usize], if between { "/ { w = <1 &lh>; };\n" } else { "" }));
                    i /= n;
                }
                let uses = "/ { u = &lf, &lg, &lh, &li; };";
                let root = if nested { format!("/dts-v1/;\n/include/ \"i.dtsi\"\n{uses}") } else { format!("/dts-v1/;\n{list}{uses}") };
                let mut s: Vec<String> = ["a.dts", &root].map(String::from).to_vec();
                for (name, text) in [("f.dtsi", "/ { lf: f { }; };"), ("g.dtsi", "/include/ \"nor.dtsi\"\n/ { lg: g { }; };"), ("sub/h.dtsi", "/ { lh: h { }; };")] {
                    s.extend([name.to_string(), text.to_string()]);
                }
                s.extend(["i.dtsi".to_string(), format!("{list}/ {{ li: i {{ }}; }};")]);
                w.case(Case::new("graph", s), |w, c| self.judge(w, c))
            });
        }
        // names of files
        let long = "x".repeat(200);
        let names = [
            "f", "f.h", "F.DTSI", "f.dtsi", "f.DTSI", "é€𝄞.dtsi", "a b.dtsi", ".f", ".dtsi", "a.b.c.dtsi", "f.dts", "f.dtso", "sub/deep/f.dtsi", "f~", "f.dtsi.bak",
            "%41.dtsi", "A.dtsi", "f;.dtsi", "a\"b", "x\\y", "$HOME", "~", "-i", " f", "f ", "f.dtsi ", "{f}", "f*.dtsi", "f//g", "f\ng", "f\tg", "...", "f.", "1", "é", "e\u{301}", &long,
        ];
        let mut list = vec![];
        for a in &names {
            for b in &names {
                for (n, held) in [("0", ""), ("1", "0"), ("2", "1"), ("1", "main")] {
                    list.push(Case::new("many", vec![n.into(), held.into(), a.to_string(), b.to_string()]));
                }
            }
        }
        eng.par_list("names of included files", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
    }
}

const PLACES: [&str; 5] = ["main", "inc1", "inc2", "inc3", "cwd"];

impl Includes {
    /// s: number of include paths, those that hold the file, its name, the name in the directive
    fn judge_many(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        ensure_cwd(w);
        let n: usize = c.s[0].parse().unwrap();
        let base = w.dir.join("many");
        let dir = |k: &str| base.join(if k == "main" { k.to_string() } else { format!("p{k}") });
        let _ = std::fs::remove_dir_all(&base);
        for k in (0..n).map(|k| k.to_string()).chain(["main".to_string()]) {
            std::fs::create_dir_all(dir(&k)).unwrap();
        }
        for k in c.s[1].split(',').filter(|x| !x.is_empty()) {
            let f = dir(k).join(&c.s[2]);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(&f, format!("/ {{ l{k}: n{k} {{ }}; }};")).unwrap();
        }
        let uses: String = (0..n).map(|k| format!("&l{k}, ")).collect();
        let name = c.s[3].replace('\\', "\\\\").replace('"', "\\\"");
        let text = format!("/dts-v1/;\n/include/ \"{name}\"\n/ {{ u = {uses}&lmain; }};");
        let list: Vec<PathBuf> = (0..n).map(|k| dir(&k.to_string())).collect();
        let path = dir("main").join("doc.dts");
        let mut p = Project::default();
        p.set_include_paths(list.iter().map(|x| x.display().to_string()).collect());
        sut::open(&mut p, &path, &text);
        let world = World::new(BTreeMap::from([(path.clone(), text)]), list, w.eng.scratch.join("cwd"));
        let (all, _) = judge_world(&world, &p, None)?;
        for f in world.files() {
            if p.get_file(f).is_none() {
                return Err(format!("{} is not part of the project", f.display()));
            }
        }
        let class = match world.done[&path].includes.first() {
            Some(Some(_)) => "found",
            _ => "not found",
        };
        if all {
            ok(2, class)
        } else {
            undecided(2, class)
        }
    }
    /// s: form per place, include paths, spelling
    fn judge_place(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        ensure_cwd(w);
        let base = w.dir.join("inc");
        let cwd = w.eng.scratch.join("cwd");
        let fname = format!("f{}.dtsi", w.tid);
        let dir_of = |p: &str| if p == "cwd" { cwd.clone() } else { base.join(p) };
        for (k, p) in PLACES.iter().enumerate() {
            for sub in ["", "sub"] {
                let d = dir_of(p).join(sub);
                std::fs::create_dir_all(&d).unwrap();
                let f = d.join(&fname);
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::remove_dir(&f);
                let label = format!("l_{p}{sub}");
                match c.s[0].as_bytes()[k] {
                    b'1' => std::fs::write(&f, format!("/ {{ {label}: {label} {{ }}; }};")).unwrap(),
                    b'2' => std::fs::create_dir(&f).unwrap(),
                    b'3' => std::fs::write(&f, b"/ { \xff\xfe };").unwrap(),
                    b'4' => {
                        let store = base.join("store");
                        std::fs::create_dir_all(&store).unwrap();
                        let at = store.join(format!("{label}.dtsi"));
                        std::fs::write(&at, format!("/ {{ {label}: {label} {{ }}; }};")).unwrap();
                        std::os::unix::fs::symlink(at, &f).unwrap()
                    }
                    b'5' => std::os::unix::fs::symlink("gone", &f).unwrap(),
                    b'6' => std::os::unix::fs::symlink(&fname, &f).unwrap(),
                    _ => {}
                }
            }
        }
        let name = match c.s[2].as_str() {
            "ABS" => dir_of("inc3").join(&fname).display().to_string(),
            "ABSX" => dir_of("inc9").join(&fname).display().to_string(),
            n => n.replace('F', &fname),
        };
        let mut text = format!("/dts-v1/;\n/include/ \"{name}\"\n/ {{ u = ");
        let mut first = true;
        for p in PLACES {
            for sub in ["", "sub"] {
                text.push_str(&format!("{}&l_{p}{sub}, &{{/l_{p}{sub}}}", if first { "" } else { ", " }));
                first = false;
            }
        }
        text.push_str("; };");
        let list: Vec<String> = c.s[1]
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| match x {
                "none" | "none2" => base.join(x).display().to_string(),
                "FILE" => base.join("main").join(&fname).display().to_string(),
                x => base.join(x).display().to_string(),
            })
            .collect();
        let valid: Vec<PathBuf> = list.iter().filter_map(|p| std::fs::canonicalize(p).ok()).collect();
        let path = base.join("main").join("doc.dts");
        let mut p = Project::default();
        p.set_include_paths(list);
        sut::open(&mut p, &path, &text);
        let world = World::new(BTreeMap::from([(path.clone(), text)]), valid, cwd);
        let (all, n) = judge_world(&world, &p, None)?;
        // the included file really is part of the project
        for f in world.files() {
            if p.get_file(f).is_none() {
                return Err(format!("{} is not part of the project", f.display()));
            }
        }
        let class = if world.done[&path].includes[0].is_some() { "found" } else { "not found" };
        let _ = n;
        if all {
            ok(2, class)
        } else {
            undecided(2, class)
        }
    }
}

/// Acyclic include graphs over `n` files: each file includes some later files at some point,
/// defines its own label and uses the labels of all.
fn graphs(eng: &Eng, check: &dyn Check, n: usize) {
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    // none, at the front, in the middle, at the end, twice
    let m = 4u64;
    let total = m.pow(pairs.len() as u32) * 2;
    eng.par("acyclic include graphs", total, |w, i| {
        let dirs = i % 2 == 1;
        let code = i / 2;
        let mut texts = vec![];
        for a in 0..n {
            let name = |b: usize| -> String {
                let f = if b == 0 { "f0.dts".to_string() } else { format!("f{b}.dtsi") };
                if dirs { format!("{}d{b}/{f}", "../") } else { f }
            };
            let (mut front, mut mid, mut back) = (String::new(), String::new(), String::new());
            for (k, (x, b)) in pairs.iter().enumerate() {
                if *x != a {
                    continue;
                }
                let inc = format!("/include/ \"{}\"\n", name(*b));
                match code / m.pow(k as u32) % m {
                    1 => front.push_str(&inc),
                    2 => mid.push_str(&inc),
                    3 => {
                        back.push_str(&inc);
                        front.insert_str(0, &inc);
                    }
                    _ => {}
                }
            }
            let uses: Vec<String> = (0..n).map(|b| format!("&l{b}, &{{/n{b}}}")).collect();
            let exts: String = (0..n).map(|b| format!("&l{b} {{ e{a} {{ }}; }};\n")).collect();
            let head = if a == 0 { "/dts-v1/;\n" } else { "" };
            texts.push(format!(
                "{head}{front}/ {{ l{a}: n{a} {{ }}; }};\n{mid}{exts}/ {{ u = {}; }};\n{back}",
                uses.join(", ")
            ));
        }
        let mut s = vec![];
        for (a, t) in texts.into_iter().enumerate() {
            let f = if a == 0 { "f0.dts".to_string() } else { format!("f{a}.dtsi") };
            s.push(if dirs { format!("d{a}/{f}") } else { f });
            s.push(t);
        }
        w.case(Case::new("graph", s), |w, c| check.judge(w, c));
    });
}

/// s: names and contents of the files on disk; the first is opened
fn judge_graph(w: &mut Worker<'_>, c: &Case) -> Judged {
    ensure_cwd(w);
    let cwd = w.eng.scratch.join("cwd");
    let d = disk(w);
    let mut root = None;
    for f in c.s.chunks(2) {
        // a file that is not there
        let p = if f[1] == "\0" { d.gone(&f[0]) } else { d.put(&f[0], &f[1]) };
        root.get_or_insert(p);
    }
    let root = root.unwrap();
    let mut p = Project::default();
    p.add_file(root.display().to_string()).map_err(|e| format!("cannot add the file: {e}"))?;
    let world = World::new(BTreeMap::from([(root.clone(), c.s[1].clone())]), vec![], cwd);
    let (all, n) = judge_world(&world, &p, None)?;
    let files: BTreeSet<PathBuf> = p.files().map(|f| f.to_owned()).collect();
    let model: BTreeSet<PathBuf> = world.files().cloned().collect();
    let clean = world.done.values().all(|e| e.verdict == Verdict::Accept);
    let stored: BTreeSet<PathBuf> = c.s.chunks(2).filter(|f| f[1] != "\0").map(|f| root.parent().unwrap().join(&f[0])).chain([root.clone()]).collect();
    // what a rejected file includes may or may not be loaded
    if (clean && files != model) || !files.is_superset(&model) || (c.s.len() > 2 && !c.s[0].contains('/') && !files.is_subset(&stored)) {
        return Err(format!("files of the project: {files:?}, expected: {model:?}"));
    }
    let mut listed: Vec<String> = p.all_diagnostics().map(|d| format!("{d:?}")).collect();
    let mut each: Vec<String> = files.iter().flat_map(|f| p.get_diagnostics(f)).map(|d| format!("{d:?}")).collect();
    listed.sort();
    each.sort();
    if listed != each {
        return Err(format!("all diagnostics {listed:?}, by file {each:?}"));
    }
    let class = if n == 0 { "clean" } else { "with diagnostics" };
    if all {
        ok(2, class)
    } else {
        undecided(2, class)
    }
}

// ---------------------------------------------------------------- C13

pub struct Cycles;

fn cyc_name(b: usize) -> String {
    if b == 0 { "f0.dts".into() } else { format!("f{b}.dtsi") }
}

/// The file and its name by a code: a digit is the file itself, letters are other names of the files
/// 0 to 3: links, by a linked directory, with a dot, with detours
fn other_name(c: char) -> Option<(usize, String)> {
    if let Some(k) = c.to_digit(36).filter(|_| c.is_ascii_digit()) {
        return Some((k as usize, cyc_name(k as usize)));
    }
    let k = (c as usize).checked_sub('a' as usize)?;
    let (kind, k) = (k / 4, k % 4);
    let f = cyc_name(k);
    Some((k, match kind {
        0 => f.replace('f', "l"),
        1 => format!("ld/{f}"),
        2 => format!("./{f}"),
        _ => format!("sub/../{f}"),
    }))
}

impl Check for Cycles {
    fn id(&self) -> &'static str {
        "C13"
    }
    /// "graph": adjacency in order of the directives per file, order of opening, content kind;
    /// "chain": number of files, what the last one includes, the file that is opened, content kind
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let named = |r: &str| -> Vec<(usize, String)> { r.chars().filter_map(other_name).collect() };
        let (adj, order): (Vec<Vec<usize>>, Vec<usize>) = if c.sub == "chain" {
            let n: usize = c.s[0].parse().unwrap();
            let last = c.s[1].parse::<usize>().into_iter().collect();
            ((1..n).map(|k| vec![k]).chain([last]).collect(), vec![c.s[2].parse().unwrap()])
        } else {
            let digits = |r: &str| named(r).into_iter().map(|x| x.0).collect();
            (c.s[0].split(';').map(digits).collect(), digits(&c.s[1]))
        };
        let n = adj.len();
        let d = disk(w);
        if c.sub == "links" && !d.dir.join("ld").exists() {
            for k in 0..4 {
                std::os::unix::fs::symlink(cyc_name(k), d.dir.join(cyc_name(k).replace('f', "l"))).unwrap();
            }
            std::os::unix::fs::symlink(".", d.dir.join("ld")).unwrap();
            std::fs::create_dir_all(d.dir.join("sub")).unwrap();
        }
        let mut paths = vec![];
        let mut texts = vec![];
        for a in 0..n {
            let mut t = if a == 0 { "/dts-v1/;\n".to_string() } else { String::new() };
            match c.s[2].as_str() {
                "defs" => t.push_str(&format!("/ {{ l{a}: n{a} {{ }}; u = &l{a}; }};\n")),
                "errors" => t.push_str("/ { n { }; p; };\n"),
                _ => {}
            }
            let names: Vec<String> = match c.sub.as_str() {
                "links" => named(c.s[0].split(';').nth(a).unwrap()).into_iter().map(|x| x.1).collect(),
                _ => adj[a].iter().map(|b| cyc_name(*b)).collect(),
            };
            for b in names {
                t.push_str(&format!("/include/ \"{b}\"\n"));
            }
            paths.push(d.put(&cyc_name(a), &t));
            texts.push(t);
        }
        let base = d.dir.clone();
        let by: Vec<String> = if c.sub == "links" { named(&c.s[1]).into_iter().map(|x| x.1).collect() } else { vec![] };
        let mut p = Project::default();
        let mut steps = 0;
        let mut cyclic = false;
        for (k, o) in order.iter().enumerate() {
            match by.get(k) {
                Some(name) => sut::open(&mut p, &base.join(name), &texts[*o]),
                None => sut::open(&mut p, &paths[*o], &texts[*o]),
            }
            steps += 1;
            // reachable part
            let mut seen = BTreeSet::new();
            let mut stack: Vec<usize> = order[..=k].to_vec();
            while let Some(x) = stack.pop() {
                if seen.insert(x) {
                    stack.extend(&adj[x]);
                }
            }
            let reach = |from: usize| -> BTreeSet<usize> {
                let mut s = BTreeSet::new();
                let mut st = adj[from].clone();
                while let Some(x) = st.pop() {
                    if s.insert(x) {
                        st.extend(&adj[x]);
                    }
                }
                s
            };
            cyclic = seen.iter().any(|x| reach(*x).contains(x));
            let errs: Vec<D> = seen
                .iter()
                .flat_map(|x| sut::diags(&p, &paths[*x]))
                .filter(|d| d.kind == "cyclic_dependency_error")
                .collect();
            if cyclic && errs.is_empty() {
                return Err(format!("no cyclic include reported after opening {:?}", &order[..=k]));
            }
            if !cyclic && !errs.is_empty() {
                return Err(format!("cyclic include reported without a cycle: {}", sut::show(&errs)));
            }
            // per checked file: the error is found among the files it reaches
            for x in order[..=k].iter() {
                let r: BTreeSet<usize> = reach(*x).into_iter().chain([*x]).collect();
                let here = r.iter().any(|y| reach(*y).contains(y));
                let found = r.iter().flat_map(|y| sut::diags(&p, &paths[*y])).any(|d| d.kind == "cyclic_dependency_error");
                if here != found {
                    return Err(format!("file {x} reaches a cycle: {here}, reported: {found}"));
                }
            }
            for e in &errs {
                if e.sev != "error" {
                    return Err(format!("not an error: {}", e.short()));
                }
                let Some(list) = e.msg.strip_prefix("Cyclic include: ") else {
                    return Err(format!("message does not name a cycle: {}", e.msg));
                };
                let names: Vec<Option<usize>> =
                    list.split(" -> ").map(|x| paths.iter().position(|p| p.as_path() == Path::new(x))).collect();
                if names.iter().any(|x| x.is_none()) || names.len() < 2 || names.first() != names.last() {
                    return Err(format!("not a cycle of files: {}", e.msg));
                }
                let names: Vec<usize> = names.into_iter().flatten().collect();
                let fwd = names.windows(2).all(|p| adj[p[0]].contains(&p[1]));
                let bwd = names.windows(2).all(|p| adj[p[1]].contains(&p[0]));
                if !fwd && !bwd {
                    return Err(format!("the named cycle does not exist: {}", e.msg));
                }
                // it is reported at an include directive
                let file = paths.iter().position(|p| *p == e.file).unwrap();
                let spans: Vec<Sp> = parse(&texts[file])
                    .elems
                    .iter()
                    .filter_map(|x| if let Elem::Include { sp, .. } = x { Some(*sp) } else { None })
                    .collect();
                if !spans.contains(&e.sp) {
                    return Err(format!("not at an include directive: {}", e.short()));
                }
            }
        }
        ok(steps, if cyclic { "cyclic" } else { "acyclic" })
    }
    fn explore(&self, eng: &Eng) {
        let show = |adj: &[Vec<usize>]| -> String {
            adj.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<String>()).collect::<Vec<_>>().join(";")
        };
        let perms = |n: usize| -> Vec<String> {
            let mut out = vec![];
            fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<String>) {
                out.push(cur.iter().map(|x| x.to_string()).collect());
                for k in 0..n {
                    if !cur.contains(&k) {
                        cur.push(k);
                        go(n, cur, out);
                        cur.pop();
                    }
                }
            }
            go(n, &mut vec![], &mut out);
            out.retain(|x| !x.is_empty());
            out
        };
        // rows: every sequence of distinct targets
        let rows = |n: usize, all_orders: bool| -> Vec<Vec<usize>> {
            let mut out: Vec<Vec<usize>> = vec![];
            for i in 0..seq_count(n as u64, n as u32) {
                let v = seq(i, n as u64, n as u32);
                let set: BTreeSet<usize> = v.iter().copied().collect();
                if set.len() == v.len() && (all_orders || v.windows(2).all(|w| w[0] < w[1])) {
                    out.push(v);
                }
            }
            out
        };
        for (n, all_orders, orders) in [
            (1, true, perms(1)),
            (2, true, perms(2)),
            (3, true, perms(3)),
            (4, false, eng.tier(vec!["0".to_string(), "3210".into(), "12".into()], perms(4))),
        ] {
            let r = rows(n, all_orders);
            let total = (r.len() as u64).pow(n as u32);
            eng.par(&format!("include graphs over {n} files"), total, |w, i| {
                let adj: Vec<Vec<usize>> = (0..n).map(|k| r[(i / (r.len() as u64).pow(k as u32)) as usize % r.len()].clone()).collect();
                for o in &orders {
                    let c = Case::new("graph", vec![show(&adj), o.clone(), if i % 2 == 0 { "defs" } else { "" }.into()]);
                    w.case(c, |w, c| self.judge(w, c));
                }
            });
        }
        if eng.thorough {
            // five files, opened from the first
            eng.par("include graphs over 5 files", 1 << 20, |w, i| {
                // no self-includes
                let mut k = 0;
                let mut adj = vec![vec![]; 5];
                for (a, row) in adj.iter_mut().enumerate() {
                    for b in 0..5 {
                        if a != b {
                            if i >> k & 1 == 1 {
                                row.push(b);
                            }
                            k += 1;
                        }
                    }
                }
                let c = Case::new("graph", vec![show(&adj), "0".into(), "".into()]);
                w.case(c, |w, c| self.judge(w, c));
            });
        }
        // repeated directives
        let r: Vec<Vec<usize>> = (0..seq_count(3, 2)).map(|i| seq(i, 3, 2)).collect();
        eng.par("repeated include directives", (r.len() as u64).pow(3), |w, i| {
            let adj: Vec<Vec<usize>> = (0..3).map(|k| r[(i / (r.len() as u64).pow(k)) as usize % r.len()].clone()).collect();
            for o in ["0", "12", "210"] {
                let c = Case::new("graph", vec![show(&adj), o.into(), "errors".into()]);
                w.case(c, |w, c| self.judge(w, c));
            }
        });
        // other names of the files
        let codes: Vec<char> = "01abefijmn".chars().collect();
        let m = codes.len() as u64;
        let rows: Vec<String> = (0..seq_count(m, 2)).map(|i| seq(i, m, 2).into_iter().map(|k| codes[k]).collect()).collect();
        let n = rows.len() as u64;
        eng.par("other names of two files", n * n, |w, i| {
            for o in ["0", "1", "b0", "a", "e1", "a0", "n"] {
                let c = Case::new("links", vec![format!("{};{}", rows[(i % n) as usize], rows[(i / n) as usize]), o.into(), if i % 2 == 0 { "defs" } else { "" }.into()]);
                w.case(c, |w, c| self.judge(w, c));
            }
        });
        let kinds = eng.tier(3u64, 4);
        let n = kinds.pow(3);
        eng.par("other names of three files", n.pow(3), |w, i| {
            let row = |a: u64| -> String {
                let r = i / n.pow(a as u32) % n;
                (0..3u32).filter_map(|b| match r / kinds.pow(b) % kinds { 0 => None, 1 => char::from_digit(b, 10), 2 => Some(char::from(b'a' + b as u8)), _ => Some(char::from(b'e' + b as u8)) }).collect()
            };
            for o in ["0", "1b"] {
                let c = Case::new("links", vec![format!("{};{};{}", row(0), row(1), row(2)), o.into(), "defs".into()]);
                w.case(c, |w, c| self.judge(w, c));
            }
        });
        // long chains, which end or lead back
        let mut list = vec![];
        for n in [6, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129].into_iter().chain(eng.tier(vec![], (2..150).collect())) {
            for last in ["-".to_string(), "0".into(), "1".into(), (n / 2).to_string(), (n - 2).to_string(), (n - 1).to_string()] {
                for o in [0, 1, n / 2, n - 1] {
                    for text in ["", "defs"] {
                        list.push(Case::new("chain", vec![n.to_string(), last.clone(), o.to_string(), text.into()]));
                    }
                }
            }
        }
        for n in [200, 255, 256, 257, 300, 512, 1000] {
            for last in ["-".to_string(), "0".into(), (n / 2).to_string(), (n - 1).to_string()] {
                list.push(Case::new("chain", vec![n.to_string(), last, "0".into(), String::new()]));
            }
        }
        eng.par_list("long chains and cycles", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // diamonds and chains whose number of routes explodes
        let n = 9;
        let lay: Vec<Vec<usize>> = (0..n).map(|a| (a + 1..n).collect()).collect();
        let mut back = lay.clone();
        back[n - 1].push(0);
        let list = [show(&lay), show(&back)];
        eng.par_list("many routes", &list, |w, a| {
            w.case(Case::new("graph", vec![a.clone(), "0".into(), "defs".into()]), |w, c| self.judge(w, c))
        });
    }
}

// ---------------------------------------------------------------- C14

pub struct Faults;

const FLAVOURS: &[&str] = &[
    "/ { };",
    "/ { compatible = <1>; };",
    "/ { n { }; p; };",
    "/ { n { }",
    "/ { n { } };",
    "/include/ \"missing.dtsi\"",
    "/ { aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd { }; };",
    "/ { p = &nowhere; };",
    "/ { 1n { }; }; /dts-v1/; /dts-v1/;",
    "/ { p = <(1>; };",
    "&{} { };",
    "/ { /omit-if-no-ref/ p; };",
    "/ { p = [123]; q = <0x100000000>; };",
    "/ { @1 { }; };",
    "/ {",
    "/ { n }; };",
    "/include/ \"warn.dtsi\";",
    "/dts-v1/; /plugin/; / { a b = <&c>; };",
];

impl Check for Faults {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        judge_graph(w, c)
    }
    fn explore(&self, eng: &Eng) {
        cwd_setup(eng);
        for (n, flav) in [(2usize, FLAVOURS.len()), (3, FLAVOURS.len()), (4, eng.tier(5, FLAVOURS.len()))] {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
            let g = 1u64 << pairs.len();
            let f = (flav as u64).pow(n as u32);
            let exts: &[&str] = &["dtsi", "dts", "dtso"];
            let ne = if n == 4 { 1 } else { 3 };
            eng.par(&format!("acyclic graphs over {n} files with faults"), g * f * ne as u64, |w, i| {
                let (gi, fi, ei) = (i % g, i / g % f, (i / g / f) as usize);
                let name = |b: usize| if b == 0 { "f0.dts".to_string() } else { format!("f{b}.{}", exts[ei]) };
                let mut s = vec![];
                for a in 0..n {
                    let mut t = if a == 0 || exts[ei] == "dts" { "/dts-v1/;\n".to_string() } else { String::new() };
                    for (k, (x, b)) in pairs.iter().enumerate() {
                        if *x == a && gi >> k & 1 == 1 {
                            t.push_str(&format!("/include/ \"{}\"\n", name(*b)));
                        }
                    }
                    t.push_str(FLAVOURS[(fi / (flav as u64).pow(a as u32)) as usize % flav]);
                    s.push(name(a));
                    s.push(t);
                }
                w.case(Case::new("graph", s), |w, c| self.judge(w, c));
            });
        }
        // many harmless or questionable elements around one fault
        let sizes: Vec<usize> = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129].into_iter().chain(eng.tier(None, Some(257)).into_iter()).chain(eng.tier(None, Some(1025))).collect();
        let fillers = ["/ { };", "/ { compatible = <1>; };", "/ { aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd { }; };", "/dts-v1/;", "/ { n { c: m { p = <&c>; }; }; };", "&a { };"];
        let mut list = vec![];
        for k in &sizes {
            for filler in fillers {
                for fault in FLAVOURS {
                    let many = format!("{filler}\n").repeat(*k);
                    for text in [format!("{many}{fault}"), format!("{fault}\n{many}"), format!("{many}{fault}\n{many}")] {
                        let s = ["a.dts", "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { };", "b.dtsi", "/include/ \"c.dtsi\"\n/ { };", "c.dtsi", &text];
                        list.push(Case::new("graph", s.map(String::from).to_vec()));
                    }
                }
            }
            // one of many includes is faulty
            for at in [0, 1, k / 2, k - 1] {
                for fault in FLAVOURS {
                    let mut s: Vec<String> = vec!["a.dts".into(), format!("/dts-v1/;\n{}/ {{ }};", (0..*k).map(|j| format!("/include/ \"i{j}.dtsi\"\n")).collect::<String>())];
                    for j in 0..*k {
                        s.push(format!("i{j}.dtsi"));
                        s.push(if j == at { fault.to_string() } else { "/ { compatible = <1>; };".into() });
                    }
                    list.push(Case::new("graph", s));
                }
            }
        }
        // a fault far away
        for k in [5usize, 8, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300] {
            for fault in FLAVOURS.iter().take(if k < 40 { 99 } else if k < 200 { 6 } else { 3 }) {
                for at in [k, k / 2] {
                    for wide in [false, true] {
                        let mut s: Vec<String> = vec!["a.dts".into(), "/dts-v1/;\n/include/ \"i1.dtsi\"\n/ { };".into()];
                        if wide {
                            // a file next to each
                            s[1] = "/dts-v1/;\n/include/ \"x.dtsi\"\n/include/ \"i1.dtsi\"\n/ { };".into();
                        }
                        for j in 1..=k {
                            s.push(format!("i{j}.dtsi"));
                            let next = if j < k { format!("/include/ \"i{}.dtsi\"\n", j + 1) } else { String::new() };
                            s.push(format!("{next}{}{}", if wide { "/include/ \"x.dtsi\"\n" } else { "" }, if j == at { fault } else { "/ { compatible = <1>; };" }));
                        }
                        s.extend(["x.dtsi".to_string(), "/ { };".into()]);
                        list.push(Case::new("graph", s));
                    }
                }
            }
        }
        eng.par_list("one fault among many elements and includes", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
    }
}

/// Files in which a node is defined in every way and a reference stands in every place
pub fn definitions_and_places(spellings: usize, orders: usize) -> Vec<Vec<String>> {
    let mut list = vec![];
    // every kind of definition x every place of a reference x spellings x order
        const BASE: &str = "/ { a: n { b: m { }; }; o@1 { }; p { pl: q; }; };\n";
        const DEFINE: &[(&str, &str)] = &[
            ("/ { z: k { }; };", "/k"),
            ("/ { z: k@1F,0 { p; q = <1>; w { }; }; };", "/k@1F,0"),
            ("/ { n { z: k { }; }; };", "/n/k"),
            ("/ { x1 { x2 { x3 { z: k { }; }; }; }; };", "/x1/x2/x3/k"),
            ("/ { /omit-if-no-ref/ z: k { }; };", "/k"),
            ("/ { n { /omit-if-no-ref/ z: k { }; j { }; }; };", "/n/k"),
            ("&a { z: k { }; };", "/n/k"),
            ("&b { z: k { }; };", "/n/m/k"),
            ("&{/n} { z: k { }; };", "/n/k"),
            ("&{/n/m} { r; z: k { j: w { }; }; };", "/n/m/k"),
            ("&a { m { z: k { }; }; };", "/n/m/k"),
            ("&{/} { z: k { }; };", "/k"),
            ("/ { z: n { }; };", "/n"),
            ("&{/o@1} { z: k { }; };", "/o@1/k"),
            ("/ { n { }; n { z: k { }; }; };", "/n/k"),
            ("/ { k { }; };\n/ { z: k { }; };", "/k"),
            ("/ { z: k { }; };\n/ { k { }; };", "/k"),
            ("/ { z: k { }; };\n&z { z2: j { }; };\n&{/k/j} { z3: i { }; };", "/k/j/i"),
            ("/ { z: k; };", "/k"),
            ("/ { n { z: k = <1>; }; };", "/n/k"),
            ("&a { z: k = \"s\"; };", "/n/k"),
            ("/ { q = &a; z: k { r = &b; }; };", "/k"),
            ("/ { z: k { } };", "/k"),
            ("/ { k { }; p; z: j { }; };", "/j"),
            ("/ { /delete-node/ y; z: k { /delete-property/ p; }; };", "/k"),
            ("/memreserve/ 1 2;\n/ { z: k { }; };", "/k"),
            ("/ { __symbols__ { z: k { }; }; };", "/__symbols__/k"),
        ];
        const USE: &[&str] = &[
            "/ { u = @; };", "/ { u = <@>; };", "/ { u = <1 @ 2>; };", "/ { u = <(1 + 2) @>; };", "/ { u = <&a @ &b>; };", "/ { u = \"s\", @; };", "/ { u = <1>, [00], <@>, \"x\"; };",
            "/ { u = r1: @ r2:; };", "/ { u = <r3: @ r4:>; };", "/ { ul: u = @; };", "/ { compatible = \"a\", @; };", "/ { phandle = <@>; };", "/ { v { u = @; }; };", "/ { v@1 { w { u = <@>; }; }; };",
            "&a { u = @; };", "&{/n} { u = <@>; };", "&b { v { u = @; }; };", "&nope { u = @; };", "&{/nope} { v { u = <@>; }; };", "/ { v { }; u = @; };", "/ { /omit-if-no-ref/ v { u = @; }; };",
            "/ { __symbols__ { u = @; }; };", "/ { n { u = @; }; n { u = @; }; };", "/ { u = @, @, <@ @>; };", "/ { u = @; u = <1>; };", "/ { u = /bits/ 32 <@>; };", "@ { };", "@ { k { }; };",
            "/delete-node/ @;", "/ { v: n { u = @; /delete-property/ u; }; };", "/ { u = <@\n1>\n, <2>; w = @; };",
        ];
        for (def, path) in DEFINE {
            for use_ in USE {
                for r in ["&z".to_string(), format!("&{{{path}}}"), format!("&{{{path}/no}}"), "&zz".into(), format!("&{{/no{path}}}"), format!("&{{{}}}", path.to_uppercase()), format!("&{{{path}@1}}")].into_iter().take(spellings) {
                    let use_ = use_.replace('@', "\0").replace("v\01", "v@1").replace('\0', &r);
                    for order in 0..orders {
                        let mut files = vec!["main.dts".to_string()];
                        let inc = "/include/ \"i.dtsi\"\n";
                        match order {
                            0 => files.push(format!("/dts-v1/;\n{BASE}{def}\n{use_}")),
                            1 => files.push(format!("/dts-v1/;\n{BASE}{use_}\n{def}")),
                            2 => files.extend([format!("/dts-v1/;\n{inc}{use_}"), "i.dtsi".into(), format!("{BASE}{def}")]),
                            3 => files.extend([format!("/dts-v1/;\n{inc}{def}\n{use_}"), "i.dtsi".into(), BASE.into()]),
                            4 => files.extend([format!("/dts-v1/;\n{use_}\n{inc}"), "i.dtsi".into(), format!("{BASE}{def}")]),
                            _ => files.extend([format!("/dts-v1/;\n{BASE}{use_}\n{inc}"), "i.dtsi".into(), format!("{BASE}{def}")]),
                        }
                        list.push(files);
                    }
                }
            }
        }
    list
}
