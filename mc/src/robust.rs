//! C01: nothing a document contains can crash or hang the checker.
use crate::engine::*;
use crate::gen::*;
use crate::sut;
use ginko::dts::{DiagnosticPrinter, Project, SeverityMap};
use std::path::Path;

pub struct Robust;

/// what the tool does with every diagnostic
pub fn render(p: &Project, path: &Path) -> usize {
    let diagnostics: Vec<_> = p.get_diagnostics(path).cloned().collect();
    let Some(f) = p.get_file(path) else { return 0 };
    let code: Vec<String> = f.source().lines().map(|l| l.to_owned()).collect();
    DiagnosticPrinter { diagnostics: &diagnostics, code, severity_map: SeverityMap::default() }.to_string().len()
}

/// Queries a position the way the language server does.
pub fn query(p: &Project, path: &Path, at: (u32, u32)) -> bool {
    sut::hit(p, path, at).is_some()
}

/// every position of a text, and some beyond its ends
pub fn positions(text: &str) -> Vec<(u32, u32)> {
    let mut out = vec![];
    let mut n = 0;
    for l in text.split('\n') {
        let w = l.encode_utf16().count() as u32;
        out.extend((0..=w + 1).map(|c| (n, c)));
        n += 1;
    }
    out.extend([(n, 0), (n + 1, 3), (0, u32::MAX), (u32::MAX, 0), (u32::MAX, u32::MAX)]);
    out
}

fn all(p: &Project, path: &Path, at: &[(u32, u32)]) -> (bool, bool) {
    render(p, path);
    let clean = p.get_diagnostics(path).next().is_none();
    let mut hit = false;
    for a in at {
        hit |= query(p, path, *a);
    }
    (clean, hit)
}

fn class(x: (bool, bool)) -> &'static str {
    match x {
        (true, true) => "clean, something under a cursor",
        (true, false) => "clean",
        (false, true) => "diagnostics, something under a cursor",
        (false, false) => "diagnostics",
    }
}

/// Runs with the stack of a thread of the language server.
fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || guarded(f)).unwrap();
        h.join().map_err(|_| "the thread died".to_string())
    })?
}

fn big(s: &[String]) -> String {
    // prefix, pattern, number, middle, pattern, suffix
    let n: usize = s[2].parse().unwrap();
    format!("{}{}{}{}{}", s[0], s[1].repeat(n), s[3], s[4].repeat(n), s[5])
}

impl Check for Robust {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let dir = w.dir.clone();
        crate::docs::surroundings(&dir);
        match c.sub.as_str() {
            "doc" | "text" => {
                let path = crate::docs::place(&dir, &c.s[0], &c.s[1]);
                let mut p = Project::default();
                sut::open(&mut p, &path, &c.s[1]);
                let at = if c.sub == "doc" { positions(&c.s[1]) } else { vec![(0, 0), (0, 17), (1, 0)] };
                ok(2 + at.len() as u64, class(all(&p, &path, &at)))
            }
            "big" => {
                let text = big(&c.s);
                let path = dir.join("doc.dts");
                let r = small_stack(|| {
                    let mut p = Project::default();
                    sut::open(&mut p, &path, &text);
                    let at: Vec<_> = positions(&text);
                    let k = (at.len() / 16).max(1);
                    let at: Vec<_> = at.iter().step_by(k).copied().collect();
                    let render_all = p.get_diagnostics(&path).count() < 200 || text.len() < 20_000;
                    let clean = p.get_diagnostics(&path).next().is_none();
                    if render_all {
                        class(all(&p, &path, &at))
                    } else {
                        for a in &at {
                            query(&p, &path, *a);
                        }
                        class((clean, false))
                    }
                })?;
                ok(20, r)
            }
            "chain" => {
                let n: usize = c.s[0].parse().unwrap();
                let d = dir.join(format!("chain{n}{}", c.s[1]));
                std::fs::create_dir_all(&d).unwrap();
                let mut main = String::new();
                for i in 0..n {
                    let head = if i == 0 { "/dts-v1/;\n" } else { "" };
                    let inc = |k: usize| format!("/include/ \"f{k}.dtsi\"\n");
                    let next: String = match c.s[1].as_str() {
                        "line" if i + 1 < n => inc(i + 1),
                        "loop" => inc((i + 1) % n),
                        "dag" => (i + 1..n).map(inc).collect(),
                        "all" => (0..n).map(inc).collect(),
                        "star" if i == 0 => (1..n).map(inc).collect(),
                        _ => String::new(),
                    };
                    // contexts are copied along the includes: few nodes keep long chains cheap
                    let t = if n > 1000 { format!("{head}{next}/ {{ }};\n") } else { format!("{head}{next}/ {{ l{i}: n{i} {{ }}; }};\n") };
                    std::fs::write(d.join(format!("f{i}.dtsi")), &t).unwrap();
                    if i == 0 {
                        main = t;
                    }
                }
                let path = d.join("f0.dtsi");
                let r = small_stack(|| {
                    let mut p = Project::default();
                    sut::open(&mut p, &path, &main);
                    let x = class(all(&p, &path, &positions(&main)));
                    p.remove_file(&path);
                    p.set_include_paths(vec![]);
                    x
                });
                std::fs::remove_dir_all(&d).unwrap();
                ok(n as u64 + 4, r?)
            }
            "include" => {
                // kind of the target, name as written
                let d = dir.join("inc");
                let _ = std::fs::remove_dir_all(&d);
                std::fs::create_dir_all(d.join("sub")).unwrap();
                let t = d.join("t.dtsi");
                match c.s[0].as_str() {
                    "text" => std::fs::write(&t, "/ { l: n { }; };").unwrap(),
                    "broken" => std::fs::write(&t, "/ { l: n {").unwrap(),
                    "empty" => std::fs::write(&t, "").unwrap(),
                    "binary" => std::fs::write(&t, b"/ { \xff\xfe\x00 };").unwrap(),
                    "zero" => std::fs::write(&t, b"\0\0\0").unwrap(),
                    "dir" => std::fs::create_dir(&t).unwrap(),
                    "dangling" => std::os::unix::fs::symlink("nowhere", &t).unwrap(),
                    "selflink" => std::os::unix::fs::symlink("t.dtsi", &t).unwrap(),
                    "link" => std::os::unix::fs::symlink("doc.dts", &t).unwrap(),
                    "linkdir" => std::os::unix::fs::symlink("sub", &t).unwrap(),
                    "self" => std::fs::write(&t, "/include/ \"t.dtsi\"\n/include/ \"doc.dts\"").unwrap(),
                    "socket" => drop(std::os::unix::net::UnixListener::bind(&t).unwrap()),
                    "pipe" => {
                        let s = std::ffi::CString::new(t.display().to_string()).unwrap();
                        assert_eq!(unsafe { libc::mkfifo(s.as_ptr(), 0o600) }, 0);
                    }
                    _ => {}
                }
                let text = format!("/dts-v1/;\n/include/ \"{}\"\n/ {{ p = &l, &{{/n}}; }};", c.s[1]);
                let path = d.join("doc.dts");
                let mut r = (true, true);
                for round in 0..2 {
                    if round == 1 {
                        std::fs::write(&path, &text).unwrap();
                    }
                    let mut p = Project::default();
                    sut::open(&mut p, &path, &text);
                    r = all(&p, &path, &positions(&text));
                    p.set_include_paths(vec![d.display().to_string(), "sub".into(), "\0".into(), String::new()]);
                    all(&p, &path, &positions(&text));
                    sut::open(&mut p, &t, &text);
                    all(&p, &t, &positions(&text));
                    p.remove_file(&path);
                    all(&p, &path, &[(0, 0)]);
                    p.remove_file(&t);
                }
                ok(40, class(r))
            }
            _ => {
                // raw bytes on disk, given in hexadecimal
                let b: Vec<u8> = (0..c.s[0].len() / 2).map(|i| u8::from_str_radix(&c.s[0][2 * i..2 * i + 2], 16).unwrap()).collect();
                let path = dir.join("raw.dts");
                std::fs::write(&path, &b).unwrap();
                let mut p = Project::default();
                let r = p.add_file(path.display().to_string());
                let valid = std::str::from_utf8(&b);
                if r.is_ok() != valid.is_ok() {
                    return Err(format!("adding the file gives {r:?}"));
                }
                match valid {
                    Ok(t) => ok(3, class(all(&p, &path, &positions(t)))),
                    Err(_) => ok(1, "not text"),
                }
            }
        }
    }

    fn explore(&self, eng: &Eng) {
        eng.assume("a case that needs more than 20 s or the process more than 12 GB counts as a hang or unbounded memory");
        let doc = |ext: &str, t: String| Case::new("doc", vec![ext.into(), t]);
        let mut spaces = token_spaces(eng.tier(3, 4));
        spaces.extend(char_spaces(eng.tier(3, 4)));
        spaces.extend(edits());
        spaces.extend(well_formed(2, eng.tier(2, 3), eng.tier(3, 4)));
        let e = edits().remove(0);
        spaces.extend((0..6).map(|k| crate::docs::layouts(e.clone(), k)));
        if eng.thorough {
            spaces.push(double_edits());
        }
        const ODD: &[&str] = &[
            "\0", "\u{b}", "\r", "\u{85}", "\u{2028}", "\u{feff}", "e\u{301}", "é", "𝄞", "\n", "\t", "\"", "/", "*", "{", "<", "[", "a", "1", "&",
        ];
        for (n, pre, post) in [
            ("odd characters", "", ""),
            ("odd characters within a node", "/dts-v1/;/{l:n{};", "};"),
            ("odd characters within a value", "/dts-v1/;/{p=", ";};"),
            ("odd characters within cells", "/dts-v1/;/{p=<1 ", " 2>;};"),
            ("odd characters within bytes", "/dts-v1/;/{p=[1", "2];};"),
            ("odd characters within a string", "/dts-v1/;/{p=\"a", "b\";};"),
            ("odd characters within a reference", "/dts-v1/;/{p=&{/a", "};};"),
            ("odd characters within a name", "/dts-v1/;/{a", " {};};"),
            ("odd characters within a comment", "/dts-v1/;/*", "*/ / {"),
            ("odd characters within a directive", "/dts", "/;"),
            ("odd characters within an include", "/include/ \"", "\""),
        ] {
            spaces.push(strings(n, ODD, eng.tier(3, 4), pre, post));
        }
        for s in &spaces {
            eng.par(&s.name, s.n, |w, i| w.case(doc("dts", s.get(i)), |w, c| self.judge(w, c)));
        }
        let mut deeper = token_spaces(eng.tier(4, 5));
        deeper.extend(char_spaces(eng.tier(4, 5)));
        for s in &deeper {
            eng.par(&format!("{}, few positions", s.name), s.n, |w, i| {
                w.case(Case::new("text", vec!["dts".into(), s.get(i)]), |w, c| self.judge(w, c))
            });
        }
        for ext in ["dtsi", "dtso", "txt"] {
            let s = &e;
            eng.par(&format!("{} in .{ext}", s.name), s.n, |w, i| w.case(doc(ext, s.get(i)), |w, c| self.judge(w, c)));
        }
        // raw bytes
        const B: &[&str] = &["00", "0a", "0d", "22", "2f", "26", "7b", "61", "80", "bf", "c3", "a9", "e2", "82", "ac", "f0", "9d", "ff"];
        let k = eng.tier(4, 5);
        eng.par("raw bytes", seq_count(B.len() as u64, k), |w, i| {
            let t: String = seq(i, B.len() as u64, k).into_iter().map(|x| B[x]).collect();
            w.case(Case::new("raw", vec![t]), |w, c| self.judge(w, c));
        });
        // includes of everything
        let mut list = vec![];
        for kind in [
            "text", "broken", "empty", "binary", "zero", "dir", "dangling", "selflink", "link", "linkdir", "self", "socket", "pipe", "absent",
        ] {
            for name in [
                "t.dtsi", "./t.dtsi", "sub/../t.dtsi", "t.dtsi/", "t.dtsi/x", "", ".", "..", "/", "//", "doc.dts", "./doc.dts", "sub", "sub/t.dtsi",
                "\0", "a\0b", " ", "\n", "é𝄞", "*", "~", "$HOME", "\\\\", "\\\"", "t.dtsi\\n",
            ] {
                list.push(Case::new("include", vec![kind.into(), name.into()]));
            }
            list.push(Case::new("include", vec![kind.into(), "a".repeat(300)]));
            list.push(Case::new("include", vec![kind.into(), "a/".repeat(3000)]));
        }
        eng.par_list("includes of anything", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // many files
        let mut list = vec![];
        for (n, shape) in [(4000, "line"), (4000, "loop"), (80, "dag"), (50, "all"), (3000, "star"), (1, "loop"), (2, "loop")] {
            list.push(Case::new("chain", vec![n.to_string(), shape.into()]));
        }
        eng.par_list("many files", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // deep and long documents
        let mut list = vec![];
        let n = "100000";
        let v = |s: [&str; 6]| Case::new("big", s.iter().map(|x| x.to_string()).collect());
        for (open, close) in [
            ("n {", "};"), ("n{", "}"), ("l: n@1 {\n", "\n};"), ("/omit-if-no-ref/ n {", "};"), ("n { p = <1>; ", "};"), ("/ {", "};"), ("&l {", "};"),
            ("{", "}"), ("é {", "};"),
        ] {
            for (pre, post) in [("/dts-v1/;/{", "};"), ("/", ""), ("/dts-v1/;&l{", "};")] {
                for n in ["10", "63", "64", "65", "66", "1000", n] {
                    list.push(v([pre, open, n, "", close, post]));
                    list.push(v([pre, open, n, "", "", ""]));
                    list.push(v([pre, open, n, "p;", close, ""]));
                }
            }
        }
        for (open, close) in [("(", ")"), ("((1)+", ")"), ("<", ">"), ("[", "]"), ("(1 + ", ")"), ("(\n", ")"), ("(é", ")")] {
            for pre in ["/dts-v1/;/{p=", "/dts-v1/;/{p=<", "/dts-v1/;/{p=["] {
                for post in ["", ">;};", ";};"] {
                    for n in ["64", "1000", n] {
                        list.push(v([pre, open, n, "1", close, post]));
                        list.push(v([pre, open, n, "1", "", post]));
                        list.push(v([pre, open, n, "", "", ""]));
                    }
                }
            }
        }
        eng.par_list("deeply nested documents", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        let toks: Vec<&'static str> = TOP.iter().chain(BODY).chain(VALUE).copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let mut list = vec![];
        for pre in ["", "/dts-v1/;/{", "/dts-v1/;/{p=<"] {
            for t in toks.iter().chain(CHARS) {
                list.push(v([pre, &format!("{t} "), "20000", "", "", ""]));
                list.push(v([pre, t, "20000", "", "", ""]));
                list.push(v([pre, &format!("{t}\n"), "20000", "", "", ""]));
            }
        }
        for t in VALUES.iter().chain(ITEMS).chain(ELEMS) {
            for pre in ["/dts-v1/;", "/dts-v1/;/{", "/dts-v1/;/{p="] {
                list.push(v([pre, &format!("{t}\n"), "5000", "", "", "};"]));
                list.push(v([pre, &format!("{t},"), "5000", "", "", "};"]));
            }
        }
        let m = eng.tier("400", "3000");
        for a in &toks {
            for b in &toks {
                for pre in ["", "/dts-v1/;/{", "/dts-v1/;/{p="] {
                    list.push(v([pre, &format!("{a} {b} "), m, "", "", ""]));
                }
            }
        }
        eng.par_list("repeated tokens and constructs", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
    }
}
