//! C17: the verdict of the command line matches the diagnostics.
use crate::engine::*;
use crate::gen::*;
use crate::projects::*;
use crate::refparse::*;
use crate::render::*;
use crate::resolve::*;
use crate::sut;
use crate::tree::*;
use ginko::dts::{Project, SeverityMap};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const BIN: &str = "/verif/target/repo/release/ginko";

pub struct Cli;

/// a report without what the model does not know
type Brief = (String, PathBuf, P);

impl Check for Cli {
    fn id(&self) -> &'static str {
        "C17"
    }
    /// s: "file" name text ... "dir" name ... "raw" name hex ... "--" arguments; paths are relative to the
    /// directory the program runs in
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        ensure_cwd(w);
        let dir = w.dir.join("cli");
        let keep = c.sub == "one";
        if !keep || !dir.exists() {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
        }
        let k = c.s.iter().position(|x| x == "--").unwrap();
        let mut i = 0;
        while i < k {
            let p = dir.join(&c.s[i + 1]);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            match c.s[i].as_str() {
                "dir" => {
                    std::fs::create_dir_all(&p).unwrap();
                    i += 2;
                }
                "raw" => {
                    let h = &c.s[i + 2];
                    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    std::fs::write(&p, b).unwrap();
                    i += 3;
                }
                _ => {
                    std::fs::write(&p, &c.s[i + 2]).unwrap();
                    i += 3;
                }
            }
        }
        let abs = |s: &str| s.replace("@/", &format!("{}/", dir.display()));
        let args: Vec<String> = c.s[k + 1..].iter().map(|a| abs(a)).collect();
        let out = Command::new(BIN)
            .args(&args)
            .current_dir(&dir)
            .env("NO_COLOR", "1")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .output()
            .map_err(|e| format!("cannot run the program: {e}"))?;
        let stdout = String::from_utf8(out.stdout).map_err(|_| "output is not text".to_string())?;
        let Some(code) = out.status.code() else {
            return Err(format!("the program was killed ({}): {}", out.status, String::from_utf8_lossy(&out.stderr)));
        };
        if code == 101 || String::from_utf8_lossy(&out.stderr).contains("panicked at") {
            return Err(format!("the program panicked: {}", String::from_utf8_lossy(&out.stderr)));
        }
        let reports = take_apart(&stdout);
        let clear = code == 0;
        // what the options ask for
        let Some((file, list)) = options(&args) else {
            return if clear || !stdout.trim().is_empty() && reports.is_err() && code == 0 {
                Err(format!("wrong usage ends with status {code}: {stdout:?}"))
            } else {
                ok(1, "wrong usage")
            };
        };
        let path = dir.join(&file);
        let text = std::fs::canonicalize(&path).and_then(std::fs::read_to_string);
        let Ok(text) = text else {
            return if code == 0 {
                Err(format!("a file that cannot be read ends with status {code}: {stdout:?}"))
            } else if !stdout.trim().is_empty() {
                Err(format!("a file that cannot be read gives output: {stdout:?}"))
            } else {
                ok(1, "unreadable file")
            };
        };
        let path = std::fs::canonicalize(path).unwrap();
        let valid: Vec<PathBuf> = list.iter().filter_map(|p| std::fs::canonicalize(dir.join(p)).ok()).collect();
        let world = World::new(BTreeMap::from([(path.clone(), text.clone())]), valid.clone(), dir.clone());
        // the verdict by the model
        let bad = world.done.values().any(|e| match &e.verdict {
            Verdict::Reject(_) => true,
            Verdict::Accept => e.lints.iter().any(|l| !l.optional),
            _ => false,
        });
        let good = world.done.values().all(|e| e.verdict == Verdict::Accept && e.lints.is_empty());
        if bad && code == 0 {
            return Err(format!("there are problems but the status is 0: {stdout:?}"));
        }
        if good && code != 0 {
            return Err(format!("there are no problems but the status is {code}: {stdout:?}"));
        }
        if clear {
            if stdout.trim().is_empty() {
                return Err("no all-clear message".into());
            }
            if reports.is_ok() {
                return Err(format!("status 0 with reports: {stdout:?}"));
            }
        } else if let Err(m) = &reports {
            return Err(format!("status {code} but the output does not consist of reports: {m}"));
        }
        let reports = reports.unwrap_or_default();
        if !clear && reports.is_empty() {
            return Err(format!("status {code} without any report"));
        }
        // by the model: every report where the file is accepted
        if world.done.values().all(|e| e.verdict == Verdict::Accept) {
            let mut left: Vec<Brief> =
                reports.iter().map(|r| (r.sev.clone(), PathBuf::from(&r.file), (r.line - 1, r.col - 1))).collect();
            for opt in [false, true] {
                for (f, e) in &world.done {
                    for l in e.lints.iter().filter(|l| l.optional == opt) {
                        let at = |p: P| match &l.at {
                            At::Exact(s) => s.s == p,
                            At::OneOf(v) => v.iter().any(|s| s.s == p),
                            At::Anywhere => true,
                        };
                        match left.iter().position(|b| b.0 == l.sev && b.1 == *f && at(b.2)) {
                            Some(k) => {
                                left.remove(k);
                            }
                            None if opt => {}
                            None => return Err(format!("no report for {l:?} of {}: {stdout}", f.display())),
                        }
                    }
                }
            }
            if let Some(x) = left.first() {
                return Err(format!("unexpected report {x:?}: {stdout}"));
            }
        }
        // by the library
        let by_cwd = c.sub == "cwd";
        if !by_cwd {
            let mut p = Project::default();
            p.set_include_paths(valid.iter().map(|p| p.display().to_string()).collect());
            sut::open(&mut p, &path, &text);
            let map = SeverityMap::default();
            let mut left = reports.clone();
            let files: BTreeSet<PathBuf> = p.files().map(|f| f.to_owned()).collect();
            for f in &files {
                let lines: Vec<String> = p.get_file(f).unwrap().source().lines().map(|l| l.to_owned()).collect();
                for d in p.get_diagnostics(f) {
                    let mut why = String::new();
                    let k = left.iter().position(|r| {
                        // the reason why a file cannot be read depends on the working directory, which is not the
                        // same here and there
                        let io = d.message.contains("(os error ") && r.msg.contains("(os error ");
                        let msg = if io { &r.msg } else { &d.message };
                        let j = judge_report(r, &d.severity(&map).to_string(), &f.display().to_string(), sut::sp(d.span), msg, &lines);
                        if let Err(m) = &j {
                            why = m.clone();
                        }
                        j.is_ok()
                    });
                    match k {
                        Some(k) => {
                            left.remove(k);
                        }
                        None => return Err(format!("not (or not well) reported: {d:?} ({why}): {stdout}")),
                    }
                }
            }
            if let Some(r) = left.first() {
                return Err(format!("reported without a reason or twice: {r:?}"));
            }
        }
        ok(1, if clear { "all clear" } else { "reports" })
    }
    fn explore(&self, eng: &Eng) {
        cwd_setup(eng);
        assert!(Path::new(BIN).exists(), "{BIN} is not built");
        // single documents
        let one = |t: String, name: &str| Case::new("one", vec!["file".into(), name.into(), t, "file".into(), "e.dtsi".into(), "".into(), "--".into(), name.into()]);
        let mut spaces = vec![];
        spaces.extend(well_formed(1, 2, eng.tier(2, 3)));
        spaces.extend(edits());
        if eng.thorough {
            spaces.extend(token_spaces(3));
        }
        spaces.push(Space::list("texts", TEXTS.iter().map(|s| s.to_string()).collect()));
        for s in &spaces {
            eng.par(&s.name, s.n, |w, i| w.case(one(s.get(i), "doc.dts"), |w, c| self.judge(w, c)));
        }
        let els = ["/dts-v1/;", "/plugin/;", "/ { compatible = <1>; };", "/ { p = &x; };", "/ { aaaaaaaaaabbbbbbbbbbccccccccccdd { }; };", "/ { n { }; p; };", "/ { n { }", "/ { é; };", "\"é\" /"];
        for name in ["doc.dts", "doc.dtsi", "doc.dtso", "doc", "a b.dts", "é.dts", "sub/doc.dts"] {
            let k = eng.tier(2, 3);
            eng.par(&format!("element sequences in {name}"), seq_count(els.len() as u64, k), |w, i| {
                let t: Vec<&str> = seq(i, els.len() as u64, k).into_iter().map(|x| els[x]).collect();
                let t = if i % 2 == 0 { t.join("\n") } else { t.join("\r\n\t") };
                w.case(one(t, name), |w, c| self.judge(w, c));
            });
        }
        // many diagnostics, long documents
        let mut list = vec![];
        for n in [3, 9, 10, 11, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024].into_iter().chain(eng.tier(vec![], (2..300).collect())) {
            for (k, l) in ["\tn{ }; p;\n", "p = &x;\n", "x@0 { };\n", "p = ;\n", "n { };\n", "é$\n", "p = \"é𝄞\", &é;\n"].iter().enumerate() {
                list.push(one(format!("/dts-v1/;\n/ {{\n{}}};\n", l.repeat(n)), "doc.dts"));
                // in an included file; after it
                let part = format!("/ {{\n{}}};\n", l.repeat(n));
                for own in ["", "/ { n { }; p; };", "/ { n {"] {
                    let s = ["file", "e.dtsi", &part, "file", "doc.dts", &format!("/dts-v1/;\n/include/ \"e.dtsi\"\n{own}"), "--", "doc.dts"];
                    if k < 3 || n % 2 == 0 {
                        list.push(Case::new("one", s.iter().map(|x| x.to_string()).collect()));
                    }
                }
            }
        }
        eng.par_list("many diagnostics", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // include graphs
        const FL: &[&str] = &["/ { };", "/ { compatible = <1>; };", "/ { n { }; p; };", "/ { n {", "/include/ \"missing.dtsi\"", "/ { p = &x; };"];
        for (n, all) in [(2usize, true), (3, false), (3, true)] {
            let pairs: Vec<(usize, usize)> =
                (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| all || a < b).collect();
            let g = 1u64 << pairs.len();
            let f = if n == 3 && all { eng.tier(6, 36) } else { (FL.len() as u64).pow(n as u32) };
            eng.par(&format!("{} graphs over {n} files", if all { "any" } else { "acyclic" }), g * f, |w, i| {
                let nm = |a: usize| if a == 0 { "f0.dts".to_string() } else { format!("f{a}.dtsi") };
                let mut s = vec![];
                for a in 0..n {
                    let mut t = if a == 0 { "/dts-v1/;\n".to_string() } else { String::new() };
                    for (k, (x, b)) in pairs.iter().enumerate() {
                        if *x == a && (i % g) >> k & 1 == 1 {
                            t.push_str(&format!("/include/ \"{}\"\n", nm(*b)));
                        }
                    }
                    t.push_str(FL[(i / g / (FL.len() as u64).pow(a as u32)) as usize % FL.len()]);
                    s.extend(["file".to_string(), nm(a), t]);
                }
                s.extend(["--".to_string(), "f0.dts".into()]);
                w.case(Case::new("graph", s), |w, c| self.judge(w, c));
            });
        }
        // options
        const OPT: &[&[&str]] = &[
            &[], &["-i", "i1"], &["-i", "i2"], &["-i", "i1", "-i", "i2"], &["-i", "i2", "-i", "i1"], &["--include", "i1", "--include", "i2"],
            &["--include=i2", "--include=i1"], &["-ii1", "-ii2"], &["-i=i2", "-i", "i1"], &["-i", "@/i1", "-i", "@/i2"], &["-i", "@/i2", "-i", "i1"],
            &["-i", "none", "-i", "i2"], &["-i", "none"], &["-i", "./i1/../i2", "-i", "i1"], &["-i", "main"], &["-i", ".", "-i", "i1"], &["-i", "i1/f.dtsi", "-i", "i2"],
            &["-i", "i1", "-i", "i1"], &["-i", "i3", "-i", "i2", "-i", "i1"], &["-i", "i1", "-i", "i2", "-i", "i3"], &["-i", ""],
        ];
        let forms = 3u64;
        let n = forms.pow(5);
        eng.par("include options", n * OPT.len() as u64 * 4, |w, i| {
            let (fi, oi, pos) = (i % n, (i / n) as usize % OPT.len(), i / n / OPT.len() as u64);
            let mut s = vec![];
            for (k, d) in ["main", "i1", "i2", "i3", "."].iter().enumerate() {
                s.extend(["dir".to_string(), d.to_string()]);
                let f = format!("{d}/f.dtsi");
                match fi / forms.pow(k as u32) % forms {
                    1 => s.extend(["file".to_string(), f, format!("/ {{ l{k}: n{k} {{ }}; }};")]),
                    2 => s.extend(["raw".to_string(), f, "2fff".into()]),
                    _ => {}
                }
            }
            let used = i % 5;
            let t = format!("/dts-v1/;\n/include/ \"f.dtsi\"\n/ {{ u = &l{used}, &{{/n{}}}; }};", (used + i / 5 % 2) % 5);
            s.extend(["file".to_string(), "main/doc.dts".into(), t, "--".into()]);
            let file = if pos < 2 { "main/doc.dts" } else { "@/main/doc.dts" };
            if pos % 2 == 0 {
                s.push(file.into());
            }
            s.extend(OPT[oi].iter().map(|x| x.to_string()));
            if pos % 2 == 1 {
                s.push(file.into());
            }
            w.case(Case::new("cwd", s), |w, c| self.judge(w, c));
        });
        // names of directories and documents
        let mut list = vec![];
        let names = [
            "a b", "a,b", "a:b", "a;b", "a=b", "é€𝄞", "a,", ",a", " a", "a ", "%41", "$HOME", "~", "a\"b", "a'b", "a\\b", "*", "a?", "[a]", "{a}", "a\nb", "a\tb", "a#b", "@a", "@", "...", ".a", "a.", "=a", "a/b,c",
            "a|b", "&a", "(a)", "!a", "a.dtsi", "1", "true", "a//b",
        ];
        let long = "x".repeat(200);
        for d in names.iter().copied().chain([long.as_str()]) {
            for held in ["here", "d", "i1", "-"] {
                // a line break in the name of a document breaks the lines of the reports
                for form in 0..if d.contains('\n') { 3 } else { 5 } {
                    let mut s = vec![];
                    for x in ["main", "i1", "a", "b", "A", d] {
                        s.extend(["dir".to_string(), x.to_string()]);
                    }
                    let at = match held {
                        "here" => "main",
                        "d" => d,
                        x => x,
                    };
                    if at != "-" {
                        s.extend(["file".to_string(), format!("{at}/f.dtsi"), "/ { lf: n { }; };".into()]);
                    }
                    let doc = if form == 3 { format!("{d}/doc.dts") } else if form == 4 { format!("main/{d}.dts") } else { "main/doc.dts".into() };
                    if let Some((p, _)) = doc.rsplit_once('/') {
                        s.extend(["dir".to_string(), p.to_string()]);
                    }
                    s.extend(["file".to_string(), doc.clone(), "/dts-v1/;\n/include/ \"f.dtsi\"\n/ { u = &lf, &{/n}, &no; };".into(), "--".into(), doc]);
                    match form {
                        0 => s.extend(["-i".to_string(), d.to_string(), "-i".into(), "i1".into()]),
                        1 => s.extend(["-i".to_string(), "i1".to_string(), format!("--include={d}")]),
                        2 => s.extend([format!("-i=./{d}")]),
                        _ => s.extend(["-i".to_string(), "i1".into()]),
                    }
                    list.push(Case::new("cwd", s));
                }
            }
        }
        eng.par_list("names of directories and documents", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // things that are no file
        let mut list = vec![];
        for f in [
            "missing.dts", "d", "raw.dts", "", ".", "..", "/", "doc.dts/", "d/missing.dts", "missing/doc.dts", "a\u{0}b".trim_end_matches('\0'), "link.dts", "doc.dts",
            "./doc.dts", "d/../doc.dts", "@/doc.dts", "e.dts", "ff.dts",
        ] {
            for opt in [&[][..], &["-i", "d"][..], &["-i", "missing"][..], &["--include=missing"][..], &["--include", ""][..]] {
                let mut s: Vec<String> = ["file", "doc.dts", "/dts-v1/;", "file", "e.dts", "", "dir", "d", "raw", "raw.dts", "ff00", "raw", "ff.dts", "2f647473ff", "--"]
                    .iter()
                    .map(|x| x.to_string())
                    .collect();
                if f.contains('\0') {
                    continue;
                }
                s.push(f.into());
                s.extend(opt.iter().map(|x| x.to_string()));
                list.push(Case::new("files", s));
            }
        }
        for a in [&[][..], &["-i"][..], &["doc.dts", "-i"][..], &["doc.dts", "doc.dts"][..], &["--foo"][..], &["doc.dts", "--foo"][..], &["-i", "d"][..], &["doc.dts", "-x"][..]] {
            let mut s: Vec<String> = ["file", "doc.dts", "/dts-v1/;", "dir", "d", "--"].iter().map(|x| x.to_string()).collect();
            s.extend(a.iter().map(|x| x.to_string()));
            list.push(Case::new("files", s));
        }
        eng.par_list("files that cannot be read and wrong usage", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
    }
}

/// The file and the include paths of a command line, or none if it is not understood
fn options(args: &[String]) -> Option<(String, Vec<String>)> {
    let mut file = None;
    let mut list = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "-i" || a == "--include" {
            let v = it.next()?;
            if v.starts_with('-') {
                return None;
            }
            list.push(v.clone());
        } else if let Some(v) = a.strip_prefix("--include=") {
            list.push(v.to_string());
        } else if a.starts_with("--") {
            return None;
        } else if let Some(v) = a.strip_prefix("-i") {
            list.push(v.strip_prefix('=').unwrap_or(v).to_string());
        } else if a.starts_with('-') || file.is_some() {
            return None;
        } else {
            file = Some(a.clone());
        }
    }
    Some((file?, list))
}
