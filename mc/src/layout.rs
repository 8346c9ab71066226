//! C06 (layout carries no meaning) and C08 (forgotten semicolons).
use crate::docs::{place, run};
use crate::engine::*;
use crate::gen::*;
use crate::refparse::*;
use crate::resolve::*;
use crate::sut::{self, D};
use crate::tree::*;
use ginko::dts::Project;

pub struct Layout;

pub const SEPS: &[&str] = &[
    "", "\n", "\r\n", "\t\t", "  ", "/*c*/", "/* ; } */", "/*\"*/", "/*é\n𝄞*/", "//;}\n", "// \"x\r\n", "/**/", "\x0c", " /***/ ", "/*/*/", "/* // */", "//*\n",
    "\n\n\n", "/*&{*/ //'(\n",
];

fn render(seps: &[String], toks: &[String]) -> (String, Vec<(P, P)>) {
    let mut text = String::new();
    let mut at = vec![];
    for (i, t) in toks.iter().enumerate() {
        let mut s = seps[i].clone();
        if i > 0 && s.starts_with('/') && toks[i - 1] == "/" {
            s.insert(0, ' ');
        }
        if i > 0 && s.is_empty() && join_tight(&[&toks[i - 1], t]).len() != toks[i - 1].len() + t.len() {
            s.push(' ');
        }
        text.push_str(&s);
        at.push(text.chars().count());
        text.push_str(t);
    }
    let mut s = seps[toks.len()].clone();
    if s.starts_with('/') && toks.last().is_some_and(|t| t == "/") {
        s.insert(0, ' ');
    }
    text.push_str(&s);
    let (_, pos, _) = positions(&text);
    let ranges = at.iter().zip(toks).map(|(a, t)| (pos[*a], pos[*a + t.chars().count()])).collect();
    (text, ranges)
}

/// Where a position is in terms of tokens: the token and the offset within, or the end of a token.
fn rel(p: P, ranges: &[(P, P)], toks: &[String]) -> Vec<(usize, i64)> {
    let mut out = vec![];
    for (k, (s, e)) in ranges.iter().enumerate() {
        if p == *e {
            out.push((k, -1));
        }
        if *s <= p && p < *e {
            // offset in code units of the text of the token
            let (chars, pos, _) = positions(&toks[k]);
            for i in 0..chars.len() {
                let q = if pos[i].0 == 0 { (s.0, s.1 + pos[i].1) } else { (s.0 + pos[i].0, pos[i].1) };
                if q == p {
                    out.push((k, i as i64));
                }
            }
        }
    }
    if out.is_empty() {
        // within a gap
        let k = ranges.iter().filter(|r| r.1 < p).count();
        out.push((k, -2));
    }
    out
}

fn observe(w: &Worker<'_>, ext: &str, text: &str) -> (Option<Vec<Elem>>, Vec<D>) {
    let path = place(&w.dir, ext, text);
    let mut p = Project::default();
    sut::open(&mut p, &path, text);
    let mut t = sut::tree(&p, &path);
    if let Some(t) = &mut t {
        strip(t);
    }
    (t, sut::diags(&p, &path))
}

impl Check for Layout {
    fn id(&self) -> &'static str {
        "C06"
    }
    /// s: extension, separators and tokens in turn
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let ext = &c.s[0];
        let toks: Vec<String> = c.s[1..].iter().skip(1).step_by(2).cloned().collect();
        let seps: Vec<String> = c.s[1..].iter().step_by(2).cloned().collect();
        let plain: Vec<String> = (0..=toks.len()).map(|_| " ".to_string()).collect();
        let (a, ra) = render(&plain, &toks);
        let (b, rb) = render(&seps, &toks);
        let (ta, da) = observe(w, ext, &a);
        let (tb, db) = observe(w, ext, &b);
        if ta != tb {
            return Err(format!("trees differ between {a:?} and {b:?}: {}", match (&ta, &tb) {
                (Some(x), Some(y)) => diff(y, x),
                _ => "one has no tree".into(),
            }));
        }
        if da.len() != db.len() {
            return Err(format!("{a:?} has diagnostics {}, {b:?} has {}", sut::show(&da), sut::show(&db)));
        }
        let mut left: Vec<&D> = db.iter().collect();
        for d in &da {
            let last = ra.last().map(|r| r.1).unwrap_or((0, 0));
            let eof = d.kind == "unexpected_eof";
            let hit = left.iter().position(|e| {
                if d.kind != e.kind || d.msg != e.msg || d.sev != e.sev || d.file != e.file {
                    return false;
                }
                if eof {
                    // anywhere after the last token
                    return d.sp.s >= last && rb.last().is_none_or(|r| e.sp.s >= r.1);
                }
                if d.sp == Sp::ZERO && e.sp == Sp::ZERO {
                    return true;
                }
                let (x, y) = (rel(d.sp.s, &ra, &toks), rel(e.sp.s, &rb, &toks));
                if !x.iter().any(|p| y.contains(p)) {
                    return false;
                }
                if x.iter().all(|p| p.1 < 0) {
                    // a missing token
                    return true;
                }
                let (x, y) = (rel(d.sp.e, &ra, &toks), rel(e.sp.e, &rb, &toks));
                x.iter().any(|p| y.contains(p)) || (x.iter().all(|p| p.1 == -2) && y.iter().any(|p| p.1 < 0))
            });
            match hit {
                Some(k) => {
                    left.remove(k);
                }
                None => {
                    return Err(format!(
                        "diagnostic {} of {a:?} has no counterpart in {b:?}, which has {}",
                        d.short(),
                        sut::show(&db)
                    ))
                }
            }
        }
        // a missing token is reported where the token before the gap ends
        for d in &db {
            if d.kind == "expected" && d.msg == "Expected ';'" && rel(d.sp.s, &rb, &toks).iter().all(|p| p.1 == -2) {
                return Err(format!("{} of {b:?} lies within a gap", d.short()));
            }
        }
        ok(4, if ta.is_none() { "unrecoverable" } else if da.is_empty() { "clean" } else { "with diagnostics" })
    }

    fn explore(&self, eng: &Eng) {
        let good = |t: &String| -> bool {
            // tokens that swallow the text behind them cannot be separated
            let q = t.starts_with('"') && (t.len() < 2 || !t.ends_with('"') || t.ends_with("\\\""));
            let p = t.starts_with("&{") && !t.ends_with('}');
            let d = t.starts_with('/') && t.len() > 1 && !t.ends_with('/');
            !(q || p || d) && t != "'"
        };
        let mut bases: Vec<Vec<String>> = vec![];
        let mut extra: Vec<Vec<String>> = vec![];
        for s in SEEDS {
            bases.push(split(s));
        }
        for v in VALUES {
            bases.push(split(&format!("/dts-v1/; / {{ l: n {{ }}; p = {v}, <1>; }};")));
        }
        for i in ITEMS.iter() {
            for j in ITEMS.iter() {
                bases.push(split(&format!("/dts-v1/; / {{ {i} k {{ {j} }}; }};")));
            }
        }
        for i in ELEMS.iter() {
            for j in ELEMS.iter() {
                bases.push(split(&format!("{i} {j}")));
            }
        }
        let ins: Vec<&str> = TOP.iter().chain(BODY).chain(VALUE).copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        for s in SEEDS {
            let t = split(s);
            for i in 0..=t.len() {
                for x in &ins {
                    let mut u = t.clone();
                    u.insert(i, x.to_string());
                    extra.push(u);
                    if i < t.len() {
                        let mut u = t.clone();
                        u[i] = x.to_string();
                        extra.push(u);
                    }
                }
                if i < t.len() {
                    let mut u = t.clone();
                    u.remove(i);
                    bases.push(u);
                    bases.push(t[..i].to_vec());
                }
            }
        }
        bases.retain(|t| t.iter().all(good));
        extra.retain(|t| t.iter().all(good));
        let toks3 = |al: &'static [&'static str], pre: &str, post: &str, max: u32, out: &mut Vec<Vec<String>>| {
            for i in 0..seq_count(al.len() as u64, max) {
                let mid: Vec<&str> = seq(i, al.len() as u64, max).into_iter().map(|k| al[k]).collect();
                let t = split(&format!("{pre} {} {post}", mid.join(" ")));
                if t.iter().all(good) {
                    out.push(t);
                }
            }
        };
        toks3(TOP, "/dts-v1/;", "", eng.tier(2, 3), &mut extra);
        toks3(BODY, "/dts-v1/; / { l: n { }; ", "};", eng.tier(2, 3), &mut extra);
        toks3(BODY, "/dts-v1/; / {", "", eng.tier(2, 3), &mut extra);
        toks3(VALUE, "/dts-v1/; / { p = ", "; };", eng.tier(2, 3), &mut extra);
        bases.sort();
        bases.dedup();
        extra.sort();
        extra.dedup();
        let mk = |t: &[String], f: &dyn Fn(usize) -> String| -> Case {
            let mut s = vec!["dts".to_string()];
            for (i, x) in t.iter().enumerate() {
                s.push(f(i));
                s.push(x.clone());
            }
            s.push(f(t.len()));
            Case::new("layout", s)
        };
        // long gaps
        let seeds: Vec<Vec<String>> = SEEDS.iter().map(|s| split(s)).filter(|t| t.iter().all(good)).collect();
        const MANY: &[&str] = &[" ", "\n", "\t", "\r\n", " /*;*/", "// }\n", "/**/\n"];
        let counts: Vec<usize> = COUNTS.iter().copied().filter(|n| *n > 1 && n.is_power_of_two() || n % 2 == 1 || eng.tier(false, true)).collect();
        eng.par("long gaps", (seeds.len() * counts.len()) as u64, |w, i| {
            let (t, n) = (&seeds[i as usize % seeds.len()], counts[i as usize / seeds.len()]);
            for g in 0..=t.len() {
                for m in MANY.iter().map(|m| m.repeat(n)).chain([format!("/*{}*/", "x".repeat(n)), format!("//{}\n", "y;".repeat(n))]) {
                    let c = mk(t, &|k| if k == g { m.clone() } else { " ".into() });
                    w.case(c, |w, c| self.judge(w, c));
                }
            }
        });
        let ns = SEPS.len();
        eng.par("every gap, one at a time", bases.len() as u64, |w, i| {
            let t = &bases[i as usize];
            for g in 0..=t.len() {
                for sep in SEPS {
                    let c = mk(t, &|k| if k == g { sep.to_string() } else { " ".into() });
                    w.case(c, |w, c| self.judge(w, c));
                }
            }
        });
        eng.par("all gaps alike", ((bases.len() + extra.len()) * ns) as u64, |w, i| {
            let t = (i as usize) / ns;
            let t = if t < bases.len() { &bases[t] } else { &extra[t - bases.len()] };
            let sep = SEPS[i as usize % ns];
            let c = mk(t, &|_| sep.to_string());
            w.case(c, |w, c| self.judge(w, c));
        });
        if eng.thorough {
            eng.par("every gap of edited documents", extra.len() as u64, |w, i| {
                let t = &extra[i as usize];
                for g in 0..=t.len() {
                    for sep in ["", "/*;*/", "//}\n", "\r\n\t"] {
                        let c = mk(t, &|k| if k == g { sep.to_string() } else { " ".into() });
                        w.case(c, |w, c| self.judge(w, c));
                    }
                }
            });
        }
        // comments with every short content
        const LINE: &[&str] = &["/", "*", "\\", "\"", "'", ";", "{", "}", "&", "<", "(", ":", "=", "#", "a", "1", "é", " ", "\t", "//", "/*", "*/", "\r", "/dts-v1/"];
        let mut comments: Vec<String> = vec![];
        let nl = LINE.len() as u64;
        for i in 0..seq_count(nl, 2) {
            let s: String = seq(i, nl, 2).into_iter().map(|k| LINE[k]).collect();
            comments.push(format!("//{s}\n"));
            if !s.contains('\r') {
                comments.push(format!("//{s}\r\n"));
            }
        }
        const BLOCK: &[&str] = &["/", "*", "\\", "\"", ";", "}", "{", "\n", "a", "é", "'", "//"];
        let nb = BLOCK.len() as u64;
        for i in 0..seq_count(nb, 3) {
            let s: String = seq(i, nb, 3).into_iter().map(|k| BLOCK[k]).collect();
            if !s.contains("*/") {
                comments.push(format!("/*{s}*/"));
            }
        }
        let chars = any_chars();
        for x in &chars {
            for y in &chars {
                let s: String = [*x, *y].iter().collect();
                if !s.contains('\n') {
                    comments.push(format!("//{s}\n"));
                }
                if s != "*/" {
                    comments.push(format!("/*{s}*/"));
                }
            }
        }
        const FORMS: &[&str] = &["/**/", "/***/", "/****/", "/* */", "/*/*/", "//\n", "///\n", "//*\n", "/*//*/", "//*/\n", "/*\n*/", " ", "\n", "\r\n", "\t", "\u{c}"];
        let nf = FORMS.len() as u64;
        for i in 0..seq_count(nf, 3) {
            comments.push(seq(i, nf, 3).into_iter().map(|k| FORMS[k]).collect());
        }
        let few: Vec<Vec<String>> = [
            "/dts-v1/; / { l: n { }; p = \"s\", <&l 1>, [0a]; q; };",
            "/memreserve/ 1 2; /include/ \"e.dtsi\" &{/n} { };",
            "/ { /delete-node/ n; p = <&nope>; };",
            "/ { n { } p = <1> };",
        ]
        .iter()
        .map(|s| split(s))
        .collect();
        let deep = eng.tier(1, few.len());
        eng.par("comments with every short content, and short sequences of comments", comments.len() as u64, |w, i| {
            let sep = &comments[i as usize];
            for (n, t) in few.iter().enumerate() {
                let c = mk(t, &|_| sep.clone());
                w.case(c, |w, c| self.judge(w, c));
                for g in (0..=t.len()).filter(|_| n < deep) {
                    let c = mk(t, &|k| if k == g { sep.clone() } else { " ".into() });
                    w.case(c, |w, c| self.judge(w, c));
                }
            }
        });
        // all combinations of separators in short documents
        let short: Vec<&Vec<String>> = bases.iter().chain(&extra).filter(|t| t.len() <= eng.tier(7, 9)).collect();
        const S3: [&str; 4] = ["", "/*;*/", "//}\n", " "];
        eng.par("all combinations of gaps in short documents", short.len() as u64, |w, i| {
            let t = short[i as usize];
            for code in 0..4u32.pow(t.len() as u32 - t.len() as u32 / 3) {
                let c = mk(t, &|k| S3[(code >> (2 * (k % 16)) & 3) as usize].to_string());
                w.case(c, |w, c| self.judge(w, c));
            }
        });
    }
}

pub struct Semicolons;

/// The text without some semicolons
pub fn without(text: &str, drop: &[usize], fill: &str) -> String {
    text.chars()
        .enumerate()
        .map(|(i, c)| if drop.contains(&i) { fill.to_string() } else { c.to_string() })
        .collect()
}

const GAPS: &[&str] = &[" ", "\n", " /* ; */ ", "//;\n", "\t"];

/// The semicolons that may be left out, and whether the others have to stay then.
/// A valued property followed by something that could continue the value is left out.
fn droppable(doc: &Doc, chars: &[char]) -> Vec<(usize, bool)> {
    doc
        .semis
        .iter()
        .filter_map(|s| {
            let rest: String = chars[s.0 + 1..].iter().collect();
            let rest = rest.trim_start();
            let word: String = rest.chars().take_while(|c| is_name(*c) || *c == '@').collect();
            let label = rest[word.len()..].starts_with(':');
            let odd_digit = word.starts_with(|c: char| c.is_ascii_digit())
                && word.chars().any(|c| !c.is_ascii_alphanumeric());
            let comma = rest.starts_with(',');
            // such a name is only told from a value once a semicolon has been seen
            let odd = odd_digit || comma;
            let out = s.1 == 'p' || (s.1 == 'v' && (odd || label));
            (!out).then_some((s.0, odd))
        })
        .collect()
}

impl Check for Semicolons {
    fn id(&self) -> &'static str {
        "C08"
    }
    /// s: extension, complete text, fill, indices of the semicolons to leave out
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let (ext, text, fill) = (&c.s[0], &c.s[1], &c.s[2]);
        let drop: Vec<usize> = c.s[3].split(',').filter_map(|x| x.parse().ok()).collect();
        let full = run(&w.dir, ext, text);
        let doc = &full.exp.doc;
        if full.exp.verdict != Verdict::Accept {
            return Err(format!("harness: the base document is not well-formed: {:?}", full.exp.verdict));
        }
        let cut = without(text, &drop, fill);
        let mut p = Project::default();
        sut::open(&mut p, &full.path, &cut);
        let got = sut::diags(&p, &full.path);
        // where each position of the complete text ends up
        let (_, pos, _) = positions(text);
        let (_, npos, _) = positions(&cut);
        let fl = fill.chars().count();
        let map = |q: P| -> P {
            let i = pos.iter().position(|x| *x == q).unwrap_or(pos.len() - 1);
            let before = drop.iter().filter(|d| **d < i).count();
            npos[i - before + before * fl]
        };
        let msp = |s: Sp| Sp::new(map(s.s), map(s.e));
        // the problems of the complete text, except that ranges may end before a missing semicolon
        let ends: Vec<(P, P)> = doc.semis.iter().filter(|s| drop.contains(&s.0)).map(|s| (pos[s.0 + 1], s.2)).collect();
        let fix = |s: Sp| -> At {
            match ends.iter().find(|e| e.0 == s.e) {
                Some(e) => At::OneOf(vec![Sp::new(map(s.s), map(e.1)), msp(s)]),
                None => At::Exact(msp(s)),
            }
        };
        let mut lints: Vec<Lint> = full
            .exp
            .lints
            .iter()
            .map(|l| {
                let at = match &l.at {
                    At::Exact(s) if *s == Sp::ZERO => At::Exact(Sp::ZERO),
                    At::Exact(s) => fix(*s),
                    At::OneOf(v) => At::OneOf(v.iter().map(|s| msp(*s)).collect()),
                    At::Anywhere => At::Anywhere,
                };
                Lint { at, ..l.clone() }
            })
            .collect();
        let is_semi = |d: &D| d.kind == "expected" && d.msg.contains("';'");
        let mut places: Vec<P> = doc.semis.iter().filter(|s| drop.contains(&s.0)).map(|s| map(s.2)).collect();
        places.sort();
        let mut found: Vec<P> = got.iter().filter(|d| is_semi(d)).map(|d| d.sp.s).collect();
        found.sort();
        if places != found {
            return Err(format!("semicolons are missing at {places:?} of {cut:?}, reported: {}", sut::show(&got)));
        }
        let rest: Vec<D> = got.iter().filter(|d| !is_semi(d)).cloned().collect();
        lints.retain(|l| l.kind != "expected");
        compare(&lints, &rest).map_err(|e| format!("{cut:?}: {e}"))?;
        let Some(mut t) = sut::tree(&p, &full.path) else {
            return Err(format!("no tree for {cut:?}"));
        };
        let mut model = doc.elems.clone();
        map_names(&mut model, &msp);
        only_names(&mut t);
        only_names(&mut model);
        if doc.alt.is_empty() && t != model {
            return Err(format!("{cut:?}: {}", diff(&t, &model)));
        }
        ok(3, if drop.len() == 1 { "one missing" } else { "several missing" })
    }

    fn explore(&self, eng: &Eng) {
        let lint_items: &[&str] = &[
            "p = <1>;", "q = \"s\", <&l>;", "pl: r = [12];", "n {};", "ln: m@1 { p = <1>; };", "/delete-node/ n;", "/delete-property/ p;", "u = &nope;", "w = <&{/nope} &l>;",
            "s;", "/omit-if-no-ref/ o {};", "/omit-if-no-ref/ op = <1>;", "compatible = <1>;", "1bad_start {};", "n { x {}; y = <2>; };", "t = \"a\\\"b\";", "#cells = <1>;",
            ",odd = <2>;", "d { ,o = <2>; };", "e { 2-d; };", ".dot = [];", "+a = <3>;", "?q = <4>;", "-b = \"x\";", "_c = (1);", "e = <(1)>;", "v = /bits/ 8 <1>;", "2d = <1>;", "ab,c@1 { };", "x = <08>;",
        ];
        let elems: &[&str] = &[
            "/dts-v1/;", "/plugin/;", "/memreserve/ 0x10 020;", "/include/ \"e.dtsi\"", "/ {};", "/ { p = <1>; n { q = \"x\"; }; };", "/ { l: n { }; };", "&l {};", "&l { p = &l; m {}; };",
            "&{/n} { x: y { p; }; };", "/delete-node/ &l;", "/delete-node/ &{/n};", "/omit-if-no-ref/ &l;", "&nope { };", "/ { u = &nope; };",
        ];
        let k = eng.tier(3, 4);
        let ni = lint_items.len() as u64;
        let mut spaces: Vec<Space> = vec![];
        let own = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
        for (pre, post) in [("/dts-v1/; / { l: n { }; }; / { ", " };"), ("/dts-v1/; / { l: n { }; k { ", " }; j { }; };")] {
            let it = own(lint_items);
            spaces.push(Space::new(&format!("items within {pre}"), seq_count(ni, k), move |i| {
                let t: Vec<&str> = seq(i, ni, k).into_iter().map(|k| it[k].as_str()).collect();
                format!("{pre}{}{post}", t.join(" "))
            }));
        }
        let ne = elems.len() as u64;
        let it = own(elems);
        let ke = eng.tier(3, 4);
        spaces.push(Space::new("elements", seq_count(ne, ke), move |i| {
            let t: Vec<&str> = seq(i, ne, ke).into_iter().map(|k| it[k].as_str()).collect();
            t.join("\n")
        }));
        for s in spaces {
            eng.par(&s.name, s.n, |w, i| {
                let text = s.get(i);
                let doc = parse(&text);
                if doc.verdict != Verdict::Accept {
                    return;
                }
                let (chars, _, _) = positions(&text);
                let semis = droppable(&doc, &chars);
                let m = semis.len().min(eng.tier(6, 8));
                // the last ones are the most nested
                for mask in 1u32..1 << m {
                    if mask.count_ones() > eng.tier(2, 3) && mask != (1 << m) - 1 {
                        continue;
                    }
                    if mask.count_ones() > 1 && (0..m).any(|b| mask >> b & 1 == 1 && semis[b].1) {
                        continue;
                    }
                    let drop: Vec<String> = (0..m).filter(|b| mask >> b & 1 == 1).map(|b| semis[b].0.to_string()).collect();
                    let fills = if mask.count_ones() == 1 { GAPS } else { &GAPS[..1] };
                    for f in fills {
                        let c = Case::new("semicolons", vec!["dts".into(), text.clone(), f.to_string(), drop.join(",")]);
                        w.case(c, |w, c| self.judge(w, c));
                    }
                }
            });
        }
        // larger documents
        let big = eng.tier(17, 129);
        for s in [
            amid("one among many items", big, "/dts-v1/; / { l: n { }; }; / { ", &lint_items[..15], lint_items, "\n", " };"),
            amid("one among many elements", big, "", elems, elems, "\n", ""),
        ] {
            eng.par(&s.name, s.n, |w, i| {
                let text = s.get(i);
                let doc = parse(&text);
                if doc.verdict != Verdict::Accept {
                    return;
                }
                let (chars, _, _) = positions(&text);
                let semis = droppable(&doc, &chars);
                let n = semis.len();
                let mut sets: Vec<Vec<usize>> = [0, 1, n / 3, n / 2, n.wrapping_sub(3), n.wrapping_sub(2), n.wrapping_sub(1)].into_iter().filter(|k| *k < n).map(|k| vec![k]).collect();
                sets.sort();
                sets.dedup();
                let even: Vec<usize> = (0..n).filter(|k| !semis[*k].1).collect();
                sets.push(even.iter().copied().step_by(2).collect());
                sets.push(even);
                for set in sets.iter().filter(|s| !s.is_empty()) {
                    let drop: Vec<String> = set.iter().map(|k| semis[*k].0.to_string()).collect();
                    let c = Case::new("semicolons", vec!["dts".into(), text.clone(), " ".into(), drop.join(",")]);
                    w.case(c, |w, c| self.judge(w, c));
                }
            });
        }
    }
}

/// Moves the ranges of names.
fn map_names(v: &mut [Elem], f: &dyn Fn(Sp) -> Sp) {
    fn items(v: &mut [Item], f: &dyn Fn(Sp) -> Sp) {
        for i in v {
            match i {
                Item::Prop(p) => {
                    p.name.sp = f(p.name.sp);
                    p.label.iter_mut().for_each(|l| l.sp = f(l.sp));
                    p.vals.iter_mut().for_each(|l| l.sp = f(l.sp));
                }
                Item::Node(n) => node(n, f),
                Item::DelNode { tok, name } | Item::DelProp { tok, name } => {
                    *tok = f(*tok);
                    name.sp = f(name.sp);
                }
            }
        }
    }
    fn node(n: &mut Node, f: &dyn Fn(Sp) -> Sp) {
        n.omit.iter_mut().for_each(|s| *s = f(*s));
        n.label.iter_mut().for_each(|l| l.sp = f(l.sp));
        n.name.sp = f(n.name.sp);
        items(&mut n.items, f);
    }
    for e in v {
        match e {
            Elem::Header(s) | Elem::Plugin(s) => *s = f(*s),
            Elem::Include { sp, name } => {
                *sp = f(*sp);
                name.sp = f(name.sp);
            }
            Elem::Root(n) => node(n, f),
            Elem::Ext { r, items: i, .. } => {
                r.sp = f(r.sp);
                items(i, f);
            }
            Elem::Delete { tok, r } | Elem::Omit { tok, r } => {
                *tok = f(*tok);
                r.sp = f(r.sp);
            }
            _ => {}
        }
    }
}

/// Removes the ranges that depend on the semicolon.
fn only_names(v: &mut [Elem]) {
    fn items(v: &mut [Item]) {
        for i in v {
            match i {
                Item::Prop(p) => p.sp = Sp::ZERO,
                Item::Node(n) => {
                    n.sp = Sp::ZERO;
                    items(&mut n.items);
                }
                _ => {}
            }
        }
    }
    for e in v {
        match e {
            Elem::Root(n) => {
                n.sp = Sp::ZERO;
                items(&mut n.items);
            }
            Elem::Ext { sp, items: i, .. } => {
                *sp = Sp::ZERO;
                items(i);
            }
            _ => {}
        }
    }
}
