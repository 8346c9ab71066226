//! C21: definition and hover answer for exactly the construct under the cursor.
use super::protocol;
use super::session::*;
use mc::engine::*;
use mc::gen::*;
use mc::histories::ODD;
use mc::projects::{definitions_and_places, disk};
use mc::refparse::*;
use mc::resolve::*;
use mc::robust::positions;
use mc::tree::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct Queries;

/// What a position must yield
enum Want {
    Nothing,
    /// something that the model does not say
    Open,
    Node { defs: Vec<(PathBuf, Sp)>, name: String, may_miss: bool, but: Option<PathBuf> },
    Include { to: Option<PathBuf>, name: String },
    Label(String),
}

fn wanted(path: &Path, doc: &Doc, e: &Expected, p: P) -> Want {
    let mut incs = e.includes.iter();
    let mut heads = doc.heads.iter();
    let mut head = None;
    for x in &doc.elems {
        match x {
            Elem::Include { sp, name } => {
                let to = incs.next().unwrap().clone();
                if sp.has(p) {
                    return Want::Include { to, name: name.t.clone() };
                }
            }
            Elem::Ext { r, .. } | Elem::Delete { r, .. } | Elem::Omit { r, .. } => {
                let h = heads.next().unwrap();
                if r.sp.has(p) {
                    head = Some(h);
                }
            }
            _ => {}
        }
    }
    let file = path;
    if let Some(r) = head.or_else(|| doc.refs.iter().find(|r| r.sp.has(p))) {
        let path = match &r.r {
            Ref::Path(p) => Some(p.clone()),
            Ref::Label(l) => e.env.labels.get(l).and_then(|t| match t.iter().next() {
                Some(Target::Node(p)) => Some(p.clone()),
                _ => None,
            }),
        };
        return match e.env.resolve(&r.r) {
            Res::No => Want::Nothing,
            Res::Yes(Some(defs)) => {
                let name = match path.as_ref().and_then(|p| p.last()) {
                    Some(n) => n.split('@').next().unwrap().to_string(),
                    None => "/".into(),
                };
                // what is declared later may count
                let may_miss = e.lints.iter().any(|l| l.kind == "unresolved_reference" && l.at == At::Exact(r.sp));
                // a malformed include may define it as well
                let but = e.env.any.then(|| file.to_owned());
                Want::Node { defs: defs.into_iter().collect(), name, may_miss, but }
            }
            _ => Want::Open,
        };
    }
    if let Some(l) = doc.labels.iter().find(|l| l.sp.has(p)) {
        return Want::Label(l.t.trim_end_matches(':').to_string());
    }
    Want::Nothing
}

type Place = (PathBuf, Sp);

fn places(v: &Value) -> Vec<Place> {
    let list: Vec<&Value> = match v {
        Value::Null => vec![],
        Value::Array(a) => a.iter().collect(),
        v => vec![v],
    };
    list.into_iter()
        .map(|l| {
            let (u, r) = if l.get("targetUri").is_some() { (&l["targetUri"], &l["targetSelectionRange"]) } else { (&l["uri"], &l["range"]) };
            let f = url::Url::parse(u.as_str().unwrap()).unwrap().to_file_path().unwrap();
            let (s, e) = protocol::range(r).unwrap();
            (f, Sp::new((s.0 as u32, s.1 as u32), (e.0 as u32, e.1 as u32)))
        })
        .collect()
}

/// the text of a hover
fn words(v: &Value) -> Option<String> {
    fn text(v: &Value, out: &mut String) {
        match v {
            Value::String(s) => out.push_str(s),
            Value::Array(a) => a.iter().for_each(|x| text(x, out)),
            Value::Object(o) => {
                if let Some(x) = o.get("value") {
                    text(x, out)
                }
            }
            _ => {}
        }
    }
    if v.is_null() {
        return None;
    }
    let mut s = String::new();
    text(&v["contents"], &mut s);
    Some(s)
}

fn judge_position(want: &Want, def: &Value, hover: &Value) -> Result<(), String> {
    let d = places(def);
    let h = words(hover);
    match want {
        Want::Open => Ok(()),
        Want::Nothing => {
            if let Some(d) = d.first() {
                return Err(format!("definition leads to {d:?}, though nothing is referenced"));
            }
            match h {
                Some(h) => Err(format!("hover shows {h:?}, though there is nothing")),
                None => Ok(()),
            }
        }
        Want::Node { defs, name, may_miss, but } => {
            if *may_miss && d.is_empty() && h.is_none() {
                return Ok(());
            }
            if d.len() != 1 || !(defs.contains(&d[0]) || but.as_ref().is_some_and(|f| *f != d[0].0)) {
                return Err(format!("definition leads to {d:?}; expected one of {defs:?}"));
            }
            match h {
                Some(h) if h.contains(name.as_str()) => Ok(()),
                h => Err(format!("hover shows {h:?}, which does not describe {name}")),
            }
        }
        Want::Include { to, name } => {
            match (to, d.as_slice()) {
                (None, []) => {}
                (Some(f), [(g, s)]) if f == g && s.s == (0, 0) => {}
                _ => return Err(format!("definition leads to {d:?}; expected the start of {to:?}")),
            }
            match h {
                Some(h) if h.contains(name.as_str()) => Ok(()),
                h => Err(format!("hover shows {h:?}; expected {name}")),
            }
        }
        Want::Label(name) => {
            if let Some(d) = d.first() {
                return Err(format!("definition of a label leads to {d:?}"));
            }
            match h {
                Some(h) if h.contains(name.as_str()) => Ok(()),
                h => Err(format!("hover shows {h:?}; expected the label {name}")),
            }
        }
    }
}

/// All positions within the lines of a text and some beyond
fn everywhere(text: &str) -> Vec<(u32, u32)> {
    let mut v = positions(text);
    let (_, _, lines) = mc::refparse::positions(text);
    for (l, n) in lines.iter().enumerate() {
        for c in [n + 1, n + 2, u32::MAX] {
            v.push((l as u32, c));
        }
    }
    v.extend([(lines.len() as u32, 0), (lines.len() as u32, 1), (u32::MAX, 0), (u32::MAX, u32::MAX)]);
    v.sort();
    v.dedup();
    v
}

impl Check for Queries {
    fn id(&self) -> &'static str {
        "C21"
    }
    /// s: names and contents of files in turn, all of them open; "disk": only the first is open
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let d = disk(w);
        let mut open: BTreeMap<PathBuf, String> = BTreeMap::new();
        let mut files = vec![];
        for (k, f) in c.s.chunks(2).enumerate() {
            let closed = c.sub == "disk" && k > 0;
            let p = d.put(&f[0], if closed { &f[1] } else { "" });
            if !closed {
                open.insert(p.clone(), f[1].clone());
            }
            files.push((p, f[1].clone()));
        }
        let world = World::new(open.clone(), vec![], PathBuf::from("/"));
        let mut s = ready(json!({}))?;
        for (p, t) in open.iter().rev() {
            s.send(&super::session::open(&uri(p), 1, t))?;
        }
        let mut id = 0;
        let mut seen = [false; 4];
        for (p, t) in &files {
            let u = uri(p);
            let e = world.done.get(p);
            for pos in everywhere(t) {
                let mut query = |method: &str| {
                    id += 1;
                    let m = at(id, method, &u, pos.0, pos.1);
                    ask(s.as_mut(), &m).and_then(|v| protocol::result(method, &v).map(|_| v)).map_err(|m| format!("{}: {m}", name(p)))
                };
                let def = query("textDocument/definition")?;
                let hover = query("textDocument/hover")?;
                let want = match e {
                    Some(e) if e.verdict == Verdict::Accept && e.doc.spans_known => wanted(p, &e.doc, e, pos),
                    Some(_) => Want::Open,
                    None => continue,
                };
                match &want {
                    Want::Node { .. } => seen[0] = true,
                    Want::Include { .. } => seen[1] = true,
                    Want::Label(_) => seen[2] = true,
                    Want::Open => seen[3] = true,
                    _ => {}
                }
                judge_position(&want, &def, &hover).map_err(|m| format!("{} at {}:{}: {m}", name(p), pos.0, pos.1))?;
            }
        }
        ok(id as u64, match seen {
            [true, true, ..] => "references and includes",
            [true, ..] => "references",
            [_, true, ..] => "includes",
            [_, _, true, _] => "labels",
            [_, _, _, true] => "unspecified constructs",
            _ => "nothing",
        })
    }
    fn explore(&self, eng: &Eng) {
        let ne = ELEMS.len() as u64;
        let text = |v: &[usize]| v.iter().map(|i| ELEMS[*i]).collect::<Vec<_>>().join("\n");
        let k = if IN_PROCESS { eng.tier(3, 4) } else { 1 };
        for ext in ["dts", "dtsi", "dtso"] {
            let k = if ext == "dts" { k } else { k.min(2) };
            eng.par(&format!("every position of programs in .{ext}"), seq_count(ne, k), |w, i| {
                let c = Case::new("program", vec![format!("q.{ext}"), format!("/dts-v1/;\n{}", text(&seq(i, ne, k)))]);
                w.case(c, |w, c| self.judge(w, c))
            });
        }
        let k = if IN_PROCESS { eng.tier(2, 3) } else { 1 };
        for sub in ["program", "disk"] {
            eng.par(&format!("every position of programs with includes ({sub})"), seq_count(ne, k), |w, i| {
                let v = seq(i, ne, k);
                for a in 0..=v.len() {
                    for b in a..=v.len() {
                        let main = format!("/dts-v1/;\n{}\n/include/ \"i.dtsi\"\n{}", text(&v[..a]), text(&v[b..]));
                        let c = Case::new(sub, vec!["q.dts".into(), main, "i.dtsi".into(), text(&v[a..b])]);
                        w.case(c, |w, c| self.judge(w, c));
                    }
                }
            });
        }
        // other layouts: every gap filled with everything
        let docs: Vec<(String, Vec<String>)> = vec![
            ("one".into(), split("/dts-v1/;/{a:n@1{b:m{p=&a,<1 &b &{/n@1/m}>,&{/n@1};q:r;};};};&a{s=\"&a\";c:k{};};&{/n@1/m}{};/{u=&c,&none;};")),
            ("two".into(), split("/dts-v1/;/include/\"i.dtsi\"/{v=&in,&{/in},[00 11];};&in{w:x{};};/include/\"missing.dtsi\"/omit-if-no-ref/&in;/{/omit-if-no-ref/z:y{/delete-property/p;/delete-node/k;};};")),
            ("three".into(), split("/dts-v1/;/{l:p=<&l1>,&l1;l1:n{};};/include/\"sub/../i.dtsi\"&in{};&{/}{};/delete-node/&l1;")),
        ];
        let fill = ["", " ", "\n", "\r\n", "\t", "/*é𝄞*/", "// &a\n", " /* / {\n &a */ ", "\u{c}"];
        let mut list = vec![];
        for (_, toks) in &docs {
            for g in 0..=toks.len() {
                for f in fill {
                    let t: String = toks.iter().enumerate().map(|(k, x)| if k == g { format!("{f}{x}") } else { x.clone() }).collect();
                    let t = if g == toks.len() { format!("{t}{f}") } else { t };
                    list.push(Case::new("disk", vec!["q.dts".into(), t, "i.dtsi".into(), "/*\n*/ / { in: in { }; };".into(), "sub/x".into(), String::new()]));
                }
            }
            for f in fill {
                let t = toks.join(f);
                list.push(Case::new("disk", vec!["q.dts".into(), t, "i.dtsi".into(), "/ { in: in { }; };".into(), "sub/x".into(), String::new()]));
            }
            // cut off anywhere, and every token left out
            for g in 0..toks.len() {
                list.push(Case::new("disk", vec!["q.dts".into(), toks[..g].concat(), "i.dtsi".into(), "/ { in: in { }; };".into()]));
                let t: String = toks.iter().enumerate().filter(|(k, _)| *k != g).map(|x| x.1.as_str()).collect();
                list.push(Case::new("disk", vec!["q.dts".into(), t, "i.dtsi".into(), "/ { in: in { }; };".into()]));
            }
        }
        if !IN_PROCESS {
            list.truncate(200);
        }
        eng.par_list("every position under other layouts", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        let mut list: Vec<Case> = definitions_and_places(eng.tier(2, 7), 6).into_iter().map(|f| Case::new("disk", f)).collect();
        if !IN_PROCESS {
            list.truncate(100);
        }
        eng.par_list("every position of every kind of definition and every place of a reference", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // unusual names of files, other types of files
        let mut list = vec![];
        for (k, f) in definitions_and_places(2, 4).into_iter().enumerate() {
            for (main, inc) in [("main.dtso", "i.dtso"), ("main.dts", "i.dts"), ("main.dtsi", "i.h"), ("main.dts", "i.dtso"), ("main.txt", "i"), ("main", "i.overlay"), ("main.dtsi", "i.DTSI")] {
                if k % 7 == 0 || eng.thorough {
                    let f: Vec<String> = f.iter().map(|t| t.replace("main.dts", main).replace("i.dtsi", inc)).collect();
                    list.push(Case::new("disk", f));
                }
            }
        }
        for a in ODD {
            for b in ODD.iter().chain(&["a\nb"]) {
                for kind in 0..4 {
                    let (main, inc) = match kind {
                        0 => (format!("{a}/q.dts"), format!("{a}/{b}.dtsi")),
                        1 => (format!("{a}/q.dts"), format!("{b}/i.dtsi")),
                        2 => (format!("{a}.dts"), format!("{b}/{a}")),
                        _ => (format!("{a}/{b}.dts"), format!("{a}/i/{b}")),
                    };
                    let name = inc.replace('\\', "\\\\").replace('"', "\\\"");
                    let up = if main.contains('/') { "../" } else { "" };
                    let text = format!("/dts-v1/; /include/ \"{up}{name}\"\n&in {{ u = &in, &{{/in/x}}; }};");
                    let c = vec![main, text, inc, "/ { in: in { x { }; v = &in; }; };".into()];
                    list.push(Case::new("disk", c.clone()));
                    list.push(Case::new("program", c));
                }
            }
        }
        if !IN_PROCESS {
            list.truncate(100);
        }
        eng.par_list("every position of files with unusual names", &list, |w, c| w.case(c.clone(), |w, c| self.judge(w, c)));
        // values of all kinds, names of all kinds
        if IN_PROCESS {
            for s in names() {
                let step = if s.n > 1000 { eng.tier(3, 1) } else { 1 };
                eng.par(&format!("every position of {}", s.name), s.n / step, |w, i| {
                    w.case(Case::new("program", vec!["q.dts".into(), s.get(i * step)]), |w, c| self.judge(w, c))
                });
            }
            let max = eng.tier(1500, 10000);
            for s in scaled() {
                eng.par(&format!("every position of {}", s.name), s.n, |w, i| {
                    if s.get(i).len() > max {
                        return;
                    }
                    w.case(Case::new("program", vec!["q.dts".into(), s.get(i)]), |w, c| self.judge(w, c))
                });
            }
            for s in well_formed(2, eng.tier(1, 2), 1) {
                eng.par(&format!("every position of {}", s.name), s.n, |w, i| {
                    w.case(Case::new("program", vec!["q.dts".into(), s.get(i)]), |w, c| self.judge(w, c))
                });
            }
        }
        eng.extra("server", json!(if IN_PROCESS { "in process" } else { "over the wire" }));
    }
}

fn name(p: &Path) -> String {
    p.file_name().unwrap().to_string_lossy().to_string()
}

const ELEMS: &[&str] = &[
    "/ { a: n { }; };",
    "/ { n { b: m { }; }; };",
    "/ { n@1 { c: p = <1>, \"é𝄞\", &a; }; };",
    "&a { k: m { }; q; };",
    "&b { y: z { p; }; };",
    "&{/n} { d: k { }; };",
    "&k { w: v { }; };",
    "/delete-node/ &b;",
    "/omit-if-no-ref/ &a;",
    "/ { u = \"𝄞\", &a, &b, <&k 1 &d>, <0x1 &{/n/k}>, &c; };",
    "/ { u = &{/n},&{/n@1}, <&{/n/m/z} &{/n/k}>, &{/}, &w; };",
    "/ { /omit-if-no-ref/ e: o { s = <&{/o} &e>; t: r { /delete-node/ n; }; }; };",
    "/include/ \"none.dtsi\"",
    "/plugin/;",
];
