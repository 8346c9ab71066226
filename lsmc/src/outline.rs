//! C22: the outline mirrors the document.
use super::protocol;
use super::session::*;
use mc::docs::place;
use mc::engine::*;
use mc::gen::*;
use mc::refparse::*;
use mc::resolve::World;
use mc::tree::*;
use serde_json::{json, Value};

pub struct Outline;

struct Entry {
    /// the admissible names; the last one must merely be contained
    names: Vec<String>,
    within: Option<String>,
    /// admissible starts and ends of the full range
    starts: Vec<P>,
    end: P,
    /// the end may be a bit later
    loose: bool,
    sel: Sp,
    children: Vec<Entry>,
}

fn plain(n: &str) -> Vec<String> {
    let mut v = vec![n.to_string()];
    if let Some((a, _)) = n.split_once('@') {
        v.push(a.to_string());
    }
    v
}

fn of_node(n: &Node) -> Entry {
    Entry {
        names: plain(&n.name.t),
        within: None,
        starts: n.omit.iter().map(|o| o.s).chain([n.sp.s]).collect(),
        end: n.sp.e,
        loose: false,
        sel: n.name.sp,
        children: of_items(&n.items),
    }
}

fn of_items(items: &[Item]) -> Vec<Entry> {
    let del = |tok: &Sp, name: &T| Entry {
        names: vec![name.t.clone()],
        within: None,
        starts: vec![tok.s],
        end: name.sp.e,
        loose: true,
        sel: name.sp,
        children: vec![],
    };
    items
        .iter()
        .map(|i| match i {
            Item::Prop(p) => Entry {
                names: vec![p.name.t.clone()],
                within: None,
                starts: vec![p.sp.s],
                end: p.sp.e,
                loose: false,
                sel: p.name.sp,
                children: vec![],
            },
            Item::Node(n) => of_node(n),
            Item::DelNode { tok, name } | Item::DelProp { tok, name } => del(tok, name),
        })
        .collect()
}

fn of_doc(elems: &[Elem]) -> Vec<Entry> {
    elems
        .iter()
        .filter_map(|e| {
            Some(match e {
                Elem::Header(_) | Elem::Plugin(_) | Elem::Memreserve(_) | Elem::CInclude(_) => return None,
                Elem::Include { sp, name } => Entry {
                    names: vec![],
                    within: Some(name.t.clone()),
                    starts: vec![sp.s],
                    end: sp.e,
                    loose: false,
                    sel: name.sp,
                    children: vec![],
                },
                Elem::Root(n) => of_node(n),
                Elem::Ext { r, sp, items } => Entry {
                    names: vec![r.t.clone()],
                    within: None,
                    starts: vec![sp.s],
                    end: sp.e,
                    loose: false,
                    sel: r.sp,
                    children: of_items(items),
                },
                Elem::Delete { tok, r } | Elem::Omit { tok, r } => Entry {
                    names: vec![r.t.clone()],
                    within: None,
                    starts: vec![tok.s],
                    end: r.sp.e,
                    loose: true,
                    sel: r.sp,
                    children: vec![],
                },
            })
        })
        .collect()
}

fn sp(v: &Value) -> Sp {
    let (s, e) = protocol::range(v).unwrap();
    Sp::new((s.0 as u32, s.1 as u32), (e.0 as u32, e.1 as u32))
}

fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}

fn compare(want: &[Entry], got: &[Value], path: &str) -> Result<u64, String> {
    let names: Vec<&str> = got.iter().map(|g| g["name"].as_str().unwrap()).collect();
    if want.len() != got.len() {
        return Err(format!("within {path:?}: {} entries {names:?}; expected {}: {:?}", got.len(), want.len(), want.iter().map(|w| &w.names).collect::<Vec<_>>()));
    }
    let mut n = 0;
    for (w, g) in want.iter().zip(got) {
        let name = g["name"].as_str().unwrap();
        let good = match &w.within {
            Some(x) => name.contains(x.as_str()),
            None => w.names.iter().any(|x| x == name),
        };
        if !good {
            return Err(format!("within {path:?}: an entry is called {name:?}; expected {:?}", w.within.as_ref().map_or(w.names.clone(), |x| vec![x.clone()])));
        }
        let (r, s) = (sp(&g["range"]), sp(&g["selectionRange"]));
        if s != w.sel {
            return Err(format!("{path}/{name}: the selection range is {s:?}; the name is at {:?}", w.sel));
        }
        if !w.starts.contains(&r.s) || !(r.e == w.end || w.loose && r.e > w.end) {
            return Err(format!("{path}/{name}: the range is {r:?}; expected {:?} to {:?}", w.starts, w.end));
        }
        n += 1 + compare(&w.children, &list(&g["children"]), &format!("{path}/{name}"))?;
    }
    Ok(n)
}

/// children lie within their parents, siblings follow each other
fn nested(got: &[Value], parent: Option<Sp>) -> Result<(), String> {
    let mut last = (0, 0);
    for g in got {
        let r = sp(&g["range"]);
        if parent.is_some_and(|p| r.s < p.s || r.e > p.e) {
            return Err(format!("{}: the range {r:?} is not within that of the parent {:?}", g["name"], parent.unwrap()));
        }
        if r.s < last {
            return Err(format!("{}: the range {r:?} begins before the entry before ends at {last:?}", g["name"]));
        }
        last = r.e;
        nested(&list(&g["children"]), Some(r))?;
    }
    Ok(())
}

impl Check for Outline {
    fn id(&self) -> &'static str {
        "C22"
    }
    /// s: extension, earlier texts of the document, its text
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let text = c.s.last().unwrap();
        let path = place(&w.dir, &c.s[0], &c.s.concat());
        let world = World::single(&path, text);
        let e = &world.done[&path];
        // one server for many documents
        if w.any.as_ref().is_none_or(|a| !a.is::<Vec<Box<dyn Session>>>()) {
            w.any = Some(Box::new(vec![ready(json!({}))?]));
        }
        let res: Result<Value, String> = {
            let s = w.any.as_mut().unwrap().downcast_mut::<Vec<Box<dyn Session>>>().unwrap();
            let u = uri(&path);
            let run = |s: &mut dyn Session| {
                for (k, t) in c.s[1..].iter().enumerate() {
                    s.send(&if k == 0 { open(&u, k as i64 + 1, t) } else { change(&u, k as i64 + 1, &[t]) })?;
                }
                let v = ask(s, &request(5, "textDocument/documentSymbol", json!({"textDocument": {"uri": u}})))?;
                s.send(&close(&u))?;
                Ok(v)
            };
            run(s[0].as_mut())
        };
        let v = match res {
            Ok(v) => v,
            Err(m) => {
                w.any = None;
                return Err(m);
            }
        };
        protocol::result("textDocument/documentSymbol", &v)?;
        let ops = c.s.len() as u64 + 1;
        let got = list(&v);
        match &e.doc.verdict {
            Verdict::Accept if e.doc.spans_known => {
                nested(&got, None)?;
                let n = compare(&of_doc(&e.doc.elems), &got, "")?;
                ok(ops, match n {
                    0 => "empty",
                    1..=3 => "few entries",
                    _ => "many entries",
                })
            }
            Verdict::Reject(_) => {
                nested(&got, None)?;
                ok(ops, "malformed")
            }
            _ => undecided(ops, "unspecified"),
        }
    }
    fn explore(&self, eng: &Eng) {
        let go = |s: Space, ext: &str| {
            eng.par(&s.name, s.n, |w, i| {
                w.case(Case::new("outline", vec![ext.into(), s.get(i)]), |w, c| self.judge(w, c));
            });
        };
        // every sequence of items
        let n = ITEMS.len() as u64;
        let k = if IN_PROCESS { eng.tier(4, 5) } else { 2 };
        let items = |v: Vec<usize>, sep: &str| v.into_iter().map(|x| ITEMS[x]).collect::<Vec<_>>().join(sep);
        for (pre, post) in [("/dts-v1/;\n/ {", "};"), ("/dts-v1/;&l: x {", "};"), ("/dts-v1/;\n&l {\n", "\n};")] {
            let k = if pre.contains("/ {") { k } else { k - 1 };
            go(Space::new(&format!("items within {pre:?}"), seq_count(n, k), move |i| format!("{pre}{}{post}", items(seq(i, n, k), "\n"))), "dts");
        }
        let n = TOPS.len() as u64;
        let k = if IN_PROCESS { eng.tier(4, 5) } else { 2 };
        for sep in ["\n", ""] {
            go(Space::new(&format!("elements separated by {sep:?}"), seq_count(n, k), move |i| seq(i, n, k).into_iter().map(|x| TOPS[x]).collect::<Vec<_>>().join(sep)), "dts");
        }
        // every nesting
        let n = (ITEMS.len() as u64 + 1) * 3;
        let k = if IN_PROCESS { 3 } else { 1 };
        go(
            Space::new("nested items", seq_count(n, k), move |i| {
                let mut t = String::new();
                for x in seq(i, n, k) {
                    let (shape, item) = (x % 3, ITEMS.get(x / 3).copied().unwrap_or(""));
                    t = match shape {
                        0 => format!("k: n@1 {{ {item} {t} }};"),
                        1 => format!("n {{\n{t}{item}}};"),
                        _ => format!("{item} é {{}}; {t}").replace("é {}; ", "/omit-if-no-ref/ m { }; "),
                    };
                }
                format!("/dts-v1/;\n/ {{ {t} }};")
            }),
            "dts",
        );
        if IN_PROCESS {
            for s in well_formed(2, 2, eng.tier(2, 3)) {
                go(s, "dts");
            }
            for s in token_spaces(eng.tier(3, 4)) {
                go(s, "dts");
            }
            for s in edits() {
                go(s, "dts");
            }
            for s in names() {
                go(s, "dts");
            }
            for s in any_pairs().into_iter().chain([any_char_edits()]) {
                go(s, "dts");
            }
        }
        // far to the right, far down, one entry among many
        let mut list = vec![];
        let sizes = [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 1024, 5000];
        for k in sizes.iter().copied().take(if IN_PROCESS { 99 } else { 8 }) {
            for gap in [" ", "\n", "\t", "/*é𝄞*/", "//x\n", "\r\n"] {
                for x in TOPS.iter().chain(ITEMS) {
                    let x = if TOPS.contains(x) { x.to_string() } else { format!("/ {{ {x} }};") };
                    list.push(format!("/dts-v1/;{}{x}", gap.repeat(k)));
                    list.push(x.replace(' ', &format!(" {}", gap.repeat(k))));
                }
            }
            for many in ["p;", "n { };", "l: n@1 { q; m { }; };", "/delete-node/ n;", "/delete-property/ p;", "q = <1>;", "/omit-if-no-ref/ n { };"] {
                for x in ITEMS {
                    for sep in [" ", "\n"] {
                        let m = format!("{many}{sep}").repeat(k);
                        list.push(format!("/dts-v1/;\n/ {{{sep}{m}{x} }};"));
                        list.push(format!("/dts-v1/;\n/ {{{sep}{x}{sep}{m} }};"));
                        list.push(format!("/dts-v1/;\n&l {{{sep}{m}{x}{sep}{m} }};"));
                    }
                }
            }
            for many in TOPS {
                for x in TOPS {
                    for sep in [" ", "\n"] {
                        let m = format!("{many}{sep}").repeat(k);
                        list.push(format!("{m}{x}{sep}{m}"));
                    }
                }
            }
        }
        let max = eng.tier(6_000, 60_000);
        list.retain(|t| t.len() < max);
        go(Space::list("far right and down, one among many", list), "dts");
        if IN_PROCESS {
            for s in scaled().into_iter().chain([far()]) {
                go(s, "dts");
            }
        }
        // after edits
        let texts: Vec<String> = {
            let mut v: Vec<String> = TOPS.iter().map(|t| t.to_string()).collect();
            v.extend(ITEMS.iter().map(|t| format!("/ {{ {t} }};")));
            v.extend(["", "/ {", "/ { a: n { p", "&", "/include/"].map(|s| s.to_string()));
            v
        };
        let n = texts.len() as u64;
        let k = if IN_PROCESS { eng.tier(2, 3) } else { 2 };
        eng.par("after edits", n.pow(k), |w, mut i| {
            let mut s = vec!["dts".to_string()];
            for _ in 0..k {
                s.push(texts[(i % n) as usize].clone());
                i /= n;
            }
            w.case(Case::new("outline", s), |w, c| self.judge(w, c));
        });
        eng.extra("server", json!(if IN_PROCESS { "in process" } else { "over the wire" }));
    }
}

const ITEMS: &[&str] = &[
    "p;",
    "l: p = \"é𝄞\", <1 &a>,\n[00];",
    "a,b#c;",
    "n { };",
    "a: n@1f { q; };",
    "/omit-if-no-ref/ m { r = &{/n}; };",
    "/omit-if-no-ref/ b: m@0\n{ };",
    "/delete-node/ n@1;",
    "/delete-node/\nn;",
    "/delete-property/ p;",
    "n/* */{ m { k { }; }; } ;",
];
const TOPS: &[&str] = &[
    "/dts-v1/;",
    "/plugin/;",
    "/memreserve/ 0x1 0x2;",
    "/include/ \"e.dtsi\"",
    "/include/\n\"é.dtsi\"",
    "/ { };",
    "/ { a: n@1 { p; };\n m { }; };",
    "&a { q; /delete-node/ k; };",
    "&{/n@1/m} { x { }; };",
    "/delete-node/ &a;",
    "/delete-node/ &{/n@1};",
    "/omit-if-no-ref/ &a;",
    "/*é*/ / { p = \"\n\"; } ;",
];
