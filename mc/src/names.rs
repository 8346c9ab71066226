//! C07 (literals), C09 (names) and C10 (directives and placement).
use crate::docs::{judge, run, Aspect};
use crate::engine::*;
use crate::gen::*;
use crate::refparse::*;
use crate::resolve::*;
use crate::sut;

/// Judges only the diagnostics of some kinds.
pub fn judge_kinds(w: &Worker<'_>, ext: &str, text: &str, kinds: &[&str]) -> Judged {
    let r = run(&w.dir, ext, text);
    match &r.exp.verdict {
        Verdict::Unspec(_) => undecided(2, "unspecified"),
        Verdict::Reject(_) => {
            judge_file(&r.exp, &r.got)?;
            ok(2, "malformed")
        }
        Verdict::Accept => {
            let exp: Vec<Lint> =
                r.exp.lints.iter().filter(|l| l.kind.split('|').any(|k| kinds.contains(&k))).cloned().collect();
            let got: Vec<sut::D> = r.got.iter().filter(|d| kinds.contains(&d.kind.as_str())).cloned().collect();
            compare(&exp, &got)?;
            ok(2, match exp.len() {
                0 => "no breach",
                1 => "one breach",
                _ => "several breaches",
            })
        }
    }
}

pub struct Names;
const NAME_KINDS: &[&str] = &["illegal_char", "expected_name", "illegal_start", "name_too_long"];
const PLACES: &[(&str, &str, &str)] = &[
    ("node name", "/dts-v1/;/{", " {};};"),
    ("node name with label", "/dts-v1/;/{l: ", " {};};"),
    ("name of a nested node", "/dts-v1/;/{k{m{", "{};};};};"),
    ("unit address", "/dts-v1/;/{n@", " {};};"),
    ("name before unit address", "/dts-v1/;/{", "@1 {};};"),
    ("omitted node", "/dts-v1/;/{/omit-if-no-ref/ ", " {};};"),
    ("node label", "/dts-v1/;/{", ": n {};};"),
    ("nested node label", "/dts-v1/;/{k{", ":n {};};};"),
    ("node within an extension", "/dts-v1/;/{x:k{};};&x{", " {};};"),
    ("label within an extension", "/dts-v1/;/{x:k{};};&x{", ": n{};};"),
    ("property name", "/dts-v1/;/{", ";};"),
    ("property name with value", "/dts-v1/;/{", "=<1>;};"),
    ("property name within an extension", "/dts-v1/;/{x:k{};};&x{", " = \"\";};"),
    ("property label", "/dts-v1/;/{", ": p;};"),
    ("property label with value", "/dts-v1/;/{", ": p = <1>;};"),
    ("label before a value", "/dts-v1/;/{p = ", ": <1>;};"),
    ("label before another value", "/dts-v1/;/{p=<1>,", ":\"a\";};"),
    ("label after a value", "/dts-v1/;/{p = \"a\" ", ": ;};"),
    ("label of a cell", "/dts-v1/;/{p = <", ": 1 2>;};"),
    ("label of a last cell", "/dts-v1/;/{x:k{};};/{p=<1 ", ":&x>;};"),
    ("label after the cells", "/dts-v1/;/{p=<1 ", ":>;};"),
    ("label of a byte", "/dts-v1/;/{p=[12 ", ": 34];};"),
    ("deleted node", "/dts-v1/;/{/delete-node/ ", ";};"),
    ("deleted node with unit address", "/dts-v1/;/{/delete-node/ n@", ";};"),
    ("deleted property", "/dts-v1/;/{/delete-property/ ", ";};"),
    ("label reference as value", "/dts-v1/;/{p=&", ";};"),
    ("label reference in cells", "/dts-v1/;/{p=<1 &", " 2>;};"),
    ("extended label", "/dts-v1/;&", "{};"),
    ("deleted label", "/dts-v1/;/delete-node/ &", ";"),
    ("omitted label", "/dts-v1/;/omit-if-no-ref/ &", ";"),
    ("path reference as value", "/dts-v1/;/{p=&{/", "};};"),
    ("inner path component in cells", "/dts-v1/;/{p=<&{/a/", "/b}>;};"),
    ("unit address in a path", "/dts-v1/;/{p=<&{/a@", "}>;};"),
    ("extended path", "/dts-v1/;&{/", "}{};"),
    ("deleted path", "/dts-v1/;/delete-node/ &{/", "};"),
    ("omitted path", "/dts-v1/;/omit-if-no-ref/ &{/", "};"),
];

fn name_space(max: u32) -> Vec<String> {
    const AL: &[&str] = &["a", "Z", "5", "_", ",", ".", "+", "-", "?", "#", "@"];
    let mut v = vec![];
    for i in 0..seq_count(AL.len() as u64, max) {
        v.push(seq(i, AL.len() as u64, max).into_iter().map(|k| AL[k]).collect::<String>());
    }
    for len in [1usize, 2, 15, 29, 30, 31, 32, 33, 64, 200] {
        for first in ["a", "5", "_", "Z", "z", "A", "-", "."] {
            for last in ["b", "?", "_", "-", "0", "9", "#", ","] {
                let mut s = first.to_string();
                s.push_str(&"x".repeat(len.saturating_sub(2)));
                if len > 1 {
                    s.push_str(last);
                }
                v.push(s);
            }
        }
    }
    for l1 in [30, 31, 32] {
        for l2 in [0, 1, 30, 31, 32] {
            v.push(format!("{}@{}", "n".repeat(l1), "2".repeat(l2)));
        }
    }
    for s in ["__symbols__", "__symbols__@1", "__symbols_", "__local_fixups__", "_symbols_"] {
        v.push(s.to_string());
    }
    // every ASCII character and some others, at both ends
    for c in (33u8..127).map(|c| c as char).chain(['é', '€', '𝄞', '\u{a0}', 'ß', '²']) {
        v.push(format!("{c}"));
        v.push(format!("a{c}b"));
        v.push(format!("{c}a"));
        v.push(format!("a{c}"));
    }
    v
}

impl Check for Names {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        judge_kinds(w, &c.s[0], &c.s[1], NAME_KINDS)
    }
    fn explore(&self, eng: &Eng) {
        let names = name_space(eng.tier(3, 5));
        for (what, pre, post) in PLACES {
            eng.par(what, names.len() as u64, |w, i| {
                let c = Case::new(what, vec!["dts".into(), format!("{pre}{}{post}", names[i as usize])]);
                w.case(c, |w, c| self.judge(w, c))
            });
        }
        // two names that may both break a rule
        const TWO: &[&str] = &["a", "1a", "a?", "x#", "_", "-", "aaaaaaaaaabbbbbbbbbbccccccccccdd", "n@", "n@1", "n@?", "1n@#1", "a,b", "n@aaaaaaaaaabbbbbbbbbbccccccccccdd"];
        let n = TWO.len() as u64;
        eng.par("four names at once", n * n * n * n, |w, i| {
            let t = |k: u32| TWO[(i / n.pow(k) % n) as usize];
            let text = format!("/dts-v1/;/{{{}: {} = <1>;\n {}: {} {{/delete-node/ {};}};}};", t(0), t(1), t(0), t(2), t(3));
            w.case(Case::new("two", vec!["dtsi".into(), text]), |w, c| self.judge(w, c))
        });
        // every element of longer paths
        let m = eng.tier(4, 5);
        for (pre, post) in [("/dts-v1/;/{p=&{", "};};"), ("/dts-v1/;/{p=<&{", "}>;};"), ("/dts-v1/;&{", "}{};"), ("/dts-v1/;/delete-node/ &{", "};"), ("/dts-v1/;/omit-if-no-ref/ &{", "};")] {
            eng.par(&format!("longer paths in {pre}"), seq_count(n, m) - 1, |w, i| {
                let p: String = seq(i + 1, n, m).into_iter().map(|k| format!("/{}", TWO[k])).collect();
                w.case(Case::new("path", vec!["dts".into(), format!("{pre}{p}{post}")]), |w, c| self.judge(w, c))
            });
        }
        eng.par("a bad element within long paths", 40 * 40 * n, |w, i| {
            let (len, at, bad) = (i % 40 + 1, i / 40 % 40, i / 1600);
            if at >= len {
                return;
            }
            let p: String = (0..len).map(|k| if k == at { format!("/{}", TWO[bad as usize]) } else { format!("/n{k}") }).collect();
            w.case(Case::new("path", vec!["dts".into(), format!("/dts-v1/;/{{p=&{{{p}}};}};")]), |w, c| self.judge(w, c))
        });
        // a name among many others
        let bad: Vec<String> = TWO.iter().flat_map(|x| [format!("{x} {{ }};"), format!("{x}: n {{ }};"), format!("/delete-node/ {x};")]).collect();
        let bad: Vec<&str> = bad.iter().map(|x| x.as_str()).collect();
        let good = ["n { };", "l: n@1 { q; };", "1n { };", "/delete-property/ p;"];
        let big = eng.tier(129, 1001);
        let go = |s: Space| eng.par(&s.name.clone(), s.n, |w, i| w.case(Case::new("among", vec!["dts".into(), s.get(i)]), |w, c| self.judge(w, c)));
        go(amid("a name among many items", big, "/dts-v1/; / { ", &good, &bad, "\n", " };"));
        let bad: Vec<String> = TWO.iter().flat_map(|x| [format!("{x};"), format!("{x} = <1>;"), format!("{x}: p;"), format!("/delete-property/ {x};"), format!("p = {x}: <{x}: 1>;")]).collect();
        let bad: Vec<&str> = bad.iter().map(|x| x.as_str()).collect();
        go(amid("a name among many properties", big, "/dts-v1/; / { ", &["q;", "l: q = <1>;", "1: q;"], &bad, "\n", " };"));
        let refs = ["&a", "<&a>", "&{/a}", "<&{/a@1/b}>", "&1a", "&", "&{/1a}", "<&{/n@?}>", "&{/aaaaaaaaaabbbbbbbbbbccccccccccdd}", "a: <1>", "1a: \"s\"", "<a,b: 1>"];
        go(amid("a reference among many values", big, "/dts-v1/; / { a: a { }; p = ", &["<1>", "&a", "&{/1a}", "<&1>"], &refs, ", ", "; };"));
        let long: Vec<String> = name_space(1);
        let exts = ["dtsi", "dtso", "overlay", "txt"];
        eng.par("other file types", (PLACES.len() * long.len() * 4) as u64, |w, i| {
            let i = i as usize;
            let (_, pre, post) = PLACES[i % PLACES.len()];
            let j = i / PLACES.len();
            let c = Case::new("types", vec![exts[j % 4].into(), format!("{pre}{}{post}", long[j / 4])]);
            w.case(c, |w, c| self.judge(w, c))
        });
    }
}

pub struct Placement;
const PLACE_KINDS: &[&str] = &[
    "non_dts_v1", "misplaced_dts_header", "duplicate_directive", "property_after_node", "incorrect_directive", "parser_error",
    "path_cannot_be_empty", "non_string_in_compatible",
];
const P_ELEMS: &[&str] = &[
    "/dts-v1/;", "/plugin/;", "/memreserve/ 1 2;", "/include/ \"e.dtsi\"", "/include/ \"e.dtsi\";", "/ {};", "/ { l: n {}; p; };", "&l {};",
    "&l { k {}; q; };", "/delete-node/ &l;", "/delete-node/ &{};", "/omit-if-no-ref/ &l;", "&{} {};", "/ { compatible = <1>, \"a\"; };",
    "/ { /omit-if-no-ref/ p; };",
];
const P_ITEMS: &[&str] = &[
    "p;", "q = <1>;", "pl: p2 = \"x\";", "pm: p3;", "n {};", "n2 { a {}; b; };", "/omit-if-no-ref/ n3 {};", "/omit-if-no-ref/ o;", "/omit-if-no-ref/ ol: o = <1>;",
    "/delete-node/ n;", "/delete-property/ p;", "compatible;", "compatible = \"a\", \"b\";", "compatible = <1>;", "c: compatible = \"a\", [00], &l, \"b\", <>;",
    "p = &{};", "p = <&{} 1 &{}>;", "Compatible = <1>;", "compatible = a: \"s\", b: <1>;", "compatibles = <1>;", "n4 { compatible = <&l>; m {}; x = \"\"; };",
];
/// More forms of the same directives and items
const P_ELEMS2: &[&str] = &[
    "/include/ \"\";", "/include/ \"\"", "/include/ \"missing.dtsi\";", "/include/ \"./e.dtsi\"\n;", "/include/ \"e.dtsi\" /*;*/ ;", "/include/ \"doc.dts\";", "/include/ \"a;b\";",
    "/include/ \"é\";", "/dts-v1/ ;", "/dts-v1/\n;", "/plugin/ ;", "/memreserve/ 0 0;", "/delete-node/ &{/};", "/delete-node/ &{/l};", "/delete-node/ &nope;", "/omit-if-no-ref/ &{};",
    "/omit-if-no-ref/ &{/l};", "&{/} {};", "&{/l} { p; k {}; };", "&{/l} { k {}; p; };", "&{} { k {}; p = &{}; };", "&l { compatible = &l; };", "&nope { compatible = [00]; k {}; x; };",
    "/ { k {}; k {}; p; q; };", "/ { a { b {}; c; }; d; };", "/ { /omit-if-no-ref/ l: p = <1>; };", "/ { /omit-if-no-ref/ k {}; p; };", "/ { l: k {}; l: p; };", "/ { __symbols__ {}; p; };",
    "/ { __symbols__ { compatible = <1>; }; };", "/ { k {}; /delete-node/ k; p; };", "/ { k {}; /delete-property/ p; p; };", "/ { p = /bits/ 8 <&{}>; };", "/ { compatible = /bits/ 8 <1>; };",
    "/ { compatible = \"\", (1), \"a\"; };", "/ { compatible = <>, [], \"a\" x:; };", "/ { n@1 {}; n@2 { p; }; p; };", "/ { 1n {}; 1p; };", "/ { k {}; compatible = <1>; /omit-if-no-ref/ compatible = <1>; };",
];
const P_ITEMS2: &[&str] = &[
    "1 {};", "1;", "1 = <1>;", "n@1 {};", "l: n {};", "l: n@1 { p; };", "/omit-if-no-ref/ l: n {};", "/omit-if-no-ref/ n@1 { /omit-if-no-ref/ p; };", "/omit-if-no-ref/ 1p;", "/omit-if-no-ref/ #p = <1>;",
    "__symbols__ {};", "__symbols__ { p; n {}; q; };", "/delete-node/ n@1;", "/delete-node/ 1n;", "/delete-property/ compatible;", "/delete-property/ #a;", "compatible = \"\";", "compatible = [];", "compatible = <>;",
    "compatible = &{};", "compatible = <&{}>, &l, \"x\";", "compatible = /bits/ 8 <1>;", "compatible = l: \"a\" m:, [00];", "compatible {};", "compatible { compatible = <1>; };", "l: compatible;", "comPatible = <1>;",
    "#compatible = <1>;", "compatible, = <1>;", "compatible-x = <1>;", "p = \"compatible\", <1>;", "p = \"\", <>, [], &l;", "p = /bits/ 16 <&{} 1>;", "p = l: &{} m:;", "p = <(1 + 2)>, &{};", "model = <1>;", "phandle = \"a\";",
    "reg = <1 2>;", "status;", "x { y { z {}; w; }; v; };",
];

impl Check for Placement {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        judge_kinds(w, &c.s[0], &c.s[1], PLACE_KINDS)
    }
    fn explore(&self, eng: &Eng) {
        let exts = ["dts", "dtsi", "dtso", "overlay", "txt"];
        let k = eng.tier(4, 5);
        let n = seq_count(P_ELEMS.len() as u64, k);
        for ext in exts {
            eng.par(&format!("element sequences in .{ext}"), n, |w, i| {
                let t: Vec<&str> = seq(i, P_ELEMS.len() as u64, k).into_iter().map(|k| P_ELEMS[k]).collect();
                w.case(Case::new("elements", vec![ext.into(), t.join("\n")]), |w, c| self.judge(w, c))
            });
        }
        // more forms
        let all: Vec<&'static str> = P_ELEMS.iter().chain(P_ELEMS2).copied().collect();
        let (m, k) = (all.len() as u64, eng.tier(2, 3));
        for (ext, pre) in [("dts", ""), ("dts", "/dts-v1/;"), ("dts", "/ { };"), ("dts", "/include/ \"e.dtsi\""), ("dtsi", ""), ("dtso", ""), ("txt", "/dts-v1/;")] {
            let (all, k) = (&all, if ext == "dts" && pre.is_empty() { k + eng.tier(1, 0) } else { k });
            eng.par(&format!("more forms of elements after {pre:?} in .{ext}"), seq_count(m, k), |w, i| {
                let t: Vec<&str> = seq(i, m, k).into_iter().map(|k| all[k]).collect();
                w.case(Case::new("elements", vec![ext.into(), format!("{pre}{}", t.join("\n"))]), |w, c| self.judge(w, c))
            });
        }
        let all: Vec<&'static str> = P_ITEMS.iter().chain(P_ITEMS2).copied().collect();
        let (m, k) = (all.len() as u64, eng.tier(2, 3));
        for (pre, post) in [("/dts-v1/;/ { ", " };"), ("/dts-v1/;/ { n {}; ", " };"), ("/dts-v1/;/{ l: n {}; };&l { ", " };"), ("&nope { a { ", " }; b; };"), ("/dts-v1/;/{ a { b { p; ", " }; c {}; }; };")] {
            let (all, k) = (&all, if pre.starts_with("/dts-v1/;/ { n") { k + eng.tier(1, 0) } else { k });
            eng.par(&format!("more forms of items within {pre}"), seq_count(m, k), |w, i| {
                let t: Vec<&str> = seq(i, m, k).into_iter().map(|k| all[k]).collect();
                w.case(Case::new("items", vec!["dts".into(), format!("{pre}{}{post}", t.join(" "))]), |w, c| self.judge(w, c))
            });
        }
        // one among many
        let go = |ext: &str, s: Space| eng.par(&format!("{} in .{ext}", s.name), s.n, |w, i| w.case(Case::new("among", vec![ext.into(), s.get(i)]), |w, c| self.judge(w, c)));
        let big = eng.tier(129, 1001);
        for ext in ["dts", "dtsi"] {
            go(ext, amid("one among many elements", big, "", P_ELEMS, P_ELEMS, "\n", ""));
            go(ext, amid("one among many elements after a header", big, "/dts-v1/;", P_ELEMS, P_ELEMS, "\n", ""));
        }
        go("dts", amid("one among many items", big, "/dts-v1/; / { ", P_ITEMS, P_ITEMS, "\n", " };"));
        go("dts", amid("one among many items of an extension", 65, "/dts-v1/; / { l: m { }; }; &l { z { ", P_ITEMS, P_ITEMS, " ", " }; };"));
        let vals = ["\"a\"", "<1>", "[00]", "&l", "&{/l}", "<>", "\"\"", "a: \"b\"", "<&{}>", "/bits/ 8 <1>", "(1)"];
        let vals = &vals[..vals.len() - 1];
        for name in ["compatible", "p", "l: compatible"] {
            go("dts", amid(&format!("one among many values of {name}"), eng.tier(257, 1001), &format!("/dts-v1/; / {{ l: l {{ }}; {name} = "), vals, vals, ", ", "; };"));
        }
        let k = eng.tier(3, 5);
        for (pre, post) in [("/dts-v1/;\n/ { ", " };"), ("/dts-v1/;/{ l: n {}; };&l { ", " };"), ("/dts-v1/;/{ a { b { ", " }; }; };"), ("/dts-v1/;/{l: n { ", "}; z; };")] {
            let k = if pre.starts_with("/dts-v1/;\n") { k + eng.tier(1, 0) } else { k };
            let n = seq_count(P_ITEMS.len() as u64, k);
            eng.par(&format!("item sequences within {pre}"), n, |w, i| {
                let t: Vec<&str> = seq(i, P_ITEMS.len() as u64, k).into_iter().map(|k| P_ITEMS[k]).collect();
                let text = format!("{pre}{}{post}", t.join("\n\t"));
                w.case(Case::new("items", vec!["dts".into(), text]), |w, c| self.judge(w, c))
            });
        }
    }
}

pub struct Literals;
impl Check for Literals {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        judge(Aspect::All, &w.dir.clone(), &c.s[0], &c.s[1])
    }
    fn explore(&self, eng: &Eng) {
        let go = |name: &str, s: Space| {
            eng.par(name, s.n, |w, i| w.case(Case::new("literal", vec!["dts".into(), s.get(i)]), |w, c| self.judge(w, c)));
        };
        let frames: &'static [(&'static str, &'static str, &'static str)] = &[
            ("cells", "/dts-v1/;/{p=<", ">;};"),
            ("second cell", "/dts-v1/;/{p=<3 ", " 5>;};"),
            ("8 bit cells", "/dts-v1/;/{p=/bits/ 8 <", ">;};"),
            ("16 bit cells", "/dts-v1/;/{p=/bits/ 16 <", ">;};"),
            ("32 bit cells", "/dts-v1/;/{p=/bits/ 32 <", ">;};"),
            ("64 bit cells", "/dts-v1/;/{p=/bits/ 64 <", ">;};"),
            ("width of cells", "/dts-v1/;/{p=/bits/ ", " <1 0xff 255>;};"),
            ("reserved address", "/dts-v1/;/memreserve/ ", " 0x1;"),
            ("reserved size", "/dts-v1/;/memreserve/ 07 ", ";"),
        ];
        const AL: &[&str] = &["0", "1", "7", "8", "9", "a", "f", "g", "F", "x", "X", "u", "L", "_", "+", "-", "b", "é", " "];
        // boundary values in all notations
        let mut vals: std::collections::BTreeSet<u128> = (0..=300).collect();
        for k in 0..70u32 {
            let v = 1u128 << k;
            vals.extend([v - 1, v, v + 1, 3 * v, v + v / 2 + 1]);
        }
        for k in 0..22u32 {
            let v = 10u128.pow(k);
            vals.extend([v - 1, v, v + 1]);
        }
        for k in 0..24u32 {
            let v = 8u128.pow(k);
            vals.extend([v - 1, v, v + 1]);
        }
        for b in 0..16u32 {
            vals.insert((0..16).fold(0u128, |a, k| a << 4 | ((b + k) % 16) as u128));
        }
        let mut lits = vec![];
        for v in &vals {
            lits.push(format!("{v}"));
            lits.push(format!("0x{v:x}"));
            lits.push(format!("0x{v:X}"));
            lits.push(format!("0{v:o}"));
            lits.push(format!("00{v:o}"));
            lits.push(format!("0x00{v:x}"));
            lits.push(format!("0x{v:0>24x}"));
            lits.push(format!("{v}a"));
            lits.push(format!("0x{v:x}g"));
            lits.push(format!("0{v:o}8"));
        }
        for (what, pre, post) in frames {
            let len = eng.tier(4, 5);
            go(&format!("spellings: {what}"), strings("", AL, len, pre, post));
            go(&format!("boundary values: {what}"), Space::list("", lits.clone()).wrap("", pre, post));
            let top = eng.tier(70_000u64, 1_000_000);
            go(
                &format!("all small values: {what}"),
                Space::new("", top * 3, move |i| {
                    let v = i / 3;
                    match i % 3 {
                        0 => format!("{pre}{v}{post}"),
                        1 => format!("{pre}0x{v:x}{post}"),
                        _ => format!("{pre}0{v:o}{post}"),
                    }
                }),
            );
        }
        // one among many
        let big = eng.tier(129, 1001);
        let lit = ["1", "0x1F", "017", "4294967295", "4294967296", "0x100000000", "040000000000", "08", "0x", "0xg", "1a", "255", "256", "0x10000", "65535", "18446744073709551615", "18446744073709551616", "&l", "(1 + 1)", "l:"];
        for (what, pre, post) in frames.iter().filter(|f| f.0.ends_with("cells") && !f.0.starts_with("width")) {
            go(&format!("one among many: {what}"), amid("", big, pre, &["1", "0x1F", "&l", "(1)", "l:", "99999999999999999999", "0"], &lit, " ", post));
        }
        let bytes = ["00", "aBcd", "1", "123", "0g", "gg", "ff", "0x01", "l:", "é"];
        go("one among many groups of bytes", amid("", big, "/dts-v1/;/{p=[", &["00", "aB12", "1", "zz"], &bytes, " ", "];};"));
        go("one among many bytes", amid("", big, "/dts-v1/;/{p=[", &["00", "aB", "1", "zz"], &["00", "1", "fF", "g", "aB"], "", "];};"));
        let strs = ["a", "\\\\", "\\\"", "é", "𝄞", "\n", "//", "\\n", "\r\n", "\t", "*/", ";"];
        go("one among many characters", amid("", eng.tier(257, 1001), "/dts-v1/;/{p=\"", &strs, &strs, "", "\";};"));
        go("one among many reservations", amid("", big, "/dts-v1/;\n", &["/memreserve/ 1 0x2;", "/memreserve/ 08 1;"], &["/memreserve/ 018446744073709551615 1;", "/memreserve/ 18446744073709551615 02;", "/memreserve/ 1 18446744073709551616;", "/memreserve/ 0x 1g;"], "\n", ""));
        const BY: &[&str] = &["0", "1", "9", "a", "f", "A", "F", "g", "x", " ", "_", "+", "\n", "/*0*/", "G", "z"];
        go("byte strings", strings("", BY, eng.tier(5, 6), "/dts-v1/;/{p=[", "];};"));
        go("bytes", Space::new("", 65536, |i| format!("/dts-v1/;/{{p=[{:02x}{:02X} {:02X}];}};", i & 255, i >> 8, i & 255)));
        const ST: &[&str] = &["\\", "\"", "a", "n", "é", "€", "𝄞", "\n", "\t", "//", "/*", " ", "\\\\", "\\\"", "\r\n", "0"];
        go("strings", strings("", ST, eng.tier(5, 6), "/dts-v1/;/{p=\"", "\";};"));
        go("two strings", strings("", &["\\", "\"", "a", "\\\"", "\\\\", ", ", "é"], eng.tier(6, 7), "/dts-v1/;/{p=\"", "\";};"));
        // every unit of the basic plane and beyond, in strings and comments
        let chars: Vec<char> = (1u32..0x3000)
            .chain((0x3000..0x11_0000).step_by(eng.tier(257, 1)))
            .filter_map(char::from_u32)
            .filter(|c| !matches!(c, '"' | '\\' | '\r'))
            .collect();
        let chars2 = chars.clone();
        go("characters of strings", Space::new("", chars.len() as u64, move |i| format!("/dts-v1/;/{{p=\"{0}x{0}\", <1>;}};", chars[i as usize])));
        go("characters of comments", Space::new("", chars2.len() as u64, move |i| format!("/dts-v1/;/{{/*{0}*/p=<1>; }};", chars2[i as usize])));
    }
}
