//! Bounded document spaces, enumerated completely by index.
use std::sync::Arc;

#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub n: u64,
    pub f: Arc<dyn Fn(u64) -> String + Send + Sync>,
}

impl Space {
    pub fn new(name: &str, n: u64, f: impl Fn(u64) -> String + Send + Sync + 'static) -> Space {
        Space { name: name.to_string(), n, f: Arc::new(f) }
    }
    pub fn get(&self, i: u64) -> String {
        (self.f)(i)
    }
    pub fn list(name: &str, v: Vec<String>) -> Space {
        Space::new(name, v.len() as u64, move |i| v[i as usize].clone())
    }
    /// the documents of a space within other text
    pub fn wrap(self, name: &str, pre: &str, post: &str) -> Space {
        let (pre, post) = (pre.to_string(), post.to_string());
        Space::new(name, self.n, move |i| format!("{pre}{}{post}", self.get(i)))
    }
    pub fn map(self, name: &str, g: impl Fn(String) -> String + Send + Sync + 'static) -> Space {
        Space::new(name, self.n, move |i| g(self.get(i)))
    }
}

pub fn pow(a: u64, k: u32) -> u64 {
    a.pow(k)
}

/// The `i`th sequence over `n` symbols with at most `max` elements
pub fn seq(mut i: u64, n: u64, max: u32) -> Vec<usize> {
    let mut len = 0;
    while len <= max {
        let k = n.pow(len);
        if i < k {
            break;
        }
        i -= k;
        len += 1;
    }
    let mut out = vec![0; len as usize];
    for x in out.iter_mut().rev() {
        *x = (i % n) as usize;
        i /= n;
    }
    out
}

pub fn seq_count(n: u64, max: u32) -> u64 {
    (0..=max).map(|k| n.pow(k)).sum()
}

/// Two tokens that would fuse into a different token when written without a separator
fn fuses(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else { return false };
    let w = |c: char| c.is_ascii_alphanumeric() || ",._+?#-@&".contains(c);
    (w(x) && (w(y) || y == ':')) || (x == '&' && y == '{') || x == '/' || (x == '\\') || a.starts_with("//") || b.starts_with('@')
}

pub fn join_tight(toks: &[&str]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && fuses(toks[i - 1], t) {
            s.push(' ');
        }
        s.push_str(t);
    }
    s
}

/// All sequences of at most `max` tokens, written with spaces, and without where possible
pub fn token_seqs(name: &str, toks: &[&'static str], max: u32, pre: &'static str, post: &'static str) -> Space {
    let toks: Vec<&'static str> = toks.to_vec();
    let n = seq_count(toks.len() as u64, max);
    Space::new(name, 2 * n, move |i| {
        let ts: Vec<&str> = seq(i / 2, toks.len() as u64, max).into_iter().map(|k| toks[k]).collect();
        let body = if i % 2 == 0 { ts.join(" ") } else { join_tight(&ts) };
        format!("{pre}{body}{post}")
    })
}

/// All strings of at most `max` of the given pieces, simply concatenated
pub fn strings(name: &str, pieces: &[&'static str], max: u32, pre: &'static str, post: &'static str) -> Space {
    let toks: Vec<&'static str> = pieces.to_vec();
    let n = seq_count(toks.len() as u64, max);
    Space::new(name, n, move |i| {
        let mut s = pre.to_string();
        for k in seq(i, toks.len() as u64, max) {
            s.push_str(toks[k]);
        }
        s.push_str(post);
        s
    })
}

pub const TOP: &[&str] = &[
    "/dts-v1/", "/plugin/", "/memreserve/", "/include/", "/delete-node/", "/delete-property/", "/omit-if-no-ref/",
    "/bits/", "/foo/", "/", "{", "}", ";", "=", ",", "&l", "&{/n}", "n", "l:", "\"e.dtsi\"", "1", "0x2", "<", ">", "&", "{};",
];
pub const BODY: &[&str] = &[
    "n", "p", "n@1", "l:", "{", "}", ";", "=", "<", ">", "[", "]", "1", "12", "ab", "\"s\"", ",", "&l", "&{/n}",
    "/delete-node/", "/delete-property/", "/omit-if-no-ref/", "/bits/", "@", ":", "/", "é", "#a", "{};", "=<1>;",
];
pub const VALUE: &[&str] = &[
    "\"s\"", "<", ">", "[", "]", "(", ")", ",", "1", "0x2", "ab", "&l", "&{/n}", "v:", "/bits/", "8", ";", "<3>", "\"", "+", "=", "}",
];
pub const CELL: &[&str] =
    &["1", "0", "0x", "f", "8", "&l", "&{/n}", "&", "(", ")", "v:", ",", ";", ">", "<", "\"s\"", "+", "-", "é", "'", "_", " "];
pub const BYTE: &[&str] = &["0", "1", "a", "f", "g", "F", "v:", ",", "]", "[", " ", "&l", "\"s\"", "0x", "+", ";", "é", "-"];

pub const DEFS: &str = "/dts-v1/;/{l:n{};};";

pub const CHARS: &[&str] = &[
    "/", "*", "\"", "&", "{", "}", "<", ">", "(", ")", "[", "]", ";", "=", ",", ":", "@", "\\", "\n", " ", "a", "1", ".",
    "é", "#", "-", "_",
];

pub const VALUES: &[&str] = &[
    "\"s\"", "\"\"", "\"a\\\"b\\\\\"", "\"é€𝄞\"", "\"//x/*y*/;\"", "\"a\nb\"", "<>", "<0>", "<1 2>", "<0x1f 010 4294967295>", "<&l>",
    "<&{/n}>", "<&l 1 &{/n/m@2} 2>", "<(1+2)>", "<1 (2 * (3 - 1)) 4>", "<v0: 1>", "<1 v1:>", "<1 v2: 2>", "<1&l>", "[]", "[00]",
    "[12aB]", "[12 ab Cd]", "[v3: 12]", "[12 v4:]", "&l", "&{/n}", "&{/n/m@2}", "&{/}", "/bits/ 8 <1 255>", "/bits/ 16 <0xffff>", "/bits/ 32 <7>",
    "/bits/ 64 <0xffffffffffffffff>", "/bits/ 8 <>", "v5: \"s\"", "\"s\" v6:", "v7: <1> v8:", "&_u",
];

pub const ITEMS: &[&str] = &[
    "p;", "p = <1>;", "q = \"s\", <&l>;", "pl: p = [12];", "pl2: q;", "#a-cells = <1>;", "a,b.c_d+e?f = \"x\";", "1a;", "_p;", "compatible = \"a\", \"b\";",
    "/delete-property/ p;", "/delete-property/ #a-cells;", "n {};", "n@1 { };", "ln: n {};", "ln2: a,b-c.d+e_f@1,0 {};", "/omit-if-no-ref/ n {};",
    "/omit-if-no-ref/ ln3: n {};", "n { p = <2>; };", "n { m { k { p; }; }; };", "n { l9: m@2 { p; }; q {}; };", "/delete-node/ n;", "/delete-node/ n@1;",
    "__symbols__ { p = \"/n\"; };",
];

pub const ELEMS: &[&str] = &[
    "/dts-v1/;", "/plugin/;", "/memreserve/ 0x10 020;", "/include/ \"e.dtsi\"", "/ {};", "/ { p = <1>; n { q; }; };", "/ { l: n { }; };", "&l {};",
    "&l { p = &l; m {}; };", "&{/n} {};", "&{/n} { x: y { p; }; };", "/delete-node/ &l;", "/delete-node/ &{/n};", "/omit-if-no-ref/ &l;",
    "/ { /omit-if-no-ref/ l2: k {}; /delete-node/ z; };",
];

pub const PRELUDE: &str = "/dts-v1/;\n/ { l: n { m@2 {}; }; _u: u {}; };\n";

/// Well-formed documents: all sequences of values, items and elements
pub fn well_formed(vals: u32, items: u32, elems: u32) -> Vec<Space> {
    let mut out = vec![];
    let v = Space::new("values", seq_count(VALUES.len() as u64, vals) - 1, move |i| {
        let ts: Vec<&str> = seq(i + 1, VALUES.len() as u64, vals).into_iter().map(|k| VALUES[k]).collect();
        format!("{PRELUDE}/ {{ p = {}; q; }};", ts.join(", "))
    });
    out.push(v);
    for (k, (pre, post)) in
        [("/ { ", " };"), ("/ { k { ", " }; };"), ("&l { ", " };"), ("/ { a { b { ", " }; c {}; }; };"), ("&{/n} { z@3 { ", " }; };")]
            .into_iter()
            .enumerate()
    {
        let max = if k == 0 { items } else { items - 1 };
        out.push(Space::new(&format!("items within {pre}"), seq_count(ITEMS.len() as u64, max), move |i| {
            let ts: Vec<&str> = seq(i, ITEMS.len() as u64, max).into_iter().map(|k| ITEMS[k]).collect();
            format!("{PRELUDE}{pre}{}{post}", ts.join(" "))
        }));
    }
    out.push(Space::new("elements", 2 * seq_count(ELEMS.len() as u64, elems), move |i| {
        let ts: Vec<&str> = seq(i / 2, ELEMS.len() as u64, elems).into_iter().map(|k| ELEMS[k]).collect();
        format!("{}{}", if i % 2 == 0 { PRELUDE } else { "" }, ts.join("\n"))
    }));
    out
}

pub const NODE_NAMES: &[&str] = &[
    "n", "N", "nn", "n@1", "n@1F", "n@1f", "n@0x1f", "n@01", "n@001", "n@10", "n@100", "n@0", "n@00", "n@1,0", "n@1,00", "n@1.0", "n@f,F", "n@", "N@1", "n.1", "n-1",
    "n_1", "n+1", "n,1", "1n", "x", "k", "m@80000000", "m@80000001", "m@180000000", "m@ffffffffffffffff", "m@FFFFFFFFFFFFFFFF", "abcdefghijklmnopqrstuvwxyz01234",
    "abcdefghijklmnopqrstuvwxyz01235", "abcdefghijklmnopqrstuvwxyz0123", "abcdefghijklmnopqrstuvwxyz012345", "n@abcdefghijklmnopqrstuvwxyz01234",
    "n@abcdefghijklmnopqrstuvwxyz01235", "__symbols__", "a-b", "a_b",
];
pub const LABEL_NAMES: &[&str] = &[
    "l", "L", "ll", "l1", "l01", "l_1", "_l", "l_", "_", "abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz01235", "abcdefghijklmnopqrstuvwxyz0123",
    "abcdefghijklmnopqrstuvwxyz012345", "0", "1", "12", "0x1", "0x", "e",
];
const PROPERTY_NAMES: &[&str] = &["p", "P", "#p", "p?", "#cells", "1", "12", "0x1", "a,b", "a.b", "p-q", "p_q", "p+", "-p", ",", "compatible", "Compatible", "#compatible", "reg", "ab"];

/// Any two names of nodes, labels and properties
pub fn names() -> Vec<Space> {
    let n = NODE_NAMES.len() as u64;
    let l = LABEL_NAMES.len() as u64;
    let p = PROPERTY_NAMES.len() as u64;
    vec![
        Space::new("names of two nodes", n * n, move |i| {
            let (a, b) = (NODE_NAMES[(i % n) as usize], NODE_NAMES[(i / n) as usize]);
            format!(
                "/dts-v1/;\n/ {{ a: {a} {{ p; b: k {{ }}; }}; }};\n/ {{ u = &{{/{b}}}, <1 &{{/{b}/k}}>; }};\n&{{/{b}}} {{ q; }};\n/ {{ {b} {{ x {{ }}; }}; }};\n/ {{ v = &{{/{a}/x}}; /delete-node/ {b}; }};\n/delete-node/ &{{/{a}}};"
            )
        }),
        Space::new("names of two labels", l * l, move |i| {
            let (a, b) = (LABEL_NAMES[(i % l) as usize], LABEL_NAMES[(i / l) as usize]);
            format!("/dts-v1/;\n/ {{ {a}: n {{ }}; }};\n/ {{ u = &{b}, <1 &{b}>; }};\n&{b} {{ q; }};\n/ {{ k {{ {b}: p = <1>; }}; }};\n/omit-if-no-ref/ &{b};\n/ {{ v = &{a}, &{b}; }};")
        }),
        Space::new("names of two properties", p * p, move |i| {
            let (a, b) = (PROPERTY_NAMES[(i % p) as usize], PROPERTY_NAMES[(i / p) as usize]);
            format!("/dts-v1/;\n/ {{ {a} = <1>; {b}; l: {a}; m: {b} = \"x\"; /delete-property/ {b}; n {{ {a}; }}; {b} = \"y\"; }};")
        }),
    ]
}

/// Larger well-formed documents: long lists, deep nesting, many lines
pub fn scaled() -> Vec<Space> {
    const N: &[usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 53, 54, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000];
    let mut v = vec![];
    for x in VALUES {
        if x.contains(':') {
            continue;
        }
        for n in N {
            v.push(format!("{PRELUDE}/ {{ p = {}; q; }};", vec![*x; *n].join(", ")));
        }
    }
    for n in N {
        let cells = |f: &dyn Fn(usize) -> String| (0..*n).map(f).collect::<Vec<_>>().join(" ");
        v.push(format!("{PRELUDE}/ {{ p = <{}>; q; }};", cells(&|i| format!("{i}"))));
        v.push(format!("{PRELUDE}/ {{ p = <{}>; q; }};", cells(&|_| "&l".into())));
        v.push(format!("{PRELUDE}/ {{ p = [{}]; q; }};", cells(&|i| format!("{:02x}", i % 256))));
        v.push(format!("{PRELUDE}/ {{ p = [{}]; q; }};", "aB".repeat(*n)));
        v.push(format!("{PRELUDE}/ {{ p = \"{}\"; q; }};", "x;".repeat(*n)));
        v.push(format!("{PRELUDE}/ {{ {} q; }};", cells(&|i| format!("p{i} = <{i}>;\n"))));
        v.push(format!("{PRELUDE}/ {{ {} }};", cells(&|i| format!("n{i} {{ q; }};\n"))));
        v.push(format!("{PRELUDE}/ {{ u = {}; }};\n{}", vec!["&l", "&m0", "&m1"][..(*n).min(3)].join(", "), (0..(*n).max(2)).map(|i| format!("/ {{ m{i}: k{i} {{ }}; }};\n")).collect::<String>()));
        v.push(format!("{PRELUDE}{}/ {{ p = &l; }};", "\n".repeat(*n)));
        v.push(format!("{PRELUDE}{}/ {{ p = &l; }};", "// c\n".repeat(*n)));
        v.push(format!("{PRELUDE}{}/ {{ p = &l; }};", "/* c\n*/ ".repeat(*n)));
        v.push(format!("{PRELUDE}/ {{ p = <{}1{}>; }};", "(".repeat(*n), ")".repeat(*n)));
        for it in ITEMS {
            v.push(format!("{PRELUDE}/ {{ {} }};", vec![*it; *n].join(" ")));
            if *n < 300 {
                v.push(format!("{PRELUDE}&l {{ a {{ {} }}; }};", vec![*it; *n].join("\n")));
            }
        }
        for e in ELEMS {
            v.push(format!("{PRELUDE}{}", vec![*e; *n].join("\n")));
        }
        if *n <= 54 {
            for it in ITEMS {
                v.push(format!("{PRELUDE}/ {{ {} {it} {} }};", "d {".repeat(*n - 1), "};".repeat(*n - 1)));
            }
            v.push(format!("{PRELUDE}&l {{ {} {} }};", "d {".repeat(*n - 1), "};\n".repeat(*n - 1)));
            v.push(format!("{PRELUDE}/ {{ {} {} }};", (0..*n - 1).map(|i| format!("d{i} {{ p; ")).collect::<String>(), "}; e {};".repeat(*n - 1)));
        }
    }
    vec![Space::list("larger documents", v)]
}

pub const COUNTS: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001];

/// One thing before, after or between many others, and many times the same thing
pub fn amid(name: &str, max: usize, pre: &str, fillers: &[&str], xs: &[&str], sep: &str, post: &str) -> Space {
    let counts: Vec<usize> = COUNTS.iter().copied().filter(|n| *n <= max).collect();
    let own = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    let (fillers, xs, pre, sep, post) = (own(fillers), own(xs), pre.to_string(), sep.to_string(), post.to_string());
    let n = counts.len() * (fillers.len() * 3 + 1) * xs.len();
    Space::new(name, n as u64, move |i| {
        let i = i as usize;
        let x = &xs[i % xs.len()];
        let i = i / xs.len();
        let many = |s: &String| vec![s.as_str(); counts[i % counts.len()]].join(&sep);
        let k = i / counts.len();
        let body = if k == 0 {
            many(x)
        } else {
            let f = many(&fillers[(k - 1) / 3]);
            match (k - 1) % 3 {
                0 => format!("{f}{sep}{x}"),
                1 => format!("{x}{sep}{f}"),
                _ => format!("{f}{sep}{x}{sep}{f}"),
            }
        };
        format!("{pre}{body}{post}")
    })
}

/// A mistake (or something unusual) before, after or between many harmless things
pub fn mistakes(max: usize) -> Vec<Space> {
    vec![
        amid(
            "a mistake among many elements",
            max,
            "/dts-v1/;\n/ { l: n { }; };\n",
            &["/ { };", "/ { n { p = <1>; }; };", "/memreserve/ 1 2;", "&l { };", "&{/n} { q; };", "/delete-node/ &{/n/k};", "// c", "/dts-v1/;"],
            &[
                "/ {", "/ { }", "/ { } }", "&", "&l", "&l {", "&l }", "/foo/;", "}", ";", "};", "n { };", "p;", "p = <1>;", "/memreserve/ 1;", "/memreserve/ 1 2", "/memreserve/ 0x 2;", "/include/", "/include/ \"x", "/include/ n",
                "\"", "\"s\"", "/ { p = <1; };", "/ { p = ; };", "/ { = 1; };", "/delete-node/;", "/delete-node/ n;", "/delete-property/ p;", "l:", "l: / { };", "/* x", "&{/n", "&{/n};", "/ { p = [1]; };", "/ { p = <08>; };", "/ { a: };",
                "/ { n@ { }; };", "/", "{ };", "<", "/dts-v1/", "/plugin/", "/omit-if-no-ref/;", "1", "=", "/ { p };", "/ { n { } m { }; };", "/ { \"s\"; };", "é", "#x", "\\",
            ],
            "\n",
            "",
        ),
        amid(
            "a mistake among many items",
            max,
            "/dts-v1/;\n/ { l: k { }; n {",
            &["p = <1>;", "q;", "/delete-property/ r;", "s = \"a\", &l, [00];"],
            &[
                "p = ", "p = ;", "p = <", "p = <1", "p = <1>", "= <1>;", "n {", "n { }", "n }", "l:", "l: ;", "l: l2: p;", "/delete-node/;", "/delete-property/;", "/delete-node/ n", "/delete-property/ &l;", "/omit-if-no-ref/;", "&l { };", "1;",
                "\"s\";", "p = [0];", "p = \"s;", "p == <1>;", "p = <1>,;", ", p;", "@1 { };", "n@ { };", "/bits/ 8 <1>;", "p = /bits/ 7 <1>;", "p = /bits/ <1>;", "p = <0x>;", "p = (1);", "p = <(1>;", "p = <1>>;", "p = [12;", "p = &;", "p = &{/n;",
                "p = 1;", "p = a;", "p q;", ";", "};", "]", ">", "/", "/dts-v1/;", "/foo/;", "é;", "p = <é>;", "n@1 = <1>;", "p { } ;;", "p: ", "/*", "\"",
            ],
            "\n",
            "}; };",
        ),
        amid(
            "a mistake among many values",
            max,
            "/dts-v1/;\n/ { l: n { p = ",
            &["<1>", "\"s\"", "&l", "[00]", "/bits/ 8 <1>", "&{/n}"],
            &["", "<", "<1", ">", "[", "[1]", "[0g]", "]", "(", "(1)", "1", "a", "&", "&{", "&{/n", "&{}", "/bits/", "/bits/ 9 <1>", "/bits/ 8 1", "\"", "<08>", "<1,2>", "<4294967296>", "/bits/ 8 <256>", "v:", "=", "{", "}", "<(1>", "<1)>", "é", "/", "<\"s\">", "<[0]>"],
            ", ",
            "; }; };",
        ),
        amid(
            "a mistake among many cells",
            max,
            "/dts-v1/;\n/ { l: n { p = <",
            &["1", "&l", "(1)", "0xffffffff", "&{/n}", "v: 1"],
            &["0x", "08", "(", ")", "\"s\"", "&", "a", "&{", "&{/n", "4294967296", ";", ",", "<", "(1", "1)", "é", "[0]", "{", "=", "1a", "0xg", "v:", "/", "-1", "99999999999999999999"],
            " ",
            ">; }; };",
        ),
        amid("a mistake among many bytes", max, "/dts-v1/;\n/ { l: n { p = [", &["12", "aB 00", "v: 00"], &["1", "123", "0g", "0x", "&l", "(", "\"s\"", ",", "<1>", "é", ";", "v:", "[", "-", "1 2"], " ", "]; }; };"),
    ]
}

/// Documents far down or far to the right
pub fn far() -> Space {
    const N: [usize; 14] = [254, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 140_000];
    let docs: Vec<String> = SEEDS.iter().map(|s| s.to_string()).chain(
        ["/ { p = <1>; n { q; }; };", "/ { p = <1> n { q; }; };", "/ { 1n { }; p = &no; };", "&l { p = <0xg>; };", "/ { n { }; p; };", "\"", "/ {", "/include/ \"e.dtsi\";", "/* x", "/ { p = <(1>; };"].map(String::from),
    ).collect();
    let mut v = vec![];
    for n in N {
        for gap in [" ", "\n", "\t", "\r\n"] {
            for d in &docs {
                v.push(format!("{}{d}", gap.repeat(n)));
                v.push(format!("/dts-v1/;{}{d}{}", gap.repeat(n), gap.repeat(n)));
            }
        }
        for d in &docs {
            v.push(format!("/dts-v1/;/*{}*/{d}", "é".repeat(n)));
            v.push(format!("/dts-v1/;/ {{ s = \"{}\"; }}; {d}", "𝄞".repeat(n)));
        }
    }
    Space::list("far down and far to the right", v)
}

/// All short texts over tokens, in several surroundings
pub fn token_spaces(deep: u32) -> Vec<Space> {
    let d = deep;
    vec![
        token_seqs("tokens at top level", TOP, d, "", ""),
        token_seqs("tokens after a header", TOP, d, "/dts-v1/;", ""),
        token_seqs("tokens within a node", BODY, d, DEFS_OPEN, "};"),
        token_seqs("tokens within a node that is not closed", BODY, d - 1, DEFS_OPEN, ""),
        token_seqs("tokens within a nested node", BODY, d - 1, "/dts-v1/;/{l:n{};k{", "};};"),
        token_seqs("tokens as value", VALUE, d, "/dts-v1/;/{l:n{};};/{p=", ";};"),
        token_seqs("tokens as last value", VALUE, d - 1, "/dts-v1/;/{l:n{};};/{p=", ""),
        token_seqs("tokens as second value", VALUE, d - 1, "/dts-v1/;/{l:n{};};/{p=<1>,", ";};"),
        strings("text within cells", CELL, d, "/dts-v1/;/{l:n{};};/{p=<", ">;};"),
        strings("text within a byte string", BYTE, d, "/dts-v1/;/{l:n{};};/{p=[", "];};"),
    ]
}
const DEFS_OPEN: &str = "/dts-v1/;/{l:n{};};/{";

/// All short texts over characters, in several surroundings
pub fn char_spaces(deep: u32) -> Vec<Space> {
    let d = deep;
    vec![
        strings("characters at top level", CHARS, d, "", ""),
        strings("characters after a header", CHARS, d, "/dts-v1/;", ""),
        strings("characters within a node", CHARS, d, DEFS_OPEN, "};"),
        strings("characters as value", CHARS, d, "/dts-v1/;/{l:n{};};/{p=", ";};"),
        strings("characters at the end", CHARS, d, "/dts-v1/;/{};", ""),
        strings("characters within a string", &["\\", "\"", "a", "\n", "é", ";", "/", "*", "\r\n", " ", "𝄞"], d + 1, "/dts-v1/;/{p=\"", "\";};"),
        strings("characters within a comment", &["*", "/", "a", "\n", "é", "\"", ";", " "], d + 2, "/dts-v1/;/*", "*/"),
        strings("characters within a path reference", &["/", "n", "@", "1", "}", "{", " ", "é", "_", "\n", ";"], d + 1, "/dts-v1/;/{l:n{};};/{p=&{", "};};"),
        strings("characters after a label or name", &["a", "1", "_", ":", "@", "#", ",", ".", "?", "-", "+", " ", "{", "};", ";", "="], d, "/dts-v1/;/{a", "};"),
    ]
}

/// A coarse split of text into tokens, for edits
pub fn split(text: &str) -> Vec<String> {
    let c: Vec<char> = text.chars().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    let word = |c: char| c.is_ascii_alphanumeric() || ",._+?#-@".contains(c);
    while i < c.len() {
        let a = i;
        let ch = c[i];
        i += 1;
        if ch.is_whitespace() {
            while i < c.len() && c[i].is_whitespace() {
                i += 1;
            }
            continue;
        } else if ch == '"' {
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(c.len());
        } else if ch == '&' && c.get(i) == Some(&'{') {
            while i < c.len() && c[i] != '}' {
                i += 1;
            }
            i = (i + 1).min(c.len());
        } else if ch == '&' {
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else if ch == '/' && c.get(i).is_some_and(|c| c.is_ascii_alphabetic()) {
            while i < c.len() && c[i] != '/' {
                i += 1;
            }
            i = (i + 1).min(c.len());
        } else if word(ch) && ch != ',' {
            while i < c.len() && word(c[i]) && !(c[i] == ',' && c.get(i + 1) == Some(&' ')) {
                i += 1;
            }
            if c.get(i) == Some(&':') {
                i += 1;
            }
        }
        out.push(c[a..i].iter().collect());
    }
    out
}

pub const SEEDS: &[&str] = &[
    "/dts-v1/;\n/plugin/;\n/memreserve/ 0x0 0x10;\n/ { l: n { }; };\n&l { p; };",
    "/dts-v1/; / { compatible = \"a\", \"b\"; #address-cells = <1>; cpus { cpu@0 { reg = <0>; }; }; };",
    "/dts-v1/; / { a: x = a1: <1 &a 0x10 (1 + 2)> a2:, [00 ff], /bits/ 8 <1>; };",
    "/dts-v1/; /include/ \"e.dtsi\" / { l: n@1 { m { }; }; }; &l { q = &l, &{/n@1/m}; }; &{/n@1} { };",
    "/dts-v1/; / { n { }; /delete-node/ n; /delete-property/ p; /omit-if-no-ref/ k: j { }; }; /omit-if-no-ref/ &k;",
    "/dts-v1/; / { l: n { }; }; /delete-node/ &l;",
    "/dts-v1/; / { p = \"s\"; q = <>; r = []; s; };",
    "/dts-v1/;\n/ {\n\tn {\n\t\tm {\n\t\t\tp = <1 2>, <3 4>;\n\t\t};\n\t};\n};",
    "/dts-v1/; / { l: n { }; k { p = &l; }; }; / { r = <&l 1>; };",
    "/dts-v1/; /memreserve/ 1 2; /memreserve/ 0x3 04; / { };",
];

/// All single edits of tokens of the seeds, and all truncations
pub fn edits() -> Vec<Space> {
    let ins: Vec<&'static str> = TOP.iter().chain(BODY).chain(VALUE).copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let mut v = std::collections::BTreeSet::new();
    for s in SEEDS {
        let t = split(s);
        let j = |t: &[String]| t.join(" ");
        for i in 0..=t.len() {
            for x in &ins {
                let mut u = t.clone();
                u.insert(i, x.to_string());
                v.insert(j(&u));
            }
            if i < t.len() {
                let mut u = t.clone();
                u.remove(i);
                v.insert(j(&u));
                for x in &ins {
                    let mut u = t.clone();
                    u[i] = x.to_string();
                    v.insert(j(&u));
                }
                if i + 1 < t.len() {
                    let mut u = t.clone();
                    u.swap(i, i + 1);
                    v.insert(j(&u));
                    let mut u = t.clone();
                    u.drain(i..i + 2);
                    v.insert(j(&u));
                }
            }
        }
        let c: Vec<char> = s.chars().collect();
        for i in 0..=c.len() {
            v.insert(c[..i].iter().collect());
            v.insert(c[i..].iter().collect());
            if i < c.len() {
                let mut d = c.clone();
                d.remove(i);
                v.insert(d.into_iter().collect());
                let mut d = c.clone();
                d[i] = if d[i].is_ascii_lowercase() { d[i].to_ascii_uppercase() } else { d[i].to_ascii_lowercase() };
                v.insert(d.iter().collect());
                v.insert(c.iter().enumerate().flat_map(|(k, x)| if k == i { vec![*x, *x] } else { vec![*x] }).collect());
                for x in CHARS {
                    let mut d: Vec<String> = c.iter().map(|c| c.to_string()).collect();
                    d.insert(i, x.to_string());
                    v.insert(d.concat());
                    d.remove(i + 1);
                    v.insert(d.concat());
                }
            }
        }
    }
    vec![Space::list("single edits of complete documents", v.into_iter().collect())]
}

/// Characters of every kind: all of ASCII, and some beyond it
pub fn any_chars() -> Vec<char> {
    (0..128u8).map(char::from).chain("\u{80}\u{85}\u{a0}éßª\u{300}\u{200b}\u{2028}\u{3000}\u{feff}\u{fffd}€；＝ａ１𝄞\u{e000}\u{10ffff}".chars()).collect()
}

/// Any character anywhere in the complete documents
pub fn any_char_edits() -> Space {
    let chars = any_chars();
    let seeds: Vec<Vec<char>> = SEEDS.iter().map(|s| s.chars().collect()).collect();
    let mut offs = vec![];
    let mut total = 0u64;
    for s in &seeds {
        offs.push(total);
        total += ((s.len() + 1) * chars.len() * 4) as u64;
    }
    Space::new("any character anywhere in complete documents", total, move |i| {
        let w = offs.iter().rposition(|o| *o <= i).unwrap();
        let s = &seeds[w];
        let r = (i - offs[w]) as usize;
        let (mode, x, at) = (r % 4, chars[r / 4 % chars.len()], r / 4 / chars.len());
        let (before, after) = s.split_at(at);
        let mut t: String = before.iter().collect();
        match mode {
            0 => t.push(x),
            1 => t.extend([x, x]),
            2 => t.extend([' ', x, ' ']),
            _ => t.push(x),
        }
        t.extend(&after[if mode == 3 { after.len().min(1) } else { 0 }..]);
        t
    })
}

/// All texts of two characters of any kind, in several surroundings
pub fn any_pairs() -> Vec<Space> {
    let n = any_chars().len() as u64;
    [
        ("/dts-v1/;", ""),
        ("", "/dts-v1/;"),
        ("/dts-v1/;/{l:n{};};/{", "};"),
        ("/dts-v1/;/{l:n{};};/{p", ";};"),
        ("/dts-v1/;/{l:n{};};/{k{}", ";};"),
        ("/dts-v1/;/{l:n{};};/{p=", ";};"),
        ("/dts-v1/;/{l:n{};};/{p=<1", ">;};"),
        ("/dts-v1/;/{l:n{};};/{p=[12", "];};"),
        ("/dts-v1/;/{l:n{};};/{p=&l", ";};"),
        ("/dts-v1/;/{l:n{};};/{p=\"a", "\";};"),
        ("/dts-v1/;/{l:n{};};/{p=&{/n", "};};"),
        ("/dts-v1/;/*", "*/"),
        ("/dts-v1/", ";"),
        ("/dts-v1/;/{};", ""),
    ]
    .into_iter()
    .map(|(pre, post)| {
        let chars = any_chars();
        Space::new(&format!("any two characters between {pre:?} and {post:?}"), n * n, move |i| format!("{pre}{}{}{post}", chars[(i / n) as usize], chars[(i % n) as usize]))
    })
    .collect()
}

/// All pairs of token edits (deletion, duplication, replacement) of the seeds
pub fn double_edits() -> Space {
    let ins: &'static [&'static str] = &["", ";", "}", "{", "n", "<", "\"s\"", "&l", ">", "=", "1", "]", "l:", "/delete-node/", "/omit-if-no-ref/"];
    let seeds: Vec<Vec<String>> = SEEDS.iter().map(|s| split(s)).collect();
    let mut offs = vec![];
    let mut total = 0u64;
    for s in &seeds {
        offs.push(total);
        let k = (s.len() * ins.len() * 2) as u64;
        total += k * k;
    }
    Space::new("pairs of edits of complete documents", total, move |i| {
        let w = offs.iter().rposition(|o| *o <= i).unwrap();
        let t = &seeds[w];
        let k = (t.len() * ins.len() * 2) as u64;
        let r = i - offs[w];
        let mut t: Vec<String> = t.clone();
        for e in [r / k, r % k] {
            let e = e as usize;
            let (pos, x, insert) = (e / 2 / ins.len(), ins[e / 2 % ins.len()], e % 2 == 0);
            if insert {
                t[pos] = format!("{} {x}", t[pos]);
            } else {
                t[pos] = x.to_string();
            }
        }
        t.join(" ")
    })
}
