//! C19: the server survives every session and answers each request exactly once.
use super::session::*;
use mc::engine::*;
use mc::gen::{seq, seq_count};
use serde_json::{json, Value};

pub struct Protocol;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Life {
    New,
    Ready,
    Down,
    Gone,
}

type V = Result<(), String>;

fn position(v: &Value) -> Option<(u64, u64)> {
    let ok = |x: &Value| x.as_u64().filter(|x| *x <= u32::MAX as u64);
    Some((ok(&v["line"])?, ok(&v["character"])?))
}

/// start and end of a range
pub fn range(v: &Value) -> Result<((u64, u64), (u64, u64)), String> {
    match (position(&v["start"]), position(&v["end"])) {
        (Some(a), Some(b)) if a <= b => Ok((a, b)),
        _ => Err(format!("not a range: {v}")),
    }
}

fn file_uri(v: &Value) -> V {
    let s = v.as_str().ok_or_else(|| format!("not an address: {v}"))?;
    let u = url::Url::parse(s).map_err(|e| format!("not an address: {s}: {e}"))?;
    if u.scheme() != "file" || u.to_file_path().is_err() {
        return Err(format!("not the address of a file: {s}"));
    }
    Ok(())
}

fn keys(v: &Value, must: &[&str], may: &[&str]) -> V {
    let o = v.as_object().ok_or_else(|| format!("not an object: {v}"))?;
    for k in must {
        if !o.contains_key(*k) {
            return Err(format!("{k} is missing: {v}"));
        }
    }
    for k in o.keys() {
        if !must.contains(&k.as_str()) && !may.contains(&k.as_str()) {
            return Err(format!("{k} is not part of the protocol: {v}"));
        }
    }
    Ok(())
}

fn tags(v: &Value) -> V {
    match v {
        Value::Null => Ok(()),
        Value::Array(a) if a.iter().all(|x| matches!(x.as_u64(), Some(1 | 2))) => Ok(()),
        _ => Err(format!("not tags: {v}")),
    }
}

pub fn diagnostic(d: &Value) -> V {
    keys(d, &["range", "message"], &["severity", "code", "codeDescription", "source", "tags", "relatedInformation", "data"])?;
    range(&d["range"])?;
    if d["message"].as_str().is_none_or(|m| m.is_empty()) {
        return Err(format!("no message: {d}"));
    }
    if !d["severity"].is_null() && !matches!(d["severity"].as_u64(), Some(1..=4)) {
        return Err(format!("not a severity: {d}"));
    }
    tags(&d["tags"])
}

pub fn symbol(s: &Value) -> V {
    keys(s, &["name", "kind", "range", "selectionRange"], &["detail", "tags", "deprecated", "children"])?;
    if s["name"].as_str().is_none_or(|m| m.trim().is_empty()) {
        return Err(format!("a symbol without a name: {s}"));
    }
    if !matches!(s["kind"].as_u64(), Some(1..=26)) {
        return Err(format!("not a kind of symbol: {s}"));
    }
    tags(&s["tags"])?;
    let r = range(&s["range"])?;
    let q = range(&s["selectionRange"])?;
    if q.0 < r.0 || q.1 > r.1 {
        return Err(format!("the selection range is not contained in the range: {s}"));
    }
    match &s["children"] {
        Value::Null => Ok(()),
        Value::Array(a) => a.iter().try_for_each(|c| symbol(c)),
        _ => Err(format!("not children: {s}")),
    }
}

/// A result in the form the protocol requires
pub fn result(method: &str, v: &Value) -> V {
    match method {
        "initialize" => {
            keys(v, &["capabilities"], &["serverInfo"])?;
            let c = &v["capabilities"];
            // whole documents are expected, since that is what the server deals with
            let sync = &c["textDocumentSync"];
            let kind = if sync.is_object() { &sync["change"] } else { sync };
            if kind != &json!(1) {
                return Err(format!("documents are not synchronised as a whole: {sync}"));
            }
            for k in ["hoverProvider", "documentSymbolProvider", "definitionProvider"] {
                if !(c[k] == json!(true) || c[k].is_object()) {
                    return Err(format!("{k} is not announced: {c}"));
                }
            }
            Ok(())
        }
        "shutdown" => {
            if v.is_null() {
                Ok(())
            } else {
                Err(format!("shutdown yields {v}"))
            }
        }
        "textDocument/hover" => {
            if v.is_null() {
                return Ok(());
            }
            keys(v, &["contents"], &["range"])?;
            let one = |c: &Value| c.is_string() || c["value"].is_string();
            let c = &v["contents"];
            if !(one(c) || c.as_array().is_some_and(|a| a.iter().all(one))) {
                return Err(format!("not contents: {c}"));
            }
            if !v["range"].is_null() {
                range(&v["range"])?;
            }
            Ok(())
        }
        "textDocument/definition" => {
            let list: Vec<&Value> = match v {
                Value::Null => vec![],
                Value::Array(a) => a.iter().collect(),
                v => vec![v],
            };
            for l in list {
                if l.get("targetUri").is_some() {
                    file_uri(&l["targetUri"])?;
                    range(&l["targetRange"])?;
                    range(&l["targetSelectionRange"])?;
                } else {
                    keys(l, &["uri", "range"], &[])?;
                    file_uri(&l["uri"])?;
                    range(&l["range"])?;
                }
            }
            Ok(())
        }
        "textDocument/documentSymbol" => match v {
            Value::Null => Ok(()),
            Value::Array(a) => a.iter().try_for_each(|s| symbol(s)),
            _ => Err(format!("not symbols: {v}")),
        },
        _ => Ok(()),
    }
}

/// What the server sends on its own account
pub fn unasked(m: &Value) -> V {
    if m["jsonrpc"] != json!("2.0") {
        return Err(format!("not a message: {m}"));
    }
    match m["method"].as_str() {
        Some("textDocument/publishDiagnostics") => {
            keys(&m["params"], &["uri", "diagnostics"], &["version"])?;
            file_uri(&m["params"]["uri"])?;
            let Some(a) = m["params"]["diagnostics"].as_array() else {
                return Err(format!("no diagnostics: {m}"));
            };
            a.iter().try_for_each(diagnostic)
        }
        Some("window/showMessage" | "window/logMessage") => {
            if !matches!(m["params"]["type"].as_u64(), Some(1..=4)) || !m["params"]["message"].is_string() {
                return Err(format!("not a message for the user: {m}"));
            }
            Ok(())
        }
        Some("telemetry/event" | "$/logTrace" | "$/progress") => Ok(()),
        Some(x) if m.get("id").is_some() => {
            if x.is_empty() {
                return Err(format!("not a request: {m}"));
            }
            Ok(())
        }
        _ => Err(format!("the protocol does not know {m}")),
    }
}

fn response(req: &Value, life: Life, r: &Value) -> Result<Life, String> {
    let method = req["method"].as_str().unwrap_or("");
    keys(r, &["jsonrpc", "id"], &["result", "error"])?;
    if r["jsonrpc"] != json!("2.0") {
        return Err(format!("not a response: {r}"));
    }
    let (res, err) = (r.get("result"), r.get("error"));
    if res.is_some() == err.is_some() {
        return Err(format!("neither or both of a result and an error: {r}"));
    }
    if let Some(e) = err {
        if e["code"].as_i64().is_none() || !e["message"].is_string() {
            return Err(format!("not an error: {r}"));
        }
    }
    let code = err.map(|e| e["code"].as_i64().unwrap());
    let known = ["initialize", "shutdown", "textDocument/hover", "textDocument/definition", "textDocument/documentSymbol"];
    if !known.contains(&method) {
        // unknown, or a notification that is sent as a request
        return Ok(life);
    }
    let valid = match method {
        "initialize" => req["params"]["capabilities"].is_object(),
        "shutdown" => true,
        "textDocument/documentSymbol" => url_ok(req),
        _ => url_ok(req) && position(&req["params"]["position"]).is_some(),
    };
    match (life, method) {
        (Life::New, "initialize") if valid => {
            if let Some(v) = res {
                result(method, v)?;
                Ok(Life::Ready)
            } else {
                Err(format!("initialize fails: {r}"))
            }
        }
        (Life::New, "initialize") => Ok(if res.is_some() { Life::Ready } else { Life::New }),
        (Life::New, _) => {
            if code == Some(-32002) {
                Ok(life)
            } else {
                Err(format!("a request before initialize is answered with {r}"))
            }
        }
        (Life::Down, _) | (Life::Ready, "initialize") => {
            if code == Some(-32600) {
                Ok(life)
            } else {
                Err(format!("{method} at this time is answered with {r}"))
            }
        }
        _ if !valid => {
            if err.is_some() {
                Ok(life)
            } else {
                Err(format!("a request with invalid parameters is answered with {r}"))
            }
        }
        _ => match res {
            Some(v) => {
                result(method, v)?;
                Ok(if method == "shutdown" { Life::Down } else { life })
            }
            None => Err(format!("{req} fails: {r}")),
        },
    }
}

fn url_ok(req: &Value) -> bool {
    req["params"]["textDocument"]["uri"].as_str().is_some_and(|u| url::Url::parse(u).is_ok())
}

/// The monitor of a session
pub struct Monitor {
    pub life: Life,
}

impl Monitor {
    /// Checks what the server sends in return for a message.
    pub fn see(&mut self, msg: &Value, out: &[Value]) -> V {
        let wants = msg.get("id").is_some() && msg.get("method").is_some();
        let mut answers = 0;
        for o in out {
            if o.get("method").is_some() {
                if self.life == Life::New {
                    return Err(format!("sent before initialize: {o}"));
                }
                unasked(o)?;
                continue;
            }
            answers += 1;
            if !wants || o.get("id") != msg.get("id") {
                return Err(format!("a response without a request: {o} after {msg}"));
            }
            self.life = response(msg, self.life, o)?;
        }
        if msg["method"] == json!("exit") && msg.get("id").is_none() {
            self.life = Life::Gone;
        }
        if wants && answers != 1 {
            return Err(format!("{msg} is answered {answers} times: {out:?}"));
        }
        Ok(())
    }
}

pub const TEXTS: &[&str] = &[
    "/dts-v1/;\n/ { l: n@1 { p = &l, <&{/n@1} 1>; }; };\n&l { q; };",
    "/ {",
    "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { u = &b, &nowhere; };\n/include/ \"missing.dtsi\"",
    "\"é𝄞",
    "",
    "/include/ \"a.dts\"",
    "/dts-v1/\r\n/ { compatible = <1>; \u{feff} };",
];

/// The messages of a session; @ stands for the directory
fn messages() -> Vec<Value> {
    let (a, b, un) = ("file://@/a.dts", "file://@/b.dtsi", "untitled:Untitled-1");
    let q = |n: i64, m: &str, u: &str, l: u64, c: u64| request(n, m, json!({"textDocument": {"uri": u}, "position": {"line": l, "character": c}}));
    let (hov, def) = ("textDocument/hover", "textDocument/definition");
    let sym = |n: i64, u: &str| request(n, "textDocument/documentSymbol", json!({"textDocument": {"uri": u}}));
    let cfg = |v: Value| notification("workspace/didChangeConfiguration", json!({"settings": v}));
    let mut v = vec![];
    for t in TEXTS {
        v.push(open(a, 1, t));
    }
    v.extend([
        open(b, 1, TEXTS[0]),
        open(b, 1, "/include/ \"a.dts\"\n/ { b: x { }; };"),
        open(un, 1, TEXTS[0]),
        open("file://@/missing/x.dts", 1, TEXTS[2]),
        open("http://example.com/a.dts", 1, TEXTS[0]),
        open("file://@/%FF%20.dts", 1, TEXTS[0]),
        open("file://@/sub", 1, TEXTS[0]),
        open("file:///", 1, "/ {"),
        open("file://host/a.dts", 1, TEXTS[0]),
        change(a, 2, &[TEXTS[2]]),
        change(a, 2, &[TEXTS[1], TEXTS[0]]),
        change(a, 2, &[]),
        notification("textDocument/didChange", json!({"textDocument": {"uri": a, "version": 3}, "contentChanges": [
            {"range": {"start": {"line": 7, "character": 3}, "end": {"line": 1, "character": 0}}, "text": "x"}]})),
        change(b, 2, &["/ { 1x { }; };"]),
        change(un, 2, &[TEXTS[1]]),
        close(a),
        close(b),
        close(un),
        close("file://@/missing/y.dts"),
        notification("textDocument/didSave", json!({"textDocument": {"uri": a}})),
        notification("textDocument/didSave", json!({"textDocument": {"uri": un}, "text": "x"})),
        q(1, def, a, 1, 18),
        q(2, hov, a, 1, 18),
        q(3, hov, a, 1, 0),
        q(4, def, a, u32::MAX as u64, u32::MAX as u64),
        q(5, hov, "file://@/none.dts", 0, 0),
        q(6, def, un, 0, 0),
        q(7, hov, a, 1, 5),
        sym(8, a),
        sym(9, "file://@/none.dts"),
        sym(10, un),
        request(11, hov, json!({"textDocument": {"uri": a}})),
        request(12, def, json!({"textDocument": {"uri": a}, "position": {"line": -1, "character": 0}})),
        request(13, "textDocument/documentSymbol", json!(null)),
        json!({"jsonrpc": "2.0", "id": "a string", "method": hov, "params": {"textDocument": {"uri": b}, "position": {"line": 0, "character": 0}}}),
        json!({"jsonrpc": "2.0", "method": hov, "params": {"textDocument": {"uri": a}, "position": {"line": 0, "character": 0}}}),
        request(14, "textDocument/completion", json!({"textDocument": {"uri": a}, "position": {"line": 0, "character": 0}})),
        request(15, "workspace/nonsense", json!(null)),
        notification("workspace/nonsense", json!({"x": []})),
        notification("$/setTrace", json!({"value": "off"})),
        notification("$/cancelRequest", json!({"id": 1})),
        notification("textDocument/didOpen", json!({"textDocument": 5})),
        json!({"jsonrpc": "2.0", "method": "textDocument/didClose"}),
        json!({"jsonrpc": "2.0", "id": 16, "method": "textDocument/didOpen",
            "params": {"textDocument": {"uri": a, "languageId": "dts", "version": 1, "text": ""}}}),
        cfg(json!(null)),
        cfg(json!({"includes": ["@/sub", "/nowhere", ""]})),
        cfg(json!({"includes": 5})),
        notification("workspace/didChangeConfiguration", json!(null)),
        request(17, "shutdown", json!(null)),
        notification("exit", json!(null)),
    ]);
    v
}

fn starts() -> Vec<Value> {
    let i = |o: Value| request(100, "initialize", o);
    vec![
        i(json!({"capabilities": {}})),
        i(json!({"capabilities": {}, "initializationOptions": {"includes": ["@/sub"]}, "rootUri": "file://@", "processId": null})),
        i(json!({"capabilities": {}, "initializationOptions": {"includes": [1]}})),
        i(json!({"capabilities": {}, "initializationOptions": "text"})),
        i(json!(null)),
        notification("initialized", json!({})),
    ]
}

fn fill(text: &str, dir: &str) -> Value {
    serde_json::from_str(&text.replace('@', "\u{1}").replace("\u{1}/", &format!("{dir}/")).replace("\u{1}\"", &format!("{dir}\"")).replace('\u{1}', "@"))
        .unwrap()
}

impl Check for Protocol {
    fn id(&self) -> &'static str {
        "C19"
    }
    /// s: the messages
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        let dir = w.dir.join("ls");
        if !dir.exists() {
            std::fs::create_dir_all(dir.join("sub")).unwrap();
            std::fs::write(dir.join("b.dtsi"), "/ { b: bb { }; };").unwrap();
            std::fs::write(dir.join("sub/missing.dtsi"), "/ { nowhere: bb { }; p; };").unwrap();
        }
        let d = dir.display().to_string();
        let msgs: Vec<Value> = c.s.iter().map(|t| fill(t, &d)).collect();
        let mut mon = Monitor { life: Life::New };
        let mut n = 0;
        if let Some(how) = c.sub.strip_prefix("wire") {
            return self.wire(how, &msgs);
        }
        let mut s = fresh(&[]);
        for m in &msgs {
            let out = s.send(m)?;
            mon.see(m, &out)?;
            n += 1;
            if mon.life == Life::Gone {
                return ok(n, "exit");
            }
        }
        // it still works
        match mon.life {
            Life::New => {
                let m = fill(&starts()[0].to_string(), &d);
                let out = s.send(&m)?;
                mon.see(&m, &out)?;
            }
            Life::Ready => {}
            _ => return ok(n, "shut down"),
        }
        for (k, m) in probe(&d).iter().enumerate() {
            let out = s.send(m)?;
            mon.see(m, &out)?;
            let good = match k {
                0 => out.iter().any(|o| o["params"]["diagnostics"].as_array().is_some_and(|a| a.len() == 1)),
                1 => out[0]["result"].as_array().is_some_and(|a| a.len() == 1),
                _ => out[0]["result"]["contents"] == json!("z"),
            };
            if !good {
                return Err(format!("the server does not work any more: {m} yields {out:?}"));
            }
        }
        ok(n + 3, if mon.life == Life::Ready { "ready" } else { "other" })
    }
    fn explore(&self, eng: &Eng) {
        let all = messages();
        let st = starts();
        let n = all.len() as u64;
        let t = |v: &Value| v.to_string();
        // after initialize
        let k = if IN_PROCESS { eng.tier(3, 4) } else { eng.tier(1, 2) };
        eng.par("sessions", seq_count(n, k) * st.len().min(2) as u64, |w, i| {
            let ini = (i / seq_count(n, k)) as usize;
            let mut s = vec![t(&st[ini])];
            if ini == 1 {
                // fewer combinations with configured paths
                let v = seq(i % seq_count(n, k), n, k);
                if v.len() > 2 {
                    return;
                }
            }
            s.extend(seq(i % seq_count(n, k), n, k).into_iter().map(|x| t(&all[x])));
            w.case(Case::new("session", s), |w, c| self.judge(w, c));
        });
        // initialize at any time
        let both: Vec<&Value> = st.iter().chain(all.iter()).collect();
        let n = both.len() as u64;
        let k = if IN_PROCESS { 3 } else { 1 };
        eng.par("sessions that start anyhow", seq_count(n, k), |w, i| {
            let s = seq(i, n, k).into_iter().map(|x| t(both[x])).collect();
            w.case(Case::new("session", s), |w, c| self.judge(w, c));
        });
        // the same messages again and again
        if IN_PROCESS {
            let opens: Vec<usize> = (0..all.len()).filter(|k| all[*k]["method"] == json!("textDocument/didOpen")).collect();
            let n = all.len() * all.len();
            let counts: &[usize] = eng.tier(&[40], &[40, 130, 400]);
            eng.par("pairs of messages, repeated", (n * counts.len()) as u64, |w, i| {
                let i = i as usize;
                let (a, b, c) = (i % all.len(), i / all.len() % all.len(), counts[i / n]);
                let mut s = vec![t(&st[0])];
                s.extend((0..c).flat_map(|_| [t(&all[a]), t(&all[b])]));
                w.case(Case::new("session", s), |w, c| self.judge(w, c));
            });
            eng.par("an open document and a message, repeated", (all.len() * opens.len() * 2) as u64, |w, i| {
                let i = i as usize;
                let mut s = vec![t(&st[0]), t(&all[opens[i / 2 % opens.len()]])];
                s.extend((0..[150, 300][i % 2]).map(|_| t(&all[i / 2 / opens.len()])));
                w.case(Case::new("session", s), |w, c| self.judge(w, c));
            });
        }
        // the program itself: one message after the other, all at once, in small pieces
        let stay: Vec<&Value> = all.iter().filter(|m| m["method"] != json!("exit")).collect();
        for (how, k) in [("wire step", eng.tier(1, 2)), ("wire burst", 2), ("wire bytes", eng.tier(1, 2))] {
            let list: Vec<&Value> = if how == "wire step" { all.iter().collect() } else { stay.clone() };
            let n = list.len() as u64;
            eng.par(&format!("the program: {how}"), seq_count(n, k), |w, i| {
                let mut s = vec![t(&st[0]), t(&st[5])];
                s.extend(seq(i, n, k).into_iter().map(|x| t(list[x])));
                w.case(Case::new(how, s), |w, c| self.judge(w, c));
            });
        }
        // long bursts: every rotation of all messages
        let m = all.iter().filter(|m| m["method"] != json!("exit") && m["method"] != json!("shutdown")).collect::<Vec<_>>();
        eng.par("the program: all messages at once", m.len() as u64 * 2, |w, i| {
            let mut s = vec![t(&st[0]), t(&st[5])];
            let (r, rev) = ((i / 2) as usize, i % 2 == 1);
            let mut v: Vec<String> = (0..m.len()).map(|x| t(m[(x + r) % m.len()])).collect();
            if rev {
                v.reverse();
            }
            s.extend(v);
            w.case(Case::new("wire burst", s), |w, c| self.judge(w, c));
        });
        eng.extra("server", json!(if IN_PROCESS { "in process and over the wire" } else { "over the wire only" }));
        eng.assume("Requests whose method starts with $/ and what happens after exit or the end of the input are left to the protocol library.");
    }
}

fn probe(d: &str) -> Vec<Value> {
    let u = format!("file://{d}/probe.dts");
    vec![
        open(&u, 1, "/ { z: n { }; };"),
        request(201, "textDocument/documentSymbol", json!({"textDocument": {"uri": u}})),
        at(202, "textDocument/hover", &u, 0, 4),
    ]
}

impl Protocol {
    fn wire(&self, how: &str, msgs: &[Value]) -> Judged {
        let mut s = Wire::new(&[]);
        let mut mon = Monitor { life: Life::New };
        if how == " step" {
            for m in msgs {
                // after exit nothing is answered any more
                if mon.life == Life::Gone {
                    break;
                }
                s.post(m)?;
                let mut out = vec![];
                if m.get("id").is_some() {
                    loop {
                        match s.read()? {
                            None => return Err(format!("the server ended at {m}")),
                            Some(o) => {
                                let last = o.get("method").is_none();
                                out.push(o);
                                if last {
                                    break;
                                }
                            }
                        }
                    }
                }
                // notifications are published in between
                let (note, resp): (Vec<Value>, Vec<Value>) = out.into_iter().partition(|o| o.get("method").is_some());
                if mon.life != Life::New {
                    note.iter().try_for_each(unasked)?;
                }
                mon.see(m, &resp)?;
            }
            if mon.life != Life::Gone {
                s.sync(1)?.iter().try_for_each(unasked)?;
            }
            return ok(msgs.len() as u64, "program");
        }
        // a client waits for the answer to initialize, then it writes and reads independently
        s.post(&msgs[0])?;
        match s.read()? {
            Some(o) => mon.see(&msgs[0], &[o])?,
            None => return Err("the server ended".into()),
        }
        // no two requests share their id
        let mut msgs = msgs[1..].to_vec();
        for (k, m) in msgs.iter_mut().enumerate() {
            match m.get("id") {
                Some(Value::String(t)) => m["id"] = json!(format!("{t} {k}")),
                Some(_) => m["id"] = json!(k),
                None => {}
            }
        }
        let cancel = msgs.iter().any(|m| m["method"] == json!("$/cancelRequest"));
        let bytes: Vec<u8> = msgs.iter().flat_map(frame).collect();
        let mut pipe = s.take_input();
        let small = how == " bytes";
        let mut want = msgs.iter().filter(|m| m.get("id").is_some()).count();
        let (res, out) = std::thread::scope(|sc| {
            let h = sc.spawn(move || {
                use std::io::Write;
                let r = if small {
                    bytes.chunks(7).all(|b| pipe.write_all(b).and_then(|_| pipe.flush()).is_ok())
                } else {
                    pipe.write_all(&bytes).is_ok()
                };
                // the input stays open until the answers are there
                r.then_some(pipe)
            });
            let mut out = vec![];
            let r = loop {
                if want == 0 {
                    break Ok(());
                }
                match s.read() {
                    Ok(Some(o)) => {
                        want -= (o.get("method").is_none() && want > 0) as usize;
                        out.push(o);
                    }
                    Ok(None) => break Err("the server ended".into()),
                    Err(e) => break Err(e),
                }
            };
            s.set_input(h.join().unwrap());
            (r, out)
        });
        res?;
        let mut out = out;
        // nobody is answered twice
        out.extend(s.sync(3)?);
        // every request before exit is answered once, whatever comes in between
        let mut left: Vec<Value> = vec![];
        for o in out {
            if o.get("method").is_some() {
                unasked(&o)?;
            } else {
                left.push(o);
            }
        }
        for m in &msgs {
            let resp: Vec<Value> = match m.get("id") {
                Some(id) if m.get("method").is_some() => match left.iter().position(|o| o.get("id") == Some(id)) {
                    Some(p) => vec![left.remove(p)],
                    None => vec![],
                },
                _ => vec![],
            };
            if cancel && resp.iter().all(|r| r["error"]["code"] == json!(-32800)) && m.get("id").is_some() {
                continue;
            }
            let life = mon.life;
            mon.see(m, &resp)?;
            if mon.life == Life::Gone {
                mon.life = life;
            }
        }
        if let Some(o) = left.first() {
            return Err(format!("a response without a request: {o}"));
        }
        ok(msgs.len() as u64, "program")
    }
}
