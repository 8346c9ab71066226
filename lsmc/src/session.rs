//! Sessions with the server: one message at a time, everything the server sends in return.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const SERVER: &str = "/verif/target/repo/release/ginko_ls";

pub trait Session {
    /// Sends a message and lets the server deal with it.
    fn send(&mut self, v: &Value) -> Result<Vec<Value>, String>;
}

pub fn uri(p: &Path) -> String {
    url::Url::from_file_path(p).unwrap().to_string()
}
/// The same with everything escaped
pub fn escaped_uri(p: &Path) -> String {
    let mut s = "file://".to_string();
    for b in p.to_str().unwrap().bytes() {
        match b {
            b'/' => s.push('/'),
            b => s.push_str(&format!("%{b:02X}")),
        }
    }
    s
}
pub fn request(id: i64, method: &str, params: Value) -> Value {
    let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
    if !params.is_null() {
        v["params"] = params;
    }
    v
}
pub fn notification(method: &str, params: Value) -> Value {
    let mut v = json!({"jsonrpc": "2.0", "method": method});
    if !params.is_null() {
        v["params"] = params;
    }
    v
}
pub fn open(uri: &str, version: i64, text: &str) -> Value {
    notification("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "dts", "version": version, "text": text}}))
}
pub fn change(uri: &str, version: i64, texts: &[&str]) -> Value {
    let c: Vec<Value> = texts.iter().map(|t| json!({"text": t})).collect();
    notification("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": c}))
}
pub fn close(uri: &str) -> Value {
    notification("textDocument/didClose", json!({"textDocument": {"uri": uri}}))
}
pub fn at(id: i64, method: &str, uri: &str, line: u32, col: u32) -> Value {
    request(id, method, json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": col}}))
}

/// A fresh session, in process if possible
pub fn fresh(paths: &[String]) -> Box<dyn Session> {
    #[cfg(feature = "inproc")]
    return Box::new(super::inproc::InProc::with_paths(paths.to_vec()));
    #[cfg(not(feature = "inproc"))]
    return Box::new(Wire::new(&paths.iter().flat_map(|p| ["-i", p.as_str()]).collect::<Vec<_>>()));
}

pub const IN_PROCESS: bool = cfg!(feature = "inproc");

/// A session that is ready to use
pub fn ready(options: Value) -> Result<Box<dyn Session>, String> {
    ready_with(&[], options)
}

/// The same with include paths of the command line
pub fn ready_with(paths: &[String], options: Value) -> Result<Box<dyn Session>, String> {
    let mut s = fresh(paths);
    handshake(s.as_mut(), options)?;
    Ok(s)
}

pub fn handshake(s: &mut dyn Session, options: Value) -> Result<(), String> {
    let out = s.send(&request(-1, "initialize", json!({"capabilities": {}, "initializationOptions": options})))?;
    if out.len() != 1 || out[0].get("result").is_none() {
        return Err(format!("initialize is answered with {out:?}"));
    }
    s.send(&notification("initialized", json!({})))?;
    Ok(())
}

/// The result of a request
pub fn ask(s: &mut dyn Session, v: &Value) -> Result<Value, String> {
    let out = s.send(v)?;
    let r: Vec<&Value> = out.iter().filter(|o| o.get("id") == v.get("id") && o.get("method").is_none()).collect();
    match r.as_slice() {
        [r] if r.get("error").is_none() => Ok(r["result"].clone()),
        _ => Err(format!("{v} is answered with {out:?}")),
    }
}

/// The real program
pub struct Wire {
    child: Child,
    input: Option<ChildStdin>,
    output: BufReader<ChildStdout>,
    sync: i64,
}

impl Wire {
    pub fn new(args: &[&str]) -> Wire {
        let mut child = Command::new(SERVER)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("the server cannot be started");
        let input = child.stdin.take();
        let output = BufReader::new(child.stdout.take().unwrap());
        Wire { child, input, output, sync: 1 << 40 }
    }
    pub fn raw(&mut self, b: &[u8]) -> Result<(), String> {
        self.input.as_mut().unwrap().write_all(b).map_err(|e| format!("the server does not read any more: {e}"))
    }
    pub fn post(&mut self, v: &Value) -> Result<(), String> {
        self.raw(&frame(v))
    }
    pub fn take_input(&mut self) -> ChildStdin {
        self.input.take().unwrap()
    }
    /// the next message of the server, none at the end of its output
    pub fn read(&mut self) -> Result<Option<Value>, String> {
        let mut len = None;
        let mut first = true;
        loop {
            let mut line = String::new();
            let n = self.output.read_line(&mut line).map_err(|e| format!("output cannot be read: {e}"))?;
            if n == 0 {
                return if first { Ok(None) } else { Err("the output ends within a header".into()) };
            }
            first = false;
            let Some(line) = line.strip_suffix("\r\n") else {
                return Err(format!("not a header: {line:?}"));
            };
            if line.is_empty() {
                break;
            }
            match line.split_once(": ") {
                Some((k, v)) if k.eq_ignore_ascii_case("content-length") => len = v.parse::<usize>().ok(),
                Some((k, _)) if k.eq_ignore_ascii_case("content-type") => {}
                _ => return Err(format!("not a header: {line:?}")),
            }
        }
        let Some(len) = len else {
            return Err("a message without a length".into());
        };
        let mut b = vec![0; len];
        self.output.read_exact(&mut b).map_err(|e| format!("a message is cut off: {e}"))?;
        serde_json::from_slice(&b).map(Some).map_err(|e| format!("not a JSON message: {e}"))
    }
    pub fn set_input(&mut self, p: Option<ChildStdin>) {
        self.input = p;
    }
    /// what the server sends while it answers some more requests
    pub fn sync(&mut self, n: usize) -> Result<Vec<Value>, String> {
        let mut out = vec![];
        for _ in 0..n {
            self.sync += 1;
            let id = self.sync;
            self.post(&request(id, "lsmc/sync", json!(null)))?;
            loop {
                match self.read()? {
                    None => return Err("the server ended".into()),
                    Some(o) if o["id"] == json!(id) => break,
                    Some(o) => out.push(o),
                }
            }
        }
        Ok(out)
    }
}

pub fn frame(v: &Value) -> Vec<u8> {
    let t = v.to_string();
    format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes()
}

impl Drop for Wire {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Session for Wire {
    fn send(&mut self, v: &Value) -> Result<Vec<Value>, String> {
        self.post(v)?;
        // the server may still publish after it dealt with the message
        self.sync(12)
    }
}
