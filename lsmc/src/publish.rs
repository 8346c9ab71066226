//! C20: the diagnostics that were published last are those of the current contents.
use super::session::*;
use mc::engine::*;
use mc::gen::{seq, seq_count};
use mc::histories::*;
use mc::projects::{cwd_setup, ensure_cwd};
use mc::resolve::{judge_file, World};
use mc::sut::{self, D};
use mc::tree::Sp;
use ginko::dts::Project;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Publish;

static SCHEDULES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// What the client shows, by document
pub type Shown = BTreeMap<PathBuf, Vec<D>>;

fn at(v: &Value) -> (u32, u32) {
    (v["line"].as_u64().unwrap() as u32, v["character"].as_u64().unwrap() as u32)
}

pub fn see(shown: &mut Shown, m: &Value) -> Result<(), String> {
    if m["method"] != json!("textDocument/publishDiagnostics") {
        return Ok(());
    }
    super::protocol::unasked(m)?;
    let p = &m["params"];
    let f = url::Url::parse(p["uri"].as_str().unwrap()).unwrap().to_file_path().unwrap();
    let mut v: Vec<D> = p["diagnostics"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| D {
            kind: d["code"].as_str().unwrap_or("").to_string(),
            sp: Sp::new(at(&d["range"]["start"]), at(&d["range"]["end"])),
            sev: match d["severity"].as_u64() {
                Some(1) => "error",
                Some(2) => "warning",
                Some(3) => "information",
                Some(4) => "hint",
                _ => "none",
            }
            .to_string(),
            msg: d["message"].as_str().unwrap().to_string(),
            file: f.clone(),
        })
        .collect();
    v.sort();
    shown.insert(f, v);
    Ok(())
}

/// What must be shown in the end
struct Goal {
    world: World,
    fresh: Shown,
}

struct Plan {
    msgs: Vec<Value>,
    goal: Goal,
    /// include paths of the initialization, of the command line
    inc: Vec<String>,
    cli: Vec<String>,
}

/// The messages of a scenario. None: no client behaves like that.
/// O: open or edit, D: an edit of two changes, X: close, P: configure the include paths, S: ask for the outline;
/// I, as the first: include paths of the command line
fn plan(root: &std::path::Path, cwd: PathBuf, ops: &[String]) -> Option<Plan> {
    let path = |f: u8| root.join("main").join(name(f));
    let mut open: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut inc: Vec<String> = vec![];
    let mut cli: Vec<String> = vec![];
    let mut first = None;
    // E, as the first: escaped names
    let uri = |p: &Path| if ops.first().is_some_and(|o| o == "E") { escaped_uri(p) } else { uri(p) };
    let mut versions: BTreeMap<PathBuf, i64> = BTreeMap::new();
    let dirs = |s: &str| -> Vec<String> { s.chars().map(|x| root.join(format!("i{x}")).display().to_string()).collect() };
    let mut msgs = vec![];
    for (k, op) in ops.iter().enumerate() {
        let o = op.as_bytes();
        let text = |i: usize| content(o[1], (o[i] - b'0') as usize);
        let mut version = |p: &PathBuf| {
            let v = versions.entry(p.clone()).or_insert(0);
            *v += 1;
            *v
        };
        match o[0] {
            b'O' => {
                let p = path(o[1]);
                let u = uri(&p);
                let t = text_of(o);
                let n = version(&p);
                msgs.push(if open.contains_key(&p) { change(&u, n, &[&t]) } else { super::session::open(&u, n, &t) });
                open.insert(p, t);
            }
            b'D' => {
                let p = path(o[1]);
                open.get(&p)?;
                msgs.push(change(&uri(&p), version(&p), &[text(2), text(3)]));
                open.insert(p, text(3).to_string());
            }
            b'X' => {
                let p = path(o[1]);
                open.remove(&p)?;
                msgs.push(close(&uri(&p)));
            }
            b'S' => {
                let u = uri(&path(o[1]));
                msgs.push(request(k as i64, "textDocument/documentSymbol", json!({"textDocument": {"uri": u}})));
            }
            b'E' => {}
            b'I' => {
                if k > 0 {
                    return None;
                }
                cli = dirs(&op[1..]);
            }
            _ => {
                inc = dirs(&op[1..]);
                // the order of the command line and the settings is not specified; there is nothing in i3
                if !cli.is_empty() && inc.iter().any(|i| !cli.contains(i) && !i.ends_with("i3")) {
                    return None;
                }
                if k == 0 {
                    // from the start
                    first = Some(inc.clone());
                } else {
                    msgs.push(notification("workspace/didChangeConfiguration", json!({"settings": {"includes": inc}})));
                }
            }
        }
    }
    inc.extend(cli.iter().cloned());
    let world = World::new(open.clone(), inc.iter().map(PathBuf::from).collect(), cwd);
    let mut p = Project::default();
    p.set_include_paths(inc);
    for (f, t) in &open {
        sut::open(&mut p, f, t);
    }
    let fresh = world
        .files()
        .filter(|f| {
            let r = world.reach(f);
            !r.contains(*f) && !r.iter().any(|x| world.reach(x).contains(x))
        })
        .map(|f| (f.clone(), sut::diags(&p, f)))
        .collect();
    Some(Plan { msgs, goal: Goal { world, fresh }, inc: first.unwrap_or_default(), cli })
}

impl Goal {
    fn judge(&self, shown: &Shown) -> Result<&'static str, String> {
        let none = vec![];
        for (f, e) in &self.world.done {
            let n = f.file_name().unwrap().to_string_lossy();
            let got = shown.get(f).unwrap_or(&none);
            if let Some(want) = self.fresh.get(f) {
                if got != want {
                    return Err(format!("{n}: shown are {}; the checker reports {}", sut::show(got), sut::show(want)));
                }
            }
            judge_file(e, got).map_err(|m| format!("{n}: {m}"))?;
        }
        Ok(if shown.values().all(|v| v.is_empty()) { "clean" } else { "diagnostics" })
    }
}

impl Check for Publish {
    fn id(&self) -> &'static str {
        "C20"
    }
    /// "history": configuration of the disk, operations; "burst": the same over the wire, all at once;
    /// "schedules": the same, interleavings of up to four concurrent handlers and the client that
    /// deviate at most s[1] times from the first possible step; s[2] messages are dealt with before
    fn judge(&self, w: &mut Worker<'_>, c: &Case) -> Judged {
        ensure_cwd(w);
        let cfg: usize = c.s[0].parse().unwrap();
        let root = on_disk(w, cfg);
        let cwd = w.eng.scratch.join("cwd");
        let skip = if c.sub == "schedules" { 3 } else { 1 };
        let Some(plan) = plan(&root, cwd, &c.s[skip..]) else {
            return undecided(0, "not a history of a client");
        };
        let options = json!({"includes": plan.inc});
        let mut shown = Shown::new();
        match c.sub.as_str() {
            "history" => {
                let mut s = ready_with(&plan.cli, options)?;
                for m in &plan.msgs {
                    for o in s.send(m)? {
                        see(&mut shown, &o)?;
                    }
                }
                ok(plan.msgs.len() as u64, plan.goal.judge(&shown)?)
            }
            "burst" => {
                let args: Vec<&str> = plan.cli.iter().flat_map(|p| ["-i", p.as_str()]).collect();
                let mut s = Wire::new(&args);
                handshake(&mut s, options)?;
                let b: Vec<u8> = plan.msgs.iter().flat_map(frame).collect();
                s.raw(&b)?;
                for o in s.sync(20)? {
                    see(&mut shown, &o)?;
                }
                ok(plan.msgs.len() as u64, plan.goal.judge(&shown)?)
            }
            _ => schedules(&plan, c.s[1].parse().unwrap(), c.s[2].parse().unwrap()),
        }
    }
    fn explore(&self, eng: &Eng) {
        cwd_setup(eng);
        let mut ops: Vec<String> = vec![];
        for (f, n) in [('a', 5), ('b', B.len()), ('c', C.len())] {
            ops.extend((0..n).map(|k| format!("O{f}{k}")));
        }
        ops.extend(["Xa", "Xb", "Xc", "P", "P1", "P2", "P21", "Db21", "Da30", "Dc10"].map(|s| s.to_string()));
        let n = ops.len() as u64;
        for cfg in 0..DISKS.len() {
            let k = match (IN_PROCESS, cfg) {
                (false, _) => 2,
                (_, 0) => 4,
                _ => eng.tier(3, 4),
            };
            eng.par(&format!("histories over disk {cfg}"), seq_count(n, k), |w, i| {
                let mut s = vec![cfg.to_string()];
                s.extend(seq(i, n, k).into_iter().map(|x| ops[x].clone()));
                w.case(Case::new("history", s), |w, c| self.judge(w, c))
            });
        }
        if IN_PROCESS {
            let few = ["Oa0", "Oa1", "Oa4", "Ob0", "Ob1", "Ob4", "Oc1", "Oc2", "Xa", "Xb", "Xc", "P1", "Da30"];
            let n = few.len() as u64;
            let k = eng.tier(5, 6);
            eng.par("longer histories", n.pow(k), |w, mut i| {
                let mut s = vec!["0".to_string()];
                for _ in 0..k {
                    s.push(few[(i % n) as usize].into());
                    i /= n;
                }
                w.case(Case::new("history", s), |w, c| self.judge(w, c))
            });
            for (what, cfg, same) in [("edits that keep the length", "0", SAME_LENGTH), ("documents that include nothing", "1", ALONE)] {
                let n = same.len() as u64;
                let k = eng.tier(4, 5);
                eng.par(what, n.pow(k), |w, mut i| {
                    let mut s = vec![cfg.to_string()];
                    for _ in 0..k {
                        s.push(same[(i % n) as usize].into());
                        i /= n;
                    }
                    w.case(Case::new("history", s), |w, c| self.judge(w, c))
                });
            }
            // unusual names
            let few = ["Oa0", "Oa1", "Oa4", "Ob0", "Ob3", "Ob5", "Xa", "Xb", "P1"];
            let n = few.len() as u64;
            for disk in [0, 1] {
                for (k, odd) in ODD.iter().enumerate() {
                    for escaped in [false, true] {
                        eng.par(&format!("histories in {odd:?}, disk {disk}, escaped {escaped}"), seq_count(n, 2), |w, i| {
                            let mut s = vec![(10 * (k + 1) + disk).to_string()];
                            s.extend(escaped.then(|| "E".to_string()));
                            s.extend(seq(i, n, 2).into_iter().map(|x| few[x].to_string()));
                            w.case(Case::new("history", s), |w, c| self.judge(w, c))
                        });
                    }
                }
            }
            let few = ["Oa0", "Oa0r", "Oa2", "Oa4", "Ob0", "Ob1", "Ob3", "Oc1", "Xa", "Xb", "P1", "Db21"];
            eng.par("many repetitions", pump_count(&few), |w, i| {
                let mut s = vec!["0".to_string()];
                s.extend(pump(&few, i));
                w.case(Case::new("history", s), |w, c| self.judge(w, c))
            });
            self.interleave(eng, &ops);
        }
        // include paths of the command line stay
        for sub in ["history", "burst"] {
            let few = ["Oa4", "Oa0", "Ob5", "Ob0", "Xa", "P", "P1", "P3", "Da04"];
            let n = few.len() as u64;
            let k = match (sub, IN_PROCESS) {
                ("history", true) => eng.tier(4, 5),
                _ => eng.tier(2, 3),
            };
            eng.par(&format!("include paths of the command line: {sub}"), seq_count(n, k), |w, i| {
                let mut s = vec!["0".to_string(), "I1".to_string()];
                s.extend(seq(i, n, k).into_iter().map(|x| few[x].to_string()));
                w.case(Case::new(sub, s), |w, c| self.judge(w, c))
            });
        }
        // the program, which gets everything at once
        let few = ["Oa0", "Oa1", "Ob0", "Ob1", "Oc1", "Xb", "P1", "Db21"];
        let n = few.len() as u64;
        let k = eng.tier(3, 4);
        eng.par("the program: bursts", n.pow(k), |w, mut i| {
            let mut s = vec!["0".to_string()];
            for _ in 0..k {
                s.push(few[(i % n) as usize].into());
                i /= n;
            }
            w.case(Case::new("burst", s), |w, c| self.judge(w, c))
        });
    }
}

impl Publish {
    fn interleave(&self, eng: &Eng, ops: &[String]) {
        let mut all: Vec<&str> = ops.iter().map(|s| s.as_str()).collect();
        all.push("Sa");
        let few = ["Oa0", "Oa1", "Ob0", "Ob1", "Oc1", "Xb", "P1", "Db21", "Sa"];
        let mut plan: Vec<(String, Vec<&str>, u32, &str)> = vec![
            ("2 messages of all kinds, all interleavings".into(), all.clone(), 2, "999"),
            ("3 messages, at most 5 deviations".into(), few.to_vec(), 3, "5"),
        ];
        if eng.tier(false, true) {
            plan.push(("3 messages of all kinds, at most 3 deviations".into(), all.clone(), 3, "3"));
            plan.push(("3 messages, at most 8 deviations".into(), few.to_vec(), 3, "8"));
            plan.push(("4 messages, at most 4 deviations".into(), few.to_vec(), 4, "4"));
        }
        for (name, ops, k, dev) in plan {
            let n = ops.len() as u64;
            for cfg in ["0", "1"] {
                eng.par(&format!("{name}, disk {cfg}"), seq_count(n, k), |w, i| {
                    let mut s = vec![cfg.to_string(), dev.to_string(), "0".to_string()];
                    s.extend(seq(i, n, k).into_iter().map(|x| ops[x].to_string()));
                    w.case(Case::new("schedules", s), |w, c| self.judge(w, c))
                });
            }
        }
        // the last messages of a longer history interleave
        let (k, dev) = eng.tier((2, "999"), (3, "4"));
        let n = few.len() as u64;
        eng.par("the last messages of a history, all interleavings", n.pow(k), |w, mut i| {
            let mut s = vec!["0".to_string(), dev.to_string(), "3".to_string(), "Oc0".to_string(), "Ob0".to_string(), "Oa0".to_string()];
            for _ in 0..k {
                s.push(few[(i % n) as usize].into());
                i /= n;
            }
            w.case(Case::new("schedules", s), |w, c| self.judge(w, c))
        });
        eng.extra("schedules", json!(SCHEDULES.load(std::sync::atomic::Ordering::Relaxed)));
    }
}

#[cfg(not(feature = "inproc"))]
fn schedules(_: &Plan, _: usize, _: usize) -> Judged {
    undecided(0, "not in process")
}

/// Explores the orders in which up to four handlers proceed, new messages arrive and the client
/// takes messages out of the channel. The first `prefix` messages are dealt with before.
#[cfg(feature = "inproc")]
fn schedules(plan: &Plan, deviations: usize, prefix: usize) -> Judged {
    const ACTIVE: usize = 4;
    use super::inproc::*;
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Act {
        Start,
        Step(usize),
        Drain,
    }
    let begun = std::time::Instant::now();
    let _rt = InProc::enter();
    let mut stack: Vec<(usize, usize)> = vec![]; // choice, number of choices
    let mut runs = 0u64;
    let mut ops = 0u64;
    let mut class = "";
    let msgs = &plan.msgs;
    let prefix = prefix.min(msgs.len());
    loop {
        let mut s = InProc::with_paths(plan.cli.clone());
        let mut shown = Shown::new();
        handshake(&mut s, json!({"includes": plan.inc}))?;
        for m in &msgs[..prefix] {
            for o in s.send(m)? {
                see(&mut shown, &o)?;
            }
        }
        let mut next = prefix;
        let mut tasks: Vec<(usize, Task)> = vec![];
        let mut answered = BTreeSet::new();
        let mut depth = 0;
        let mut trace: Vec<Act> = vec![];
        let mut budget = deviations;
        let mut cut = false;
        // the channel may hold something
        let mut maybe = true;
        loop {
            let mut acts = vec![];
            if next < msgs.len() && tasks.len() < ACTIVE {
                acts.push(Act::Start);
            }
            acts.extend((0..tasks.len()).filter(|i| tasks[*i].1.woken()).map(Act::Step));
            if maybe {
                acts.push(Act::Drain);
            }
            if acts.is_empty() {
                if !tasks.is_empty() {
                    return Err(format!("the handlers of {:?} wait forever after {trace:?}", tasks.iter().map(|t| &msgs[t.0]).collect::<Vec<_>>()));
                }
                break;
            }
            let n = acts.len().min(budget + 1);
            let k = if n == 1 {
                0
            } else if depth < stack.len() {
                depth += 1;
                stack[depth - 1].0
            } else {
                stack.push((0, n));
                depth += 1;
                0
            };
            budget -= k;
            let others = acts.len() > 1;
            ops += 1;
            let act = acts[k];
            trace.push(act);
            let mut step = |i: usize, tasks: &mut Vec<(usize, Task)>| -> Result<(), String> {
                if let Some(r) = tasks[i].1.step() {
                    let m = &msgs[tasks[i].0];
                    match r {
                        Ok(Some(v)) if v.get("id") == m.get("id") && v.get("result").is_some() => {
                            answered.insert(tasks[i].0);
                        }
                        Ok(None) if m.get("id").is_none() => {}
                        r => return Err(format!("{m} is answered with {r:?}")),
                    }
                    tasks.remove(i);
                }
                Ok(())
            };
            match act {
                Act::Start => {
                    let t = s.begin(&msgs[next])?;
                    tasks.push((next, t));
                    next += 1;
                    let i = tasks.len() - 1;
                    step(i, &mut tasks)?;
                    maybe = true;
                }
                Act::Step(i) => {
                    step(i, &mut tasks)?;
                    maybe = true;
                }
                Act::Drain => match s.drain() {
                    Some(m) => see(&mut shown, &m)?,
                    None => {
                        maybe = false;
                        // the same as not trying
                        cut = others;
                    }
                },
            }
            if cut {
                break;
            }
        }
        for (k, m) in msgs.iter().enumerate().skip(prefix) {
            if !cut && m.get("id").is_some() && !answered.contains(&k) {
                return Err(format!("{m} is not answered"));
            }
        }
        if !cut {
            class = plan.goal.judge(&shown).map_err(|m| format!("{m}; schedule {trace:?}"))?;
        }
        runs += 1;
        if begun.elapsed().as_secs() >= 15 {
            return undecided(ops, "too many schedules");
        }
        // the next schedule
        while let Some((c, n)) = stack.last_mut() {
            if *c + 1 < *n {
                *c += 1;
                break;
            }
            stack.pop();
        }
        if stack.is_empty() {
            break;
        }
    }
    SCHEDULES.fetch_add(runs, std::sync::atomic::Ordering::Relaxed);
    ok(ops, if class == "clean" { "all schedules: clean" } else { "all schedules: diagnostics" })
}
