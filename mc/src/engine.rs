//! The exploration engine: parallel exhaustive enumeration of bounded case spaces with crash, hang
//! and memory attribution, known findings, replay files and evidence.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
pub const THREADS: usize = 8;
const SLOT: usize = 1 << 18;
const SHARDS: usize = 64;
pub const HANG_MS: u64 = 20_000;
const RSS_LIMIT_KB: u64 = 12 << 20;

/// One case of an exploration: the name of the sub-exploration and its inputs.
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub sub: String,
    pub s: Vec<String>,
}

impl Case {
    pub fn new(sub: &str, s: Vec<String>) -> Case {
        Case { sub: sub.to_string(), s }
    }
    pub fn json(&self) -> String {
        json!({"sub": self.sub, "s": self.s}).to_string()
    }
    pub fn parse(text: &str) -> Option<Case> {
        let v: Value = serde_json::from_str(text).ok()?;
        Some(Case {
            sub: v["sub"].as_str()?.to_string(),
            s: v["s"].as_array()?.iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect(),
        })
    }
}

/// What judging a case yields.
pub struct Done {
    /// operations executed on the implementation
    pub ops: u64,
    /// the reference model had a definite verdict that was compared
    pub decided: bool,
    /// name of the outcome class (for the vacuity counters)
    pub class: &'static str,
}
pub type Judged = Result<Done, String>;

pub fn ok(ops: u64, class: &'static str) -> Judged {
    Ok(Done { ops, decided: true, class })
}
pub fn undecided(ops: u64, class: &'static str) -> Judged {
    Ok(Done { ops, decided: false, class })
}

pub struct Violation {
    pub case: Case,
    pub what: String,
}

pub struct Eng {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub t0: Instant,
    pub scratch: PathBuf,
    pub cap: Duration,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    states: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    validated: AtomicU64,
    undecided: AtomicU64,
    cases: AtomicU64,
    classes: Mutex<BTreeMap<&'static str, u64>>,
    pub extra: Mutex<Map<String, Value>>,
    samples: Mutex<Vec<Value>>,
    known: Vec<(Case, String)>,
    known_hit: Mutex<BTreeSet<usize>>,
    capped: AtomicBool,
    unconfirmed: AtomicU64,
    pub spaces: Mutex<Vec<Value>>,
    slots: Vec<Slot>,
    pub assumptions: Mutex<Vec<String>>,
}

struct Slot {
    ptr: *mut u8,
    since: AtomicU64,
}
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}

pub struct Worker<'a> {
    pub eng: &'a Eng,
    pub tid: usize,
    pub dir: PathBuf,
    /// anything a check wants to keep per thread
    pub any: Option<Box<dyn std::any::Any>>,
    classes: BTreeMap<&'static str, u64>,
    transitions: u64,
    validated: u64,
    undecided: u64,
    cases: u64,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}

/// `known: property=<id> case=<json> <text>` lines of the known-findings file.
fn load_known(id: &str) -> Vec<(Case, String)> {
    let text = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={id} case=")) else { continue };
        let mut de = serde_json::Deserializer::from_str(rest).into_iter::<Value>();
        if let Some(Ok(v)) = de.next() {
            let off = de.byte_offset();
            if let Some(case) = Case::parse(&v.to_string()) {
                out.push((case, rest[off..].trim().to_string()));
            }
        }
    }
    out
}

fn map_slots(path: &Path) -> Vec<Slot> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    f.set_len((SLOT * (THREADS + 1)) as u64).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOT * (THREADS + 1),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    (0..=THREADS)
        .map(|i| Slot { ptr: unsafe { (p as *mut u8).add(i * SLOT) }, since: AtomicU64::new(0) })
        .collect()
}

pub fn read_slots(path: &Path) -> Vec<Case> {
    let data = std::fs::read(path).unwrap_or_default();
    let mut out = vec![];
    for i in 0..=THREADS {
        let Some(chunk) = data.get(i * SLOT..(i + 1) * SLOT) else { continue };
        let len = u32::from_le_bytes(chunk[..4].try_into().unwrap()) as usize;
        if len == 0 || len > SLOT - 4 {
            continue;
        }
        if let Ok(s) = std::str::from_utf8(&chunk[4..4 + len]) {
            if let Some(case) = Case::parse(s) {
                out.push(case);
            }
        }
    }
    out
}

impl Eng {
    pub fn new(id: &str, scratch: &Path) -> Eng {
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        std::fs::create_dir_all(scratch).unwrap();
        let slots = map_slots(&scratch.join("slots"));
        Eng {
            id: id.to_string(),
            thorough,
            seed,
            t0: Instant::now(),
            scratch: scratch.to_path_buf(),
            cap: Duration::from_secs(if thorough { 800 } else { 420 }),
            violations: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            undecided: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            classes: Mutex::new(BTreeMap::new()),
            extra: Mutex::new(Map::new()),
            samples: Mutex::new(vec![]),
            known: load_known(id),
            known_hit: Mutex::new(BTreeSet::new()),
            capped: AtomicBool::new(false),
            unconfirmed: AtomicU64::new(0),
            spaces: Mutex::new(vec![]),
            slots,
            assumptions: Mutex::new(vec![]),
        }
    }

    /// choose by tier
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn state(&self, h: u64) -> bool {
        self.states[(h % SHARDS as u64) as usize].lock().unwrap().insert(h)
    }

    pub fn extra(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.to_string(), v);
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    pub fn failing(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) >= 8
    }

    pub fn report(&self, case: &Case, what: String) {
        if let Some(i) = self.known.iter().position(|(c, _)| c == case) {
            self.known_hit.lock().unwrap().insert(i);
            return;
        }
        self.nviol.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 50 {
            v.push(Violation { case: case.clone(), what });
        }
    }

    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }

    /// Exhaustively runs `f` for every index below `n`.
    pub fn par<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(&mut Worker<'_>, u64) + Sync,
    {
        let next = AtomicU64::new(0);
        let stop_watch = AtomicBool::new(false);
        let chunk = (n / (THREADS as u64 * 64)).clamp(1, 4096);
        let t = Instant::now();
        let cases0 = self.cases.load(Ordering::Relaxed);
        let cut = AtomicBool::new(false);
        std::thread::scope(|sc| {
            sc.spawn(|| self.watch(&stop_watch));
            let mut hs = vec![];
            for tid in 0..THREADS {
                let next = &next;
                let f = &f;
                let cut = &cut;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(sc, move || {
                            let dir = self.scratch.join(format!("t{tid}"));
                            std::fs::create_dir_all(&dir).unwrap();
                            let mut w = Worker {
                                eng: self,
                                tid,
                                dir,
                                any: None,
                                classes: BTreeMap::new(),
                                transitions: 0,
                                validated: 0,
                                undecided: 0,
                                cases: 0,
                            };
                            'outer: loop {
                                let a = next.fetch_add(chunk, Ordering::Relaxed);
                                if a >= n {
                                    break;
                                }
                                for i in a..(a + chunk).min(n) {
                                    if self.failing() {
                                        cut.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                    if self.t0.elapsed() > self.cap {
                                        self.capped.store(true, Ordering::Relaxed);
                                        cut.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                    f(&mut w, i);
                                }
                            }
                            w.flush();
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                if h.join().is_err() {
                    eprintln!("engine: worker thread panicked outside a case: {}", PANIC.with(|p| p.borrow().clone()));
                    std::process::exit(3);
                }
            }
            stop_watch.store(true, Ordering::Relaxed);
        });
        self.spaces.lock().unwrap().push(json!({
            "name": name,
            "size": n,
            "cases": self.cases.load(Ordering::Relaxed) - cases0,
            "complete": !cut.load(Ordering::Relaxed),
            "wall_s": (t.elapsed().as_secs_f64() * 1000.0).round() / 1000.0
        }));
    }

    /// Runs every item of a list.
    pub fn par_list<T: Sync, F>(&self, name: &str, items: &[T], f: F)
    where
        F: Fn(&mut Worker<'_>, &T) + Sync,
    {
        self.par(name, items.len() as u64, |w, i| f(w, &items[i as usize]))
    }

    fn watch(&self, stop: &AtomicBool) {
        let mut n = 0u32;
        while !stop.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(20));
            n += 1;
            if n % 5 != 0 {
                continue;
            }
            let now = now_ms();
            for s in &self.slots {
                let since = s.since.load(Ordering::Relaxed);
                if since != 0 && now.saturating_sub(since) > HANG_MS {
                    unsafe { libc::_exit(98) };
                }
            }
            if n % 10 == 0 {
                let statm = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
                let pages: u64 = statm.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                if pages * 4 > RSS_LIMIT_KB {
                    unsafe { libc::_exit(97) };
                }
            }
        }
    }

    pub fn finish(&self) -> i32 {
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut violations = std::mem::take(&mut *self.violations.lock().unwrap());
        violations.sort_by_key(|v| (v.case.s.iter().map(|s| s.len()).sum::<usize>(), v.case.json()));
        let exhaustive = !self.capped.load(Ordering::Relaxed) && violations.is_empty();
        let mut cov = Map::new();
        cov.insert("states".into(), json!(states));
        cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.validated.load(Ordering::Relaxed)));
        cov.insert("evaluations".into(), json!(self.cases.load(Ordering::Relaxed)));
        cov.insert("unspecified_cases".into(), json!(self.undecided.load(Ordering::Relaxed)));
        cov.insert("outcome_classes".into(), json!(*self.classes.lock().unwrap()));
        cov.insert("spaces".into(), json!(*self.spaces.lock().unwrap()));
        cov.insert("not_reproduced".into(), json!(self.unconfirmed.load(Ordering::Relaxed)));
        cov.insert("exhaustive".into(), json!(exhaustive));
        let mut samples = self.samples.lock().unwrap().clone();
        if samples.is_empty() {
            samples.push(json!("none"));
        }
        cov.insert("samples".into(), json!(samples));
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        write_evidence(&self.id, &ev);
        for i in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, self.known[*i].1);
        }
        for (i, v) in violations.iter().take(5).enumerate() {
            let p = write_replay(&self.id, i, &v.case, &v.what);
            println!("VIOLATION property={} replay={}", self.id, p);
            println!("  {}", v.what.replace('\n', "\n  "));
            println!("  case: {}", v.case.json());
        }
        println!(
            "{}: {} states, {} transitions, {} cases decided, {} unspecified, {:.1}s{}",
            self.id,
            states,
            self.transitions.load(Ordering::Relaxed),
            self.validated.load(Ordering::Relaxed),
            self.undecided.load(Ordering::Relaxed),
            self.t0.elapsed().as_secs_f64(),
            if self.capped.load(Ordering::Relaxed) { " (capped)" } else { "" }
        );
        if violations.is_empty() {
            0
        } else {
            1
        }
    }
}

pub fn write_evidence(id: &str, ev: &Value) {
    let dir = format!("{VERIF}/evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let tmp = format!("{dir}/.{id}.tmp");
    std::fs::write(&tmp, serde_json::to_string_pretty(ev).unwrap() + "\n").unwrap();
    std::fs::rename(&tmp, format!("{dir}/{id}.json")).unwrap();
}

pub fn write_replay(id: &str, i: usize, case: &Case, what: &str) -> String {
    let dir = format!("{VERIF}/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let p = format!("{dir}/{id}-{i}.json");
    let v = json!({"property": id, "case": {"sub": case.sub, "s": case.s}, "what": what,
        "how": format!("/verif/check.sh replay {p}")});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    p
}

impl Worker<'_> {
    fn flush(&mut self) {
        self.eng.transitions.fetch_add(self.transitions, Ordering::Relaxed);
        self.eng.validated.fetch_add(self.validated, Ordering::Relaxed);
        self.eng.undecided.fetch_add(self.undecided, Ordering::Relaxed);
        self.eng.cases.fetch_add(self.cases, Ordering::Relaxed);
        let mut c = self.eng.classes.lock().unwrap();
        for (k, v) in &self.classes {
            *c.entry(k).or_default() += v;
        }
        self.transitions = 0;
        self.validated = 0;
        self.undecided = 0;
        self.cases = 0;
        self.classes.clear();
    }

    /// Judges one case. A panic is a violation; a crash or a hang is attributed by the parent.
    pub fn case(&mut self, case: Case, judge: impl Fn(&mut Self, &Case) -> Judged) {
        if !self.eng.state(hash64(&(&case.sub, &case.s))) {
            return; // the same case was already judged
        }
        let js = case.json();
        self.enter(&js);
        let mut res = guarded(|| judge(self, &case));
        if !matches!(res, Ok(Ok(_))) && !self.eng.failing() {
            // a violation must show again: once more in two further judgings
            let again = (0..2).find_map(|_| {
                self.enter(&js);
                let r = guarded(|| judge(self, &case));
                (!matches!(r, Ok(Ok(_)))).then_some(r)
            });
            match again {
                Some(r) => res = r,
                None => {
                    self.eng.unconfirmed.fetch_add(1, Ordering::Relaxed);
                    eprintln!("not reproduced, not reported: {js}");
                    res = Ok(undecided(0, "not reproduced"));
                }
            }
        }
        self.leave();
        self.cases += 1;
        match res {
            Ok(Ok(d)) => {
                self.transitions += d.ops;
                if d.decided {
                    self.validated += 1;
                } else {
                    self.undecided += 1;
                }
                let n = self.classes.entry(d.class).or_default();
                *n += 1;
                if *n == 1 && self.tid < 4 {
                    self.eng.sample(json!({"class": d.class, "case": {"sub": case.sub, "s": case.s}}));
                }
            }
            Ok(Err(what)) => self.eng.report(&case, what),
            Err(p) => self.eng.report(&case, p),
        }
    }

    pub fn enter(&self, js: &str) {
        let slot = &self.eng.slots[self.tid];
        let b = js.as_bytes();
        let n = b.len().min(SLOT - 4);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), slot.ptr.add(4), n);
            std::ptr::copy_nonoverlapping((n as u32).to_le_bytes().as_ptr(), slot.ptr, 4);
        }
        slot.since.store(now_ms(), Ordering::Relaxed);
    }

    pub fn leave(&self) {
        let slot = &self.eng.slots[self.tid];
        slot.since.store(0, Ordering::Relaxed);
        unsafe { std::ptr::copy_nonoverlapping(0u32.to_le_bytes().as_ptr(), slot.ptr, 4) };
    }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn explore(&self, eng: &Eng);
    fn judge(&self, w: &mut Worker<'_>, case: &Case) -> Judged;
}

fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(base)
}

fn one(check: &dyn Check, case: Case, scratch: &Path) -> (bool, i32) {
    let eng = Eng::new(check.id(), scratch);
    eng.par("replay", 1, |w, _| w.case(case.clone(), |w, c| check.judge(w, c)));
    let v = eng.violations.lock().unwrap();
    for x in v.iter() {
        println!("  {}", x.what);
    }
    let known = !eng.known_hit.lock().unwrap().is_empty();
    (known, if v.is_empty() { 0 } else { 1 })
}

/// Entry point shared by the check binaries.
pub fn main_with(checks: &[&dyn Check]) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| checks.iter().find(|c| c.id() == id).copied();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args[2].clone();
            if find(&id).is_none() {
                eprintln!("no check {id}");
                std::process::exit(2);
            }
            std::process::exit(supervise(&id));
        }
        Some("run") => {
            let check = find(&args[2]).expect("check");
            let eng = Eng::new(check.id(), Path::new(&args[3]));
            check.explore(&eng);
            std::process::exit(eng.finish());
        }
        Some("one") => {
            let check = find(&args[2]).expect("check");
            let case = Case::parse(&std::fs::read_to_string(&args[4]).unwrap()).expect("case");
            let (_, rc) = one(check, case, Path::new(&args[3]));
            std::process::exit(rc);
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let Some(check) = find(v["property"].as_str().unwrap()) else {
                std::process::exit(4);
            };
            let case = Case::parse(&v["case"].to_string()).unwrap();
            let dir = scratch_root().join(format!("ginko-mc-{}", std::process::id()));
            let (known, rc) = one(check, case, &dir);
            let _ = std::fs::remove_dir_all(&dir);
            println!("{}", if known { "known finding" } else if rc == 0 { "holds" } else { "violated" });
            std::process::exit(rc);
        }
        Some("has") => std::process::exit(if find(&args[2]).is_some() { 0 } else { 1 }),
        _ => {
            eprintln!("usage: check ID | replay FILE");
            std::process::exit(2);
        }
    }
}

fn supervise(id: &str) -> i32 {
    let me = std::env::current_exe().unwrap();
    let dir = scratch_root().join(format!("ginko-mc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let st = std::process::Command::new(&me).arg("run").arg(id).arg(&dir).status();
    let rc = match st.as_ref().map(|s| s.code()) {
        Ok(Some(c)) if c == 0 || c == 1 => c,
        other => {
            eprintln!("check process ended with {other:?}; looking for the case");
            culprit(id, &me, &dir).unwrap_or(3)
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

/// The check process died or was stopped: find the in-flight case that does this on its own.
fn culprit(id: &str, me: &Path, dir: &Path) -> Option<i32> {
    use std::os::unix::process::CommandExt;
    let known = load_known(id);
    for (i, case) in read_slots(&dir.join("slots")).into_iter().enumerate() {
        let sub = dir.join(format!("one{i}"));
        std::fs::create_dir_all(&sub).unwrap();
        let cf = sub.join("case.json");
        std::fs::write(&cf, case.json()).unwrap();
        let mut cmd = std::process::Command::new(me);
        cmd.arg("one").arg(id).arg(&sub).arg(&cf);
        unsafe {
            cmd.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                Ok(())
            });
        }
        let mut child = cmd.spawn().ok()?;
        let t = Instant::now();
        let what = loop {
            match child.try_wait() {
                Ok(Some(s)) => match s.code() {
                    Some(0) => break None,
                    Some(1) => break Some("the case fails when run alone".to_string()),
                    Some(97) => break Some("the case needs unbounded memory".to_string()),
                    Some(98) => break Some("the case does not terminate".to_string()),
                    _ => break Some(format!("the process is killed by this case ({s})")),
                },
                _ => {
                    if t.elapsed() > Duration::from_millis(HANG_MS + 20_000) {
                        let _ = child.kill();
                        let _ = child.wait();
                        break Some("the case does not terminate".to_string());
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
        };
        if let Some(what) = what {
            if let Some((_, text)) = known.iter().find(|(c, _)| *c == case) {
                println!("KNOWN-FINDING: property={id} {text}");
                continue;
            }
            let p = write_replay(id, 0, &case, &what);
            println!("VIOLATION property={id} replay={p}");
            println!("  {what}");
            println!("  case: {}", case.json());
            let ev = json!({
                "property": id,
                "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                "seed": 1, "level": "model_checking",
                "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [case.json()]},
                "wall_s": 0.0, "violations": 1
            });
            write_evidence(id, &ev);
            return Some(1);
        }
    }
    None
}
