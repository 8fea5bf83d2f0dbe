//! Exploration engine: case execution, isolation, counting, reporting.
//!
//! The process runs twice: a supervisor (this binary without MC_CHILD) and a worker.
//! The supervisor turns an abnormal end of the worker (abort, stack overflow, signal)
//! into a violation that names the case that was executing.

use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
pub const SLOT: usize = 512;

#[derive(Clone)]
pub struct Violation {
    pub key: String,
    pub msg: String,
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub id: String,
    /// wide bounds: always for checks that are fast enough
    pub thorough: bool,
    /// asked for the thorough tier
    pub deep: bool,
    pub seed: u64,
    pub scratch: PathBuf,
    pub only: Option<String>,
    pub level: Mutex<String>,
    pub rule: Mutex<String>,
    pub start: Instant,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<BTreeMap<String, String>>,
    extra: Mutex<Map<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    viol: Mutex<Vec<Violation>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    known: Vec<Known>,
    progress: usize,
    tmp_counter: AtomicUsize,
    pub exhaustive: AtomicBool,
    case_timeout: AtomicU64,
}

thread_local! {
    static SLOT_ID: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    pub static MAX_ALLOC: Cell<usize> = const { Cell::new(0) };
}

/// No archive of the checks justifies a single request of this size; it is refused, so that an
/// unchecked length from the input shows up as an abort instead of exhausting the machine.
pub static ALLOC_CAP: AtomicUsize = AtomicUsize::new(1 << 30);

/// Global allocator that remembers the largest single request per thread and refuses absurd ones.
pub struct CountingAlloc;
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(l.size())));
        if l.size() > ALLOC_CAP.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(l.size())));
        if l.size() > ALLOC_CAP.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(n)));
        if n > ALLOC_CAP.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}

static SLOT_NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the Hash stream: stable across runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = msg.clone());
        if !quiet {
            eprintln!("harness panic: {}", msg);
        }
    }));
}

/// Run `f`, turning a panic into Err.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, only: Option<String>) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let scratch = PathBuf::from(std::env::var("MC_SCRATCH").expect("MC_SCRATCH"));
        let progress = map_progress(&scratch.join("progress"));
        Ctx {
            id: id.to_string(),
            thorough: thorough || WIDE.contains(&id),
            deep: thorough,
            seed,
            scratch,
            only,
            level: Mutex::new("exploration".into()),
            rule: Mutex::new(String::new()),
            start: Instant::now(),
            evals: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            samples: Mutex::new(BTreeMap::new()),
            extra: Mutex::new(Map::new()),
            assumptions: Mutex::new(vec![]),
            viol: Mutex::new(vec![]),
            known_hit: Mutex::new(BTreeMap::new()),
            known: load_known(id),
            progress,
            tmp_counter: AtomicUsize::new(0),
            exhaustive: AtomicBool::new(true),
            case_timeout: AtomicU64::new(120),
        }
    }
    pub fn level(&self, l: &str) {
        *self.level.lock().unwrap() = l.into();
    }
    pub fn rule(&self, l: &str) {
        *self.rule.lock().unwrap() = l.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn add(&self, k: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let old = e.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        e.insert(k.into(), json!(old + n));
    }
    pub fn distinct<T: Hash + ?Sized>(&self, t: &T) -> bool {
        self.distinct.lock().unwrap().insert(hash64(t))
    }
    /// One sample per class is kept in the evidence.
    pub fn sample(&self, class: &str, text: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 24 && !s.contains_key(class) {
            s.insert(class.into(), text());
        }
    }
    pub fn file(&self, stem: &str) -> PathBuf {
        let n = self.tmp_counter.fetch_add(1, Ordering::Relaxed);
        self.scratch.join(format!("{}-{}", stem, n))
    }
    pub fn violation(&self, key: &str, msg: &str) {
        for k in &self.known {
            if k.key == key {
                *self.known_hit.lock().unwrap().entry(k.key.clone()).or_insert(0) += 1;
                return;
            }
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() < 200 {
            v.push(Violation { key: key.into(), msg: msg.into() });
        }
    }
    pub fn violations(&self) -> usize {
        self.viol.lock().unwrap().len()
    }
    /// Enough violations were recorded: stop exploring early.
    pub fn stop(&self) -> bool {
        self.violations() >= 40
    }
    fn slot(&self) -> usize {
        SLOT_ID.with(|s| {
            if s.get() == usize::MAX {
                s.set(SLOT_NEXT.fetch_add(1, Ordering::Relaxed) % SLOTS);
            }
            s.get()
        })
    }
    fn publish(&self, key: &str) {
        let s = self.slot();
        let p = (self.progress + s * SLOT) as *mut u8;
        let b = key.as_bytes();
        let n = b.len().min(SLOT - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(16), n);
            std::ptr::write_volatile(p as *mut u32, n as u32);
            std::ptr::write_volatile(p.add(8) as *mut u64, self.start.elapsed().as_millis() as u64 + 1);
        }
    }
    fn unpublish(&self) {
        let s = self.slot();
        let p = (self.progress + s * SLOT) as *mut u8;
        unsafe { std::ptr::write_volatile(p as *mut u32, 0) };
    }
    /// Execute one case. Err(msg), a panic, an abort or a hang is a violation.
    pub fn case(&self, key: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only {
            if o != key {
                return;
            }
        }
        if self.stop() {
            self.exhaustive.store(false, Ordering::Relaxed);
            return;
        }
        self.evals.fetch_add(1, Ordering::Relaxed);
        self.publish(key);
        let r = guarded(f);
        self.unpublish();
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violation(key, &m),
            Err(m) => self.violation(key, &m),
        }
    }
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let n = nthreads().min(items.len().max(1));
        std::thread::scope(|s| {
            for _ in 0..n {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        f(&items[i]);
                    })
                    .unwrap();
            }
        });
    }
    pub fn par_range(&self, n: usize, f: impl Fn(usize) + Sync) {
        let v: Vec<usize> = (0..n).collect();
        self.par(&v, |i| f(*i));
    }
    pub fn set_case_timeout(&self, s: u64) {
        self.case_timeout.store(s, Ordering::Relaxed);
    }
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = self.start.elapsed().as_millis() as u64;
            for s in 0..SLOTS {
                let p = (self.progress + s * SLOT) as *mut u8;
                let n = unsafe { std::ptr::read_volatile(p as *const u32) } as usize;
                let t = unsafe { std::ptr::read_volatile(p.add(8) as *const u64) };
                let lim = self.case_timeout.load(Ordering::Relaxed) * 1000;
                if n > 0 && now > t && now - t > lim {
                    let key = String::from_utf8_lossy(unsafe {
                        std::slice::from_raw_parts(p.add(16), n.min(SLOT - 16))
                    })
                    .to_string();
                    self.violation(&key, &format!("did not terminate within {} s", lim / 1000));
                    let code = self.finish();
                    std::process::exit(code);
                }
            }
        });
    }
    /// Write evidence, print the verdict, return the exit code.
    pub fn finish(&self) -> i32 {
        let v = self.viol.lock().unwrap().clone();
        let mut cov = Map::new();
        let level = self.level.lock().unwrap().clone();
        let samples: Vec<Value> = self
            .samples
            .lock()
            .unwrap()
            .iter()
            .map(|(k, t)| json!(format!("{}: {}", k, t)))
            .collect();
        // a case evaluates one or many executions; each distinct one was evaluated at least once
        let (cases, distinct) = (self.evals.load(Ordering::Relaxed), self.distinct.lock().unwrap().len());
        cov.insert("cases".into(), json!(cases));
        cov.insert("evaluations".into(), json!((cases as usize).max(distinct)));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.lock().unwrap().len()));
        cov.insert("rule".into(), json!(*self.rule.lock().unwrap()));
        cov.insert("samples".into(), Value::Array(samples));
        if level == "model_checking" {
            cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
            cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
            cov.insert(
                "traces_validated_against_impl".into(),
                json!(self.traces.load(Ordering::Relaxed)),
            );
        }
        cov.insert(
            "exhaustive".into(),
            json!(self.exhaustive.load(Ordering::Relaxed) && self.only.is_none()),
        );
        for (k, x) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), x.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.deep {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": v.len(),
        });
        write_evidence(&self.id, &ev);
        for k in &self.known {
            if self.known_hit.lock().unwrap().contains_key(&k.key) {
                println!("KNOWN-FINDING: property={} {}", self.id, k.what);
            }
        }
        report(&self.id, &v, self.deep);
        println!(
            "{}: {} evaluations, {} distinct, {} states, {} violations, {:.1}s",
            self.id,
            self.evals.load(Ordering::Relaxed),
            self.distinct.lock().unwrap().len(),
            self.states.load(Ordering::Relaxed),
            v.len(),
            self.start.elapsed().as_secs_f64()
        );
        if v.is_empty() {
            0
        } else {
            1
        }
    }
}

pub fn nthreads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

pub fn write_evidence(id: &str, ev: &Value) {
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{}.json", id));
    std::fs::write(p, serde_json::to_string_pretty(ev).unwrap() + "\n").expect("evidence");
}

/// Checks whose quick tier runs with the wide bounds.
const WIDE: [&str; 9] = ["P02", "P03", "P07", "P10", "P12", "P13", "P15", "P21", "P24"];

pub fn report(id: &str, v: &[Violation], thorough: bool) {
    let d = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&d);
    for (i, x) in v.iter().enumerate().take(5) {
        let p = d.join(format!("{}-{}.json", id, i));
        let rep = json!({
            "property": id,
            "case": x.key,
            "what": x.msg,
            "replay_cmd": format!("cd /verif && ./check.sh {} {} --case '{}'", id, if thorough {"thorough"} else {"quick"}, x.key),
        });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&rep).unwrap() + "\n");
        println!("VIOLATION property={} replay={}", id, p.display());
        let m: String = x.msg.chars().take(600).collect();
        println!("  case {}\n  {}", x.key, m);
    }
    if v.len() > 5 {
        println!("  ... and {} more violating cases", v.len() - 5);
    }
}

fn load_known(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known-findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|e| e["property"] == id)
                .map(|e| Known {
                    property: id.into(),
                    key: e["case"].as_str().unwrap_or("").into(),
                    what: e["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn map_progress(p: &Path) -> usize {
    let len = SLOTS * SLOT;
    std::fs::write(p, vec![0u8; len]).unwrap();
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDWR);
        let m = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        libc::close(fd);
        assert!(m != libc::MAP_FAILED);
        m as usize
    }
}

pub fn read_progress(p: &Path) -> Vec<String> {
    let b = std::fs::read(p).unwrap_or_default();
    let mut out = vec![];
    for s in 0..SLOTS {
        let o = s * SLOT;
        if o + SLOT > b.len() {
            break;
        }
        let n = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize;
        if n > 0 {
            out.push(String::from_utf8_lossy(&b[o + 16..o + 16 + n.min(SLOT - 16)]).to_string());
        }
    }
    out
}

/// Deterministic pseudo random bytes (used only to make fixed data; never to choose cases).
pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    v.truncate(n);
    v
}
