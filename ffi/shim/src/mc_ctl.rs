//! The controlled scheduler: depth-first search over all schedules of a set of threads, one running at a time, with a
//! scheduling decision before every lock acquisition and atomic operation. Sleep sets prune schedules that only reorder
//! operations on different objects; no preemption bound.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::thread::Thread;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Start,
    Lock(usize),
    Read(usize),
    Rmw(usize),
    /// a point of the test program itself, not to be commuted with anything
    Any,
}
fn dependent(a: Op, b: Op) -> bool {
    use Op::*;
    match (a, b) {
        (Start, _) | (_, Start) => false,
        (Any, _) | (_, Any) => true,
        (Read(_), Read(_)) => false,
        (Lock(x) | Read(x) | Rmw(x), Lock(y) | Read(y) | Rmw(y)) => x == y,
    }
}

struct Node {
    enabled: u32,
    chosen: usize,
    /// not worth choosing: asleep on arrival, or already explored
    sleep: u32,
    pend: Vec<Op>,
}
#[derive(Default)]
struct Sched {
    n: usize,
    pend: Vec<Op>,
    finished: Vec<bool>,
    writer: HashMap<usize, usize>,
    readers: HashMap<usize, Vec<usize>>,
    path: Vec<Node>,
    depth: usize,
    cur_sleep: u32,
    free: bool,
    steps: u64,
    nondet: bool,
}

const NONE: usize = usize::MAX;
const MAIN: usize = usize::MAX - 1;
static TURN: AtomicUsize = AtomicUsize::new(MAIN);
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static HANDLES: Mutex<Vec<Thread>> = Mutex::new(Vec::new());
static MAIN_THREAD: Mutex<Option<Thread>> = Mutex::new(None);
type Job = Box<dyn FnOnce() + Send>;
static JOBS: Mutex<Vec<Option<Job>>> = Mutex::new(Vec::new());
/// Called with a description when every unfinished thread is blocked. Must not return.
static ON_DEADLOCK: Mutex<Option<fn(&str)>> = Mutex::new(None);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static HELD: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

fn deadlock(msg: &str) -> ! {
    let h = *ON_DEADLOCK.lock().unwrap();
    if let Some(f) = h {
        f(msg);
    }
    eprintln!("DEADLOCK: {}", msg);
    std::process::abort();
}
pub fn on_deadlock(f: fn(&str)) {
    *ON_DEADLOCK.lock().unwrap() = Some(f);
}

fn wait_turn(me: usize) {
    let mut spins = 0;
    while TURN.load(SeqCst) != me {
        spins += 1;
        if spins < 300 {
            std::hint::spin_loop();
        } else {
            std::thread::park();
        }
    }
}
fn pass(next: usize) {
    TURN.store(next, SeqCst);
    if next == MAIN {
        if let Some(t) = &*MAIN_THREAD.lock().unwrap() {
            t.unpark();
        }
    } else {
        HANDLES.lock().unwrap()[next].unpark();
    }
}

impl Sched {
    fn enabled(&self) -> u32 {
        let mut m = 0;
        for t in 0..self.n {
            if self.finished[t] {
                continue;
            }
            let ok = match self.pend[t] {
                Op::Start | Op::Rmw(_) | Op::Any => true,
                Op::Lock(x) => !self.writer.contains_key(&x) && self.readers.get(&x).is_none_or(|r| r.is_empty()),
                Op::Read(x) => !self.writer.contains_key(&x),
            };
            if ok {
                m |= 1 << t;
            }
        }
        m
    }
    fn decide(&mut self, me: usize) -> usize {
        if self.finished.iter().all(|f| *f) {
            return MAIN;
        }
        let en = self.enabled();
        if en == 0 {
            let names = |x: usize| format!("{:?}", self.writer.get(&x));
            let mut s = String::new();
            for t in 0..self.n {
                if !self.finished[t] {
                    if let Op::Lock(x) | Op::Read(x) = self.pend[t] {
                        s += &format!("thread {} waits for a lock held by thread {}; ", t, names(x));
                    }
                }
            }
            deadlock(&format!("all threads are blocked: {}schedule {:?}", s, self.path.iter().map(|n| n.chosen).collect::<Vec<_>>()));
        }
        self.steps += 1;
        let t = if self.free {
            if en & (1 << me.min(31)) != 0 && me < self.n {
                me
            } else {
                en.trailing_zeros() as usize
            }
        } else if self.depth < self.path.len() {
            let node = &self.path[self.depth];
            if node.enabled != en {
                self.nondet = true;
                self.free = true;
            }
            node.chosen
        } else {
            let cand = en & !self.cur_sleep;
            if cand == 0 {
                self.free = true;
                en.trailing_zeros() as usize
            } else {
                let c = if me < self.n && cand & (1 << me) != 0 { me } else { cand.trailing_zeros() as usize };
                self.path.push(Node { enabled: en, chosen: c, sleep: self.cur_sleep, pend: self.pend.clone() });
                c
            }
        };
        if !self.free {
            let node = &self.path[self.depth];
            let mut s = 0;
            for u in 0..self.n {
                if node.sleep & (1 << u) != 0 && u != t && !dependent(node.pend[u], node.pend[t]) {
                    s |= 1 << u;
                }
            }
            self.cur_sleep = s;
            self.depth += 1;
        }
        t
    }
    fn backtrack(&mut self) -> bool {
        while let Some(n) = self.path.last_mut() {
            n.sleep |= 1 << n.chosen;
            let cand = n.enabled & !n.sleep;
            if cand != 0 {
                n.chosen = cand.trailing_zeros() as usize;
                return true;
            }
            self.path.pop();
        }
        false
    }
}

pub fn point(op: Op) {
    let me = TID.with(|t| t.get());
    if me == NONE {
        return;
    }
    let next = {
        let mut g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        s.pend[me] = op;
        s.decide(me)
    };
    if next != me {
        pass(next);
        wait_turn(me);
    }
}
pub fn will_lock(id: usize) {
    if TID.with(|t| t.get()) == NONE && HELD.with(|h| h.borrow().contains(&id)) {
        deadlock("a call waits for a lock that it holds itself");
    }
}
pub fn locked(id: usize) {
    let me = TID.with(|t| t.get());
    HELD.with(|h| h.borrow_mut().push(id));
    if me != NONE {
        SCHED.lock().unwrap().as_mut().unwrap().writer.insert(id, me);
    }
}
pub fn unlocked(id: usize) {
    let _ = HELD.try_with(|h| {
        let mut h = h.borrow_mut();
        if let Some(p) = h.iter().rposition(|x| *x == id) {
            h.remove(p);
        }
    });
    if TID.try_with(|t| t.get()).unwrap_or(NONE) != NONE {
        SCHED.lock().unwrap().as_mut().unwrap().writer.remove(&id);
    }
}
pub fn read_locked(id: usize) {
    let me = TID.with(|t| t.get());
    HELD.with(|h| h.borrow_mut().push(id));
    if me != NONE {
        SCHED.lock().unwrap().as_mut().unwrap().readers.entry(id).or_default().push(me);
    }
}
pub fn read_unlocked(id: usize) {
    let _ = HELD.try_with(|h| {
        let mut h = h.borrow_mut();
        if let Some(p) = h.iter().rposition(|x| *x == id) {
            h.remove(p);
        }
    });
    let me = TID.try_with(|t| t.get()).unwrap_or(NONE);
    if me != NONE {
        let mut g = SCHED.lock().unwrap();
        let r = g.as_mut().unwrap().readers.entry(id).or_default();
        if let Some(p) = r.iter().position(|x| *x == me) {
            r.remove(p);
        }
    }
}

fn ensure_workers(n: usize) {
    *MAIN_THREAD.lock().unwrap() = Some(std::thread::current());
    loop {
        let k = HANDLES.lock().unwrap().len();
        if k >= n {
            return;
        }
        JOBS.lock().unwrap().push(None);
        let h = std::thread::Builder::new()
            .name(format!("mc{}", k))
            .spawn(move || loop {
                wait_turn(k);
                let job = JOBS.lock().unwrap()[k].take();
                if let Some(j) = job {
                    TID.with(|t| t.set(k));
                    j();
                    TID.with(|t| t.set(NONE));
                }
                let next = {
                    let mut g = SCHED.lock().unwrap();
                    let s = g.as_mut().unwrap();
                    s.finished[k] = true;
                    s.decide(k)
                };
                if next == k {
                    unreachable!();
                }
                pass(next);
            })
            .unwrap();
        HANDLES.lock().unwrap().push(h.thread().clone());
    }
}

pub struct Stats {
    pub schedules: u64,
    pub redundant: u64,
    pub steps: u64,
    pub nondet: u64,
}

/// Runs `make()` under every schedule; `check` sees the schedule after each execution and returns false to stop.
pub fn explore(n: usize, max: u64, mut make: impl FnMut() -> Vec<Job>, mut check: impl FnMut(&[usize]) -> bool) -> Stats {
    ensure_workers(n);
    let mut st = Stats { schedules: 0, redundant: 0, steps: 0, nondet: 0 };
    let mut path = vec![];
    loop {
        let jobs = make();
        assert!(jobs.len() == n);
        for (i, j) in jobs.into_iter().enumerate() {
            JOBS.lock().unwrap()[i] = Some(j);
        }
        let first = {
            let mut g = SCHED.lock().unwrap();
            let mut s = Sched { n, pend: vec![Op::Start; n], finished: vec![false; n], path, ..Default::default() };
            let f = s.decide(NONE);
            *g = Some(s);
            f
        };
        pass(first);
        wait_turn(MAIN);
        let mut s = SCHED.lock().unwrap().take().unwrap();
        st.schedules += 1;
        st.redundant += (s.free && !s.nondet) as u64;
        st.nondet += s.nondet as u64;
        st.steps += s.steps;
        let sch: Vec<usize> = s.path.iter().map(|n| n.chosen).collect();
        if !check(&sch) || st.schedules >= max || s.nondet {
            return st;
        }
        if !s.backtrack() {
            return st;
        }
        path = s.path;
    }
}
