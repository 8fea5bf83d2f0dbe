//! P18: concurrent calls of the C API are linearizable, under every schedule, and never deadlock.
use super::ffi::*;
use crate::engine::*;
use mcshim::mc_ctl;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

const A0: H = H::V(0);
const A1: H = H::V(1);
const F0: H = H::V(2);
const F1: H = H::V(3);

/// Calls a thread may make; `own` is the variable only this thread writes.
fn alphabet(own: usize) -> Vec<Op> {
    vec![
        Op::CloseArchive(A0),
        Op::OpenFile(A0, Some("a.txt"), Some(own)),
        Op::Read(F0, 4, true),
        Op::CloseFile(F0),
        Op::Seek(F0, 3, None, 1),
        Op::OpenArchive(Src::Arch(0), own),
        Op::Enum(A0, None, Cb::Reenter),
        Op::Has(A0, Some("a.txt")),
        // up to here: the core alphabet
        Op::Read(H::V(own), 3, true),
        Op::CloseFile(H::V(own)),
        Op::CloseArchive(H::V(own)),
        Op::OpenFile(H::V(own), Some("a.txt"), Some(own + 1)),
        Op::Seek(F0, 2, None, 0),
        Op::Size(F0, true),
        Op::Info(F0, 10, 8),
        Op::Info(A0, 1, 8),
        Op::FileName(F0, false),
        Op::ArchName(A0, 400),
        Op::Enum(A0, None, Cb::All),
        Op::Extract(A0, "a.txt"),
        Op::VerifyFile(A0, "a.txt", 7),
        Op::VerifyArchive(A0, 0x20),
        Op::OpenFile(A0, Some("nope"), Some(own)),
        Op::SetLocale(0x409),
        Op::GetLocale,
        Op::CloseArchive(A1),
        Op::OpenFile(A1, Some("ok.txt"), Some(own)),
        Op::Read(F1, 4, true),
        Op::VerifyArchive(A1, 0x20),
        Op::Enum(A1, None, Cb::Stop),
    ]
}
const CORE: usize = 8;
fn own(t: usize) -> usize {
    // two variables per thread; the third thread has only one of its own
    4 + t * 2 - (t == 2) as usize
}

struct Prog {
    key: String,
    threads: Vec<Vec<Op>>,
    /// scheduling points between a call and the look at its last error
    fine: bool,
}

/// Every program, the same list in every process.
fn programs(thorough: bool) -> Vec<Prog> {
    let al: Vec<Vec<Op>> = (0..3).map(|t| alphabet(own(t))).collect();
    let n = al[0].len();
    let mut v = vec![];
    // two threads, one call each, with scheduling points around every call
    for i in 0..n {
        for j in i..n {
            v.push(Prog { key: format!("1x1/{}/{}", i, j), threads: vec![vec![al[0][i]], vec![al[1][j]]], fine: true });
        }
    }
    // one call against two; two against two
    let two: Vec<usize> = (0..n).collect();
    let uses_own = |a: usize| matches!(a, 8..=11);
    for i in 0..n {
        for &j in &two {
            for &k in &two {
                if uses_own(j) || (j == k && j > 4) {
                    continue;
                }
                v.push(Prog { key: format!("1x2/{}/{}.{}", i, j, k), threads: vec![vec![al[0][i]], vec![al[1][j], al[1][k]]], fine: thorough });
            }
        }
    }
    let c: Vec<usize> = if thorough { (0..n).collect() } else { (0..CORE + 4).collect() };
    for &a in &c {
        for &b in &c {
            for &i in &c {
                for &j in &c {
                    if uses_own(a) || uses_own(i) || (a, b) > (i, j) {
                        continue;
                    }
                    v.push(Prog { key: format!("2x2/{}.{}/{}.{}", a, b, i, j), threads: vec![vec![al[0][a], al[0][b]], vec![al[1][i], al[1][j]]], fine: false });
                }
            }
        }
    }
    // three threads
    for i in 0..n {
        for j in i..n {
            for k in j..n {
                if [i, j, k].iter().any(|x| uses_own(*x)) {
                    continue;
                }
                v.push(Prog { key: format!("1x1x1/{}/{}/{}", i, j, k), threads: vec![vec![al[0][i]], vec![al[1][j]], vec![al[2][k]]], fine: thorough && k < CORE });
                if thorough {
                    for l in 0..CORE + 4 {
                        v.push(Prog { key: format!("2x1x1/{}.{}/{}/{}", i, l, j, k), threads: vec![vec![al[0][i], al[0][l]], vec![al[1][j]], vec![al[2][k]]], fine: false });
                    }
                }
            }
        }
    }
    v
}

fn setup_ops(p: &Prog) -> Vec<Op> {
    let uses = |v: usize| p.threads.iter().flatten().any(|o| format!("{:?}", o).contains(&format!("V({})", v)));
    let mut s = vec![];
    if uses(0) || uses(2) {
        s.push(Op::OpenArchive(Src::Arch(0), 0));
        s.push(Op::OpenFile(A0, Some("a.txt"), Some(2)));
    }
    if uses(1) || uses(3) {
        s.push(Op::OpenArchive(Src::Arch(1), 1));
        s.push(Op::OpenFile(A1, Some("ok.txt"), Some(3)));
    }
    s
}
fn final_ops() -> Vec<Op> {
    let mut v = vec![];
    for i in [0usize, 1, 4, 5, 6, 7] {
        v.push(Op::Has(H::V(i), Some("a.txt")));
        v.push(Op::Info(H::V(i), 1, 8));
    }
    for i in [2usize, 3, 4, 5, 6, 7] {
        v.push(Op::Info(H::V(i), 10, 8));
        v.push(Op::Read(H::V(i), 2, true));
    }
    v
}

/// One way to order the calls (and the two steps of a re-entering enumeration).
#[derive(PartialEq, Debug, Clone)]
struct Outcome {
    res: Vec<Vec<Res>>,
    fin: Vec<Res>,
}
struct Lin {
    /// (thread, call), one entry per step
    order: Vec<(usize, usize)>,
    out: Outcome,
}
fn linearizations(fx: &Fixture, p: &Prog) -> Vec<Lin> {
    // micro steps: (call, step)
    let micro: Vec<Vec<(usize, u8)>> = p
        .threads
        .iter()
        .map(|t| t.iter().enumerate().flat_map(|(i, o)| if matches!(o, Op::Enum(_, _, Cb::Reenter)) { vec![(i, 1), (i, 2)] } else { vec![(i, 0)] }).collect())
        .collect();
    let mut m = Model::default();
    for o in setup_ops(p) {
        m.step(fx, 3, &o);
    }
    m.err = [0; 4];
    let mut out = vec![];
    let n = p.threads.len();
    fn go(fx: &Fixture, p: &Prog, micro: &[Vec<(usize, u8)>], at: &mut Vec<usize>, m: &Model, res: &mut Vec<Vec<Res>>, order: &mut Vec<(usize, usize)>, out: &mut Vec<Lin>) {
        let mut done = true;
        for t in 0..at.len() {
            if at[t] >= micro[t].len() {
                continue;
            }
            done = false;
            let (c, s) = micro[t][at[t]];
            let op = &p.threads[t][c];
            let mut m2 = m.clone();
            let keep = res[t].clone();
            match s {
                0 => {
                    let r = m2.step(fx, t, op);
                    res[t].push(r);
                }
                1 => {
                    let r = m2.step(fx, t, op);
                    res[t].push(r);
                }
                _ => {
                    // the callback's question, asked at a later moment
                    let Op::Enum(h, ..) = *op else { unreachable!() };
                    let last = res[t].last_mut().unwrap();
                    if last.ret == 1 {
                        let mut m3 = m2.clone();
                        if m3.step(fx, t, &Op::Has(h, Some("a.txt"))).ret == 0 {
                            last.out = b"absent".to_vec();
                        }
                    }
                }
            }
            at[t] += 1;
            order.push((t, c));
            go(fx, p, micro, at, &m2, res, order, out);
            order.pop();
            at[t] -= 1;
            res[t] = keep;
        }
        if done {
            let mut m = m.clone();
            let fin = final_ops().iter().map(|o| m.step(fx, 3, o)).collect();
            out.push(Lin { order: order.clone(), out: Outcome { res: res.clone(), fin } });
        }
    }
    go(fx, p, &micro, &mut vec![0; n], &m, &mut vec![vec![]; n], &mut vec![], &mut out);
    out
}

static CURRENT: Mutex<String> = Mutex::new(String::new());
fn say(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{}", s.replace('\n', " "));
    let _ = o.flush();
}
fn dead(msg: &str) {
    let k = CURRENT.lock().unwrap().clone();
    say(&format!("V\t{}\t{}", k, msg));
    std::process::exit(4);
}

type Times = Vec<Vec<(u64, u64)>>;

/// argv: @p18 <tier> <shard> <of> <dir> <only>
pub fn helper(a: &[String]) -> i32 {
    let thorough = a[1] == "thorough";
    let (shard, of): (usize, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let dir = std::path::PathBuf::from(&a[4]);
    let only = a.get(5).filter(|s| !s.is_empty());
    std::fs::create_dir_all(&dir).unwrap();
    let fx: &'static Fixture = Box::leak(Box::new(fixture(&dir)));
    let sc = dir.join("w").to_str().unwrap().to_string();
    for t in 0..4 {
        std::fs::create_dir_all(format!("{}{}", sc, t)).unwrap();
    }
    mc_ctl::on_deadlock(dead);
    if let Err(e) = warm_up(fx, &format!("{}3", sc)) {
        say(&format!("V\twarm-up\t{}", e));
        return 1;
    }
    static CLOCK: AtomicU64 = AtomicU64::new(0);
    let fin_ops = final_ops();
    let (mut progs, mut scheds, mut steps, mut redundant, mut nontriv) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let cap = if thorough { 2_000_000 } else { 200_000 };
    let mut bad = 0;
    for (pi, p) in programs(thorough).into_iter().enumerate() {
        match only {
            Some(o) if *o != p.key => continue,
            None if pi % of != shard => continue,
            _ => {}
        }
        *CURRENT.lock().unwrap() = p.key.clone();
        if pi % 16 == shard % 16 || only.is_some() {
            say(&format!("C\t{}", p.key));
        }
        let p = Arc::new(p);
        let n = p.threads.len();
        let lins = linearizations(fx, &p);
        let base = Arc::new(Mutex::new(Real::new(format!("{}3", sc))));
        type Got = Vec<(Vec<Res>, Option<String>, Option<Real>)>;
        let got: Arc<Mutex<Got>> = Arc::new(Mutex::new(vec![]));
        let times: Arc<Mutex<Times>> = Arc::new(Mutex::new(vec![]));
        let mut outcomes: Vec<Outcome> = vec![];
        let mut err: Option<String> = None;
        let setup = setup_ops(&p);
        let st = mc_ctl::explore(
            n,
            cap,
            || {
                let mut r = Real::new(format!("{}3", sc));
                for o in &setup {
                    let _ = r.step(fx, o);
                }
                *got.lock().unwrap() = (0..n).map(|_| (vec![], None, None)).collect();
                *times.lock().unwrap() = vec![vec![]; n];
                *base.lock().unwrap() = r.clone();
                (0..n)
                    .map(|t| {
                        let (p, got, times, mut r, sc) = (p.clone(), got.clone(), times.clone(), r.clone(), format!("{}{}", sc, t));
                        let b: Box<dyn FnOnce() + Send> = Box::new(move || {
                            r.scratch = sc;
                            r.given = vec![];
                            storm::SFileSetLocale(0);
                            storm::SFileSetLastError(0);
                            for op in &p.threads[t] {
                                if p.fine {
                                    mc_ctl::point(mc_ctl::Op::Any);
                                }
                                let s = CLOCK.fetch_add(1, Ordering::SeqCst);
                                let x = r.call(fx, op);
                                let e = CLOCK.fetch_add(1, Ordering::SeqCst);
                                if p.fine {
                                    mc_ctl::point(mc_ctl::Op::Any);
                                }
                                times.lock().unwrap()[t].push((s, e));
                                let le = storm::SFileGetLastError();
                                let mut g = got.lock().unwrap();
                                match x {
                                    Ok((ret, out)) => g[t].0.push(Res { ret, out, err: le }),
                                    Err(e) => g[t].1 = Some(format!("{:?}: {}", op, e)),
                                }
                            }
                            got.lock().unwrap()[t].2 = Some(r);
                        });
                        b
                    })
                    .collect()
            },
            |sch| {
                let mut r = base.lock().unwrap().clone();
                let mut res = vec![];
                let mut e = None;
                for (t, (x, er, own_r)) in got.lock().unwrap().drain(..).enumerate() {
                    res.push(x);
                    e = e.or(er);
                    match own_r {
                        Some(o) => {
                            for h in &o.given {
                                if r.given.contains(h) {
                                    e = e.or(Some("a handle was given out twice".into()));
                                }
                                r.given.push(*h);
                            }
                            for v in own(t)..(own(t) + 2).min(8) {
                                if o.vars[v] != 0 {
                                    r.vars[v] = o.vars[v];
                                }
                            }
                        }
                        None => e = e.or(Some(format!("thread {} died", t))),
                    }
                }
                storm::SFileSetLastError(0);
                let mut fin = vec![];
                for o in &fin_ops {
                    match r.step(fx, o) {
                        Ok(x) => fin.push(x),
                        Err(x) => e = e.or(Some(format!("afterwards {:?}: {}", o, x))),
                    }
                }
                r.cleanup();
                let o = Outcome { res, fin };
                if let Some(e) = e {
                    err = Some(format!("schedule {:?}: {}", sch, e));
                    return false;
                }
                let tm = times.lock().unwrap();
                let fits = |l: &Lin| {
                    l.out == o
                        && (0..l.order.len()).all(|i| {
                            (i + 1..l.order.len()).all(|j| {
                                let ((t, c), (u, d)) = (l.order[i], l.order[j]);
                                t == u || tm[u][d].1 > tm[t][c].0
                            })
                        })
                };
                if !lins.iter().any(fits) {
                    let near = lins.iter().any(|l| l.out == o);
                    err = Some(format!(
                        "schedule {:?}: the results {:?} and the final state {:?} {}",
                        sch,
                        o.res,
                        o.fin.iter().map(|r| (r.ret, r.err)).collect::<Vec<_>>(),
                        if near { "contradict the order in which the calls were made" } else { "are those of no sequential order of the calls" }
                    ));
                    return false;
                }
                if !outcomes.contains(&o) {
                    outcomes.push(o);
                }
                true
            },
        );
        progs += 1;
        scheds += st.schedules;
        steps += st.steps;
        redundant += st.redundant;
        nontriv += (outcomes.len() > 1) as u64;
        if st.schedules >= cap {
            say(&format!("X\t{}", p.key));
        }
        if st.nondet > 0 {
            say(&format!("N\t{}", p.key));
        }
        if let Some(e) = err {
            say(&format!("V\t{}\t{} | threads: {}", p.key, e, p.threads.iter().map(|t| describe(t)).collect::<Vec<_>>().join(" || ")));
            bad += 1;
            if bad > 4 {
                break;
            }
        } else if only.is_none() && progs % 97 == 1 {
            say(&format!("S\t{}\t{} || {} : {} schedules, {} outcomes", p.key, describe(&p.threads[0]), describe(&p.threads[1]), st.schedules, outcomes.len()));
        }
    }
    say(&format!("D\t{}\t{}\t{}\t{}\t{}", progs, scheds, steps, redundant, nontriv));
    0
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("model_checking");
    ctx.rule("every program of two threads with one or two calls each and of three threads with one call, over an alphabet of calls on two shared archives and files and on handles of the thread's own; for each, every schedule (a scheduling decision before every lock acquisition, atomic operation and, in the finest programs, around every call; sleep sets prune only commuting steps; no preemption bound) runs on the real library, and the results, last errors and final handle state must be those of a sequential order of the calls in the model that respects their real-time order; non-trivial = programs whose schedules yield more than one outcome");
    let of = nthreads();
    let shards = if ctx.only.is_some() { 1 } else { of };
    let tier = if ctx.thorough { "thorough" } else { "quick" };
    let limit = std::time::Duration::from_secs(if ctx.thorough { 6000 } else { 300 });
    ctx.par_range(shards, |i| {
        let dir = ctx.file("shard");
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["@p18", tier, &i.to_string(), &of.to_string(), dir.to_str().unwrap(), ctx.only.as_deref().unwrap_or("")])
            .stdout(Stdio::piped())
            .spawn()
            .expect("helper");
        let pid = c.id() as i32;
        let last = Arc::new(Mutex::new(String::from("start")));
        let fin = Arc::new(Mutex::new(false));
        let killer = {
            let (last, fin) = (last.clone(), fin.clone());
            let start = std::time::Instant::now();
            std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                if *fin.lock().unwrap() {
                    return None;
                }
                if start.elapsed() > limit {
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                    return Some(last.lock().unwrap().clone());
                }
            })
        };
        let mut done = false;
        let mut reported = false;
        for l in BufReader::new(c.stdout.take().unwrap()).lines().map_while(Result::ok) {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "C" => *last.lock().unwrap() = f[1].into(),
                "V" => {
                    reported = true;
                    ctx.violation(f[1], &f[2..].join(" "));
                }
                "S" => ctx.sample(&f[1].split('/').next().unwrap_or("").to_string(), || f[2].into()),
                "X" => ctx.exhaustive.store(false, Ordering::Relaxed),
                "N" => {
                    ctx.exhaustive.store(false, Ordering::Relaxed);
                    ctx.add("programs_not_replayable", 1);
                }
                "D" => {
                    done = true;
                    let n: Vec<u64> = f[1..].iter().map(|x| x.parse().unwrap()).collect();
                    ctx.evals.fetch_add(n[1], Ordering::Relaxed);
                    ctx.add("programs", n[0]);
                    ctx.add("schedules", n[1]);
                    ctx.add("redundant_schedules", n[3]);
                    ctx.add("programs_with_several_outcomes", n[4]);
                    ctx.states.fetch_add(n[2], Ordering::Relaxed);
                    ctx.transitions.fetch_add(n[2], Ordering::Relaxed);
                    ctx.traces.fetch_add(n[1], Ordering::Relaxed);
                    for k in 0..n[4] {
                        ctx.distinct(&(i, k));
                    }
                }
                _ => {}
            }
        }
        let st = c.wait();
        *fin.lock().unwrap() = true;
        let killed = killer.join().ok().flatten();
        if let Some(k) = killed {
            ctx.violation(&k, "the exploration of this or one of the next programs did not end: a call hangs");
        } else if !done && !reported {
            ctx.violation(&last.lock().unwrap().clone(), &format!("the process died in this or one of the next programs ({:?})", st));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    ctx.assume("a scheduling decision is made before every operation on a std Mutex, RwLock or atomic of the library (its std is replaced by one with instrumented primitives); code between two such operations runs undisturbed, which is complete for safe Rust without data races");
    ctx.assume("the enumeration callback may see the archive closed by another thread between listing and callback");
}
