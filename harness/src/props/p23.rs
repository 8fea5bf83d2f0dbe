//! P23: processes that read and build archives at the same time do not disturb each other.
//! The processes are real; a scheduler (one tracer per process) decides before every system call who goes on.
use super::common::*;
use super::p12;
use super::p16::{apply, Op};
use crate::engine::*;
use crate::ptrace::{self, Fault};
use mopaq::Archive;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

/// argv: @p23 <archive> <transcript> <name>...
pub fn helper(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    ptrace::mark();
    let out = look(Path::new(&a[1]), &a[3..]);
    ptrace::mark();
    std::fs::write(&a[2], out).unwrap();
    0
}

/// Everything a reader sees, each call once; the information after the reads, when other handles had their chance.
fn look(p: &Path, names: &[String]) -> String {
    let mut out: Vec<String> = vec![];
    match Archive::open(p) {
        Ok(mut h) => {
            let mut ops = vec![Op::List, Op::Verify];
            ops.extend(names.iter().map(|n| Op::Read(n.clone())));
            ops.extend([Op::Find(names[0].clone()), Op::Info, Op::ListAll, Op::LoadTables, Op::Info, Op::Read("nope".into()), Op::Read(names[0].clone()), Op::ListHashes]);
            for o in &ops {
                out.push(format!("{:?}: {}", o, apply(&mut h, o)));
            }
        }
        Err(_) => out.push("not opened".into()),
    }
    out.join("\n")
}

struct State {
    turn: usize,
    left: usize,
    segments: std::collections::VecDeque<(usize, usize)>,
    alive: Vec<bool>,
    free: bool,
    ticks: u64,
    /// how often control passed on while its holder could have gone on
    switches: usize,
    overrun: bool,
}
/// A schedule is a list of (process, number of system calls); afterwards the processes run to their ends in order.
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
impl Sched {
    fn new(n: usize, plan: &[(usize, usize)]) -> Sched {
        let mut segments: std::collections::VecDeque<_> = plan.iter().copied().collect();
        let (turn, left) = segments.pop_front().unwrap_or((0, usize::MAX));
        Sched { m: Mutex::new(State { turn, left, segments, alive: vec![true; n], free: false, ticks: 0, switches: 0, overrun: false }), cv: Condvar::new() }
    }
    fn next(s: &mut State) {
        loop {
            match s.segments.pop_front() {
                Some((p, n)) => {
                    if !s.alive[p] {
                        s.overrun = true; // the plan expected this process to be longer
                        continue;
                    }
                    (s.turn, s.left) = (p, n);
                    return;
                }
                None => {
                    if let Some(p) = s.alive.iter().position(|a| *a) {
                        (s.turn, s.left) = (p, usize::MAX);
                    }
                    return;
                }
            }
        }
    }
    /// Called by the tracer of `id` before each system call: returns when it may be executed.
    fn point(&self, id: usize) {
        let mut s = self.m.lock().unwrap();
        loop {
            if s.free {
                return;
            }
            if s.turn == id {
                if s.left > 0 {
                    s.left -= 1;
                    s.ticks += 1;
                    return;
                }
                s.switches += 1;
                Self::next(&mut s);
                self.cv.notify_all();
                continue;
            }
            let before = s.ticks;
            let (g, t) = self.cv.wait_timeout(s, Duration::from_secs(5)).unwrap();
            s = g;
            // the holder waits for something another process has: let everybody go
            if t.timed_out() && s.ticks == before && s.turn != id {
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn done(&self, id: usize) {
        let mut s = self.m.lock().unwrap();
        s.alive[id] = false;
        s.ticks += 1;
        if s.turn == id {
            if s.left != usize::MAX && s.left > 0 {
                s.overrun = true;
            }
            Self::next(&mut s);
        }
        self.cv.notify_all();
    }
}

/// Run the commands under the plan; `watch` looks at the directory at every point. Returns exit codes and calls made.
fn together(cmds: Vec<Command>, plan: &[(usize, usize)], kill: Option<(usize, usize)>, watch: &(dyn Fn() -> Result<(), String> + Sync)) -> Result<(Vec<Option<i32>>, Vec<Vec<&'static str>>, bool), String> {
    let sched = Sched::new(cmds.len(), plan);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let outs: Vec<Result<ptrace::Outcome, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = cmds
            .into_iter()
            .enumerate()
            .map(|(id, c)| {
                let (sched, bad) = (&sched, &bad);
                sc.spawn(move || {
                    let fault = match kill {
                        Some((p, k)) if p == id => Fault::Kill(k),
                        _ => Fault::None,
                    };
                    let r = ptrace::run(c, fault, |_, _, after| {
                        if after {
                            return;
                        }
                        sched.point(id);
                        if let Err(m) = watch() {
                            bad.lock().unwrap().get_or_insert(m);
                        }
                    });
                    sched.done(id);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("tracer failed".into()))).collect()
    });
    if let Some(m) = bad.into_inner().unwrap() {
        return Err(m);
    }
    let mut codes = vec![];
    let mut calls = vec![];
    for o in outs {
        let o = o?;
        codes.push(o.code);
        calls.push(o.visits.iter().map(|v| v.name).collect());
    }
    let s = sched.m.into_inner().unwrap();
    Ok((codes, calls, s.overrun))
}

fn builder(i: usize, src: &Path, dest: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("@p12").arg(i.to_string()).arg(src).arg(dest).current_dir(dest.parent().unwrap()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}
fn reader(p: &Path, t: &Path, names: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("@p23").arg(p).arg(t).args(names).stdout(Stdio::null()).stderr(Stdio::null());
    c
}
/// The calls that another process can notice or that look at what others do; of the others the first and last.
fn visible(calls: &[&'static str], all: bool) -> Vec<usize> {
    let plain = |n: &str| matches!(n, "read" | "write" | "lseek" | "pread64" | "pwrite64" | "readv" | "writev" | "fstat" | "close");
    let first = calls.iter().position(|n| ptrace::is_write(n));
    let last = calls.iter().rposition(|n| ptrace::is_write(n));
    (0..=calls.len()).filter(|&i| all || i == calls.len() || !plain(calls[i]) || i > 0 && !plain(calls[i - 1]) || Some(i) == first || Some(i) == last).collect()
}
fn listing(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}

struct World {
    src: Vec<(usize, PathBuf)>,
    bytes: std::collections::HashMap<usize, Vec<u8>>,
    names: Vec<String>,
    calls: std::collections::HashMap<usize, Vec<&'static str>>,
    seen: std::collections::HashMap<usize, String>,
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("model_checking");
    ctx.rule("pairs of real processes (two builders on one destination, two builders in one directory, a builder and a reader, a reader and a removal, a killed builder and another) under a scheduler that decides before each system call who goes on: every schedule of up to two preemptions (three among the calls others can notice); the destination is looked at between any two calls, results and remaining files at the end; non-trivial = distinct schedules");
    let mut w = World { src: vec![], bytes: Default::default(), names: vec!["dir\\f0".into(), "dir\\f1".into(), "dir\\f2".into()], calls: Default::default(), seen: Default::default() };
    // builder configurations of P12: every version, sources on disk, external list
    let ids = [0usize, 1, 2, 3, 5, 6];
    ctx.case("alone", || {
        for i in ids {
            let src = ctx.file("src");
            p12::sources(i, &src);
            let d = ctx.file("dir");
            std::fs::create_dir_all(&d).unwrap();
            let (codes, calls, _) = together(vec![builder(i, &src, &d.join("out.mpq"))], &[], None, &|| Ok(()))?;
            if codes != [Some(0)] || listing(&d) != ["out.mpq"] {
                return Err(format!("builder {} alone: {:?}, {:?}", i, codes, listing(&d)));
            }
            w.bytes.insert(i, std::fs::read(d.join("out.mpq")).unwrap());
            w.calls.insert(i, calls[0].clone());
            let t = d.join("transcript");
            let (codes, calls, _) = together(vec![reader(&d.join("out.mpq"), &t, &w.names)], &[], None, &|| Ok(()))?;
            let s = std::fs::read_to_string(&t).unwrap_or_default();
            if codes != [Some(0)] || s.starts_with("not opened") {
                return Err(format!("reader alone on {}: {:?} {}", i, codes, s));
            }
            w.seen.insert(i, s);
            w.calls.insert(100 + i, calls[0].clone());
            w.src.push((i, src));
            std::fs::remove_dir_all(&d).ok();
        }
        Ok(())
    });
    if w.src.len() != ids.len() {
        return;
    }
    let w: &'static World = Box::leak(Box::new(w));
    ctx.note("system_calls_alone", format!("{:?}", { let mut v: Vec<_> = w.calls.iter().map(|(k, c)| (*k, c.len())).collect(); v.sort(); v }));
    let src = |i: usize| &w.src.iter().find(|x| x.0 == i).unwrap().1;
    // a) two builders
    #[derive(Clone)]
    struct Job {
        key: String,
        a: usize,
        b: usize,
        same: bool,
        old: Option<usize>,
        plan: Vec<(usize, usize)>,
        kill: Option<(usize, usize)>,
    }
    let mut jobs: Vec<Job> = vec![];
    let pairs: &[(usize, usize)] = if ctx.thorough { &[(0, 1), (1, 0), (2, 3), (3, 5), (0, 0), (6, 2), (5, 6)] } else { &[(0, 1), (3, 2), (6, 6)] };
    for &(a, b) in pairs {
        for same in [true, false] {
            for old in [None, Some(1)] {
                if old.is_some() && !same {
                    continue;
                }
                let (va, vb) = (visible(&w.calls[&a], ctx.thorough && old.is_none()), visible(&w.calls[&b], ctx.thorough && old.is_none()));
                for &i in &va {
                    for &j in &vb {
                        jobs.push(Job { key: format!("build/{}+{}/{}/{:?}/a{}-b{}", a, b, if same { "same" } else { "beside" }, old, i, j), a, b, same, old, plan: vec![(0, i), (1, j)], kill: None });
                        if i > 0 && i < w.calls[&a].len() {
                            jobs.push(Job { key: format!("build-kill/{}+{}/{}/{:?}/a{}-b{}", a, b, if same { "same" } else { "beside" }, old, i, j), a, b, same, old, plan: vec![(0, i), (1, j)], kill: Some((0, i)) });
                        }
                    }
                }
                // three preemptions among the calls that change the directory
                let dir = |c: &[&'static str]| -> Vec<usize> { (0..c.len()).filter(|&i| matches!(c[i], "open" | "openat" | "creat" | "rename" | "renameat" | "renameat2" | "link" | "linkat" | "unlink" | "unlinkat" | "mkdir" | "truncate" | "ftruncate")).flat_map(|i| [i, i + 1]).collect::<std::collections::BTreeSet<_>>().into_iter().collect() };
                let (da, db) = (dir(&w.calls[&a]), dir(&w.calls[&b]));
                for &i in &da {
                    for &j in &db {
                        for &k in da.iter().filter(|k| **k > i) {
                            jobs.push(Job { key: format!("build/{}+{}/{}/{:?}/a{}-b{}-a{}", a, b, if same { "same" } else { "beside" }, old, i, j, k), a, b, same, old, plan: vec![(0, i), (1, j), (0, k - i), (1, usize::MAX)], kill: None });
                        }
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |j| {
        ctx.case(&j.key, || {
            let d = ctx.file("dir");
            std::fs::create_dir_all(&d).unwrap();
            let (pa, pb) = (d.join("out.mpq"), d.join(if j.same { "out.mpq" } else { "beside.mpq" }));
            if let Some(o) = j.old {
                std::fs::write(&pa, &w.bytes[&o]).unwrap();
            }
            let r = (|| {
                let ok = |p: &Path, which: &[usize]| -> Result<(), String> {
                    match std::fs::read(p) {
                        Ok(b) => {
                            if which.iter().any(|i| w.bytes[i] == b) {
                                Ok(())
                            } else {
                                Err(format!("{} is none of the complete archives ({} bytes)", p.file_name().unwrap().to_string_lossy(), b.len()))
                            }
                        }
                        Err(_) if which.is_empty() => Ok(()),
                        Err(e) => Err(format!("{}: {}", p.file_name().unwrap().to_string_lossy(), e)),
                    }
                };
                let watch = || -> Result<(), String> {
                    let mut wa = vec![j.a];
                    if j.same {
                        wa.push(j.b);
                    }
                    wa.extend(j.old);
                    if j.old.is_some() || pa.exists() {
                        ok(&pa, &wa)?;
                    }
                    if !j.same && pb.exists() {
                        ok(&pb, &[j.b])?;
                    }
                    Ok(())
                };
                let (codes, _, over) = together(vec![builder(j.a, src(j.a), &pa), builder(j.b, src(j.b), &pb)], &j.plan, j.kill, &watch)?;
                if j.kill.is_none() {
                    if codes != [Some(0), Some(0)] {
                        return Err(format!("the builds end with {:?}", codes));
                    }
                    if j.same {
                        ok(&pa, &[j.a, j.b])?;
                    } else {
                        ok(&pa, &[j.a])?;
                        ok(&pb, &[j.b])?;
                    }
                    let want: Vec<&str> = if j.same { vec!["out.mpq"] } else { vec!["beside.mpq", "out.mpq"] };
                    if listing(&d) != want {
                        return Err(format!("left behind: {:?}", listing(&d)));
                    }
                } else {
                    if codes[1] != Some(0) {
                        return Err(format!("a build beside a killed one ends with {:?}", codes[1]));
                    }
                    let either = [j.a, j.b];
                    ok(&pb, if j.same { &either } else { &either[1..] })?;
                }
                ctx.add("schedules", 1);
                if over {
                    ctx.add("shorter_than_planned", 1);
                }
                ctx.distinct(&j.key);
                Ok(())
            })();
            std::fs::remove_dir_all(&d).ok();
            r
        });
    });
    // b) a reader and a builder, a reader and a removal
    #[derive(Clone)]
    struct Read {
        key: String,
        old: Option<usize>,
        b: usize,
        plan: Vec<(usize, usize)>,
        /// instead of a builder: at the reader's call k the file is removed (0), moved away (1), overtaken by another (2)
        act: Option<(usize, u8)>,
    }
    let mut jobs: Vec<Read> = vec![];
    let pairs: &[(Option<usize>, usize)] = if ctx.thorough { &[(Some(0), 1), (Some(1), 2), (Some(2), 3), (Some(3), 0), (Some(5), 6), (None, 2), (None, 3)] } else { &[(Some(2), 3), (Some(3), 0), (None, 2)] };
    for &(old, b) in pairs {
        let rc = &w.calls[&(100 + old.unwrap_or(b))];
        for j in visible(&w.calls[&b], ctx.thorough) {
            for i in 0..=rc.len() {
                if !ctx.thorough && i % 3 != j % 3 && !matches!(rc.get(i), Some(&"openat") | Some(&"open") | Some(&"statx") | Some(&"newfstatat") | Some(&"fstat") | None) {
                    continue;
                }
                jobs.push(Read { key: format!("read/{:?}+{}/r{}-b{}", old, b, i, j), old, b, plan: vec![(0, i), (1, j)], act: None });
                jobs.push(Read { key: format!("read/{:?}+{}/b{}-r{}", old, b, j, i), old, b, plan: vec![(1, j), (0, i), (1, usize::MAX)], act: None });
            }
        }
    }
    for o in ids {
        for act in 0..3u8 {
            for k in 0..w.calls[&(100 + o)].len() {
                jobs.push(Read { key: format!("{}/{}/r{}", ["remove", "move", "replace"][act as usize], o, k), old: Some(o), b: if o == 2 { 3 } else { 2 }, plan: vec![], act: Some((k, act)) });
            }
        }
    }
    ctx.par(&jobs, |j| {
        ctx.case(&j.key, || {
            let d = ctx.file("dir");
            std::fs::create_dir_all(&d).unwrap();
            let p = d.join("out.mpq");
            if let Some(o) = j.old {
                std::fs::write(&p, &w.bytes[&o]).unwrap();
            }
            let t = ctx.file("transcript");
            let r = (|| {
                let mut may: Vec<&str> = vec![];
                let opened;
                if let Some((k, act)) = j.act {
                    let mut o = None;
                    let out = ptrace::run(reader(&p, &t, &w.names), Fault::None, |i, _, after| {
                        if i != k || after {
                            return;
                        }
                        o = Some(match act {
                            0 => std::fs::remove_file(&p),
                            1 => std::fs::rename(&p, d.join("away.mpq")),
                            _ => std::fs::write(d.join("new"), &w.bytes[&j.b]).and_then(|_| std::fs::rename(d.join("new"), &p)),
                        });
                    })?;
                    if out.code != Some(0) {
                        return Err(format!("the reader ends with {:?}", out.code));
                    }
                    if !matches!(o, Some(Ok(()))) {
                        return Err(format!("the reader made fewer calls than before: {:?}", o));
                    }
                    // the first call opens the archive
                    let first = out.visits.iter().position(|v| matches!(v.name, "open" | "openat")).unwrap_or(0);
                    opened = k > first;
                } else {
                    let (codes, _, over) = together(vec![reader(&p, &t, &w.names), builder(j.b, src(j.b), &p)], &j.plan, None, &|| Ok(()))?;
                    if codes != [Some(0), Some(0)] {
                        return Err(format!("reader and builder end with {:?}", codes));
                    }
                    if over {
                        ctx.add("shorter_than_planned", 1);
                    }
                    opened = false;
                    if std::fs::read(&p).ok().as_ref() != Some(&w.bytes[&j.b]) || listing(&d) != ["out.mpq"] {
                        return Err(format!("the build was disturbed: {:?}", listing(&d)));
                    }
                }
                if let Some(o) = j.old {
                    may.push(&w.seen[&o]);
                }
                if !opened {
                    match j.act {
                        Some((_, 0 | 1)) => may.push("not opened"),
                        _ => may.push(&w.seen[&j.b]),
                    }
                    if j.old.is_none() {
                        may.push("not opened");
                    }
                }
                // the path is the same, the directory is not
                let norm = |s: &str| s.lines().map(|l| l.split("path: ").enumerate().map(|(i, x)| if i == 0 { x.to_string() } else { x.split_once(", ").map(|y| y.1.to_string()).unwrap_or_default() }).collect::<Vec<_>>().join("")).collect::<Vec<_>>();
                let got = norm(&std::fs::read_to_string(&t).map_err(|e| e.to_string())?);
                if !may.iter().any(|m| norm(m) == got) {
                    let want = norm(may[0]);
                    let at = got.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| format!("{:.400} / expected {:.400}", a, b)).unwrap_or(format!("{} lines instead of {}", got.len(), want.len()));
                    return Err(format!("the reader saw neither the old nor the new archive: {}", at));
                }
                ctx.add("schedules", 1);
                ctx.distinct(&j.key);
                Ok(())
            })();
            std::fs::remove_dir_all(&d).ok();
            std::fs::remove_file(&t).ok();
            r
        });
    });
    ctx.sample("schedule", || "build/0+1/same/None/a7-b12: builder 0 makes 7 system calls, builder 1 makes 12, builder 0 ends, builder 1 ends".into());
    ctx.assume("system calls are atomic and are the only points where processes interact; switches between calls that only touch an unnamed or private file are explored at the first and last of them (all of them in the thorough tier)");
}
