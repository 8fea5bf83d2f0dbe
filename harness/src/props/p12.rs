//! P12: building is all-or-nothing at every crash point and under every I/O fault.
use super::common::*;
use crate::engine::*;
use crate::ptrace::{self, Fault};
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::path::Path;
use std::process::{Command, Stdio};

const CONFIGS: usize = 10;

/// Deterministic builder configurations, by index. Sources lie in `src`.
pub(super) fn config(i: usize, src: &Path) -> (ArchiveBuilder, Vec<F>) {
    let v = VERSIONS[i % 4];
    let mut files = vec![];
    let mut b = ArchiveBuilder::new().version(v).block_size(0).generate_crcs(i % 3 == 1);
    b = b.listfile_option(match i {
        3 | 8 => ListfileOption::None,
        5 => ListfileOption::External(src.join("list.txt")),
        _ => ListfileOption::Generate,
    });
    let n = [3usize, 2, 4, 3, 0, 2, 3, 30, 3, 3][i];
    for k in 0..n {
        let f = F::with(
            &format!("dir\\f{}", k),
            content(PATTERNS[(k + i) % 7], [40usize, 700, 3000, 0, 20000][(k + i) % 5], 512),
            [ZLIB, 0, BZIP2][k % 3],
            ENCS[(k + i) % 3],
        );
        files.push(f);
    }
    for (k, f) in files.iter().enumerate() {
        let enc = f.enc != Enc::No;
        if k % 2 == 1 || i == 6 {
            let p = src.join(format!("s{}", k));
            b = if f.enc == Enc::Fix { b.add_file_with_encryption(&p, &f.name, f.method, true, 0) } else { b.add_file_with_options(&p, &f.name, f.method, enc, 0) };
        } else {
            let d = f.data.clone();
            b = if f.enc == Enc::Fix { b.add_file_data_with_encryption(d, &f.name, f.method, true, 0) } else { b.add_file_data_with_options(d, &f.name, f.method, enc, 0) };
        }
    }
    if i == 9 {
        // a build that must fail: a source that does not exist, after several files were written
        b = b.add_file(src.join("missing"), "zz");
    }
    let _ = FormatVersion::V1;
    (b, files)
}

pub(super) fn sources(i: usize, src: &Path) -> Vec<F> {
    std::fs::create_dir_all(src).unwrap();
    let (_, files) = config(i, src);
    let mut lf = String::new();
    for (k, f) in files.iter().enumerate() {
        if k % 2 == 1 || i == 6 {
            std::fs::write(src.join(format!("s{}", k)), &f.data).unwrap();
        }
        lf += &f.name;
        lf.push('\n');
    }
    std::fs::write(src.join("list.txt"), lf).unwrap();
    files
}

/// argv: @p12 <config> <src> <dest>
pub fn helper(a: &[String]) -> i32 {
    let i: usize = a[1].parse().unwrap();
    let (b, _) = config(i, Path::new(&a[2]));
    std::panic::set_hook(Box::new(|_| {}));
    ptrace::mark();
    let r = b.build(&a[3]);
    ptrace::mark();
    match r {
        Ok(()) => 0,
        Err(_) => 10,
    }
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Dest {
    Absent,
    Old,
    New,
    Broken,
}

struct Lab<'a> {
    ctx: &'a Ctx,
    i: usize,
    files: Vec<F>,
    new: Option<Vec<u8>>,
    src: std::path::PathBuf,
    old: Option<Vec<u8>>,
}

impl Lab<'_> {
    fn dest_state(&self, d: &Path) -> Dest {
        let p = d.join("out.mpq");
        let Ok(b) = std::fs::read(&p) else { return Dest::Absent };
        if Some(&b) == self.old.as_ref() {
            return Dest::Old;
        }
        if Some(&b) == self.new.as_ref() {
            return Dest::New;
        }
        // not byte-identical to the undisturbed build: judge by contents
        match Archive::open(&p) {
            Ok(mut a) => {
                if self.i != 9 && check_contents(&mut a, &self.files).is_ok() {
                    Dest::New
                } else {
                    Dest::Broken
                }
            }
            _ => Dest::Broken,
        }
    }
    fn extra(&self, d: &Path) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(d)
            .unwrap()
            .map(|e| e.unwrap().file_name().to_string_lossy().to_string())
            .filter(|n| n != "out.mpq")
            .collect();
        v.sort();
        v
    }
    fn prev(&self) -> Dest {
        if self.old.is_some() {
            Dest::Old
        } else {
            Dest::Absent
        }
    }
    fn fresh(&self) -> std::path::PathBuf {
        let d = self.ctx.file("dir");
        std::fs::create_dir_all(&d).unwrap();
        if let Some(o) = &self.old {
            std::fs::write(d.join("out.mpq"), o).unwrap();
        }
        d
    }
    fn cmd(&self, d: &Path) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("@p12").arg(self.i.to_string()).arg(&self.src).arg(d.join("out.mpq")).current_dir(d).stdout(Stdio::null()).stderr(Stdio::null());
        c
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule("the real builder run in a traced process, once per (configuration, previous destination); the directory is inspected at every system call of the build (crash points), and the build is repeated with each visited call failing (EIO, ENOSPC, EACCES, EINTR), every write and read shortened (each of these runs again inspected at every later system call), the disk full from each write on, and the process killed before and after each call followed by a rebuild");
    let mut labs = vec![];
    for i in 0..CONFIGS {
        if !ctx.thorough && (i == 7 || i == 8) {
            continue;
        }
        for with_old in [false, true] {
            let src = ctx.file("src");
            let files = sources(i, &src);
            let old = with_old.then(|| {
                let mut c = Cfg::new(FormatVersion::V1, 0);
                c.files.push(F::with("previous", b"the previous archive".to_vec(), 0, Enc::No));
                c.build(ctx).map(|t| t.bytes()).unwrap_or_else(|_| b"previous contents".to_vec())
            });
            labs.push(Lab { ctx, i, files, new: None, src, old });
        }
    }
    let labs_m: Vec<std::sync::Mutex<Lab>> = labs.into_iter().map(std::sync::Mutex::new).collect();
    // undisturbed run: crash points
    let plans: std::sync::Mutex<Vec<(usize, usize, &'static str)>> = std::sync::Mutex::new(vec![]);
    let idx: Vec<usize> = (0..labs_m.len()).collect();
    ctx.par(&idx, |&li| {
        let mut lab = labs_m[li].lock().unwrap();
        let i = lab.i;
        let key = format!("c{}/{}", i, if lab.old.is_some() { "replace" } else { "create" });
        ctx.case(&format!("{}/crash-points", key), || {
            // reference result of an untraced build
            let d = lab.fresh();
            let st = lab.cmd(&d).status().map_err(|e| e.to_string())?;
            let want = if i == 9 { 10 } else { 0 };
            if st.code() != Some(want) {
                return Err(format!("undisturbed build exits with {:?}", st.code()));
            }
            if i != 9 {
                let b = std::fs::read(d.join("out.mpq")).map_err(|e| format!("no destination: {}", e))?;
                let mut a = Archive::open(d.join("out.mpq")).map_err(|e| format!("open: {}", e))?;
                check_contents(&mut a, &lab.files)?;
                lab.new = Some(b);
            } else if lab.dest_state(&d) != lab.prev() {
                return Err("a failed build changed the destination".into());
            }
            if !lab.extra(&d).is_empty() {
                return Err(format!("left behind: {:?}", lab.extra(&d)));
            }
            std::fs::remove_dir_all(&d).ok();
            // traced
            let d = lab.fresh();
            let mut bad: Option<String> = None;
            let mut seen_new = false;
            let mut points = 0u64;
            let o = ptrace::run(lab.cmd(&d), Fault::None, |k, v, after| {
                points += 1;
                let s = lab.dest_state(&d);
                if s == Dest::New {
                    seen_new = true;
                }
                let ok = if seen_new { s == Dest::New } else { s == lab.prev() };
                if !ok && bad.is_none() {
                    bad = Some(format!("at system call {} ({}{}) the destination is {:?}", k, v.name, if after { ", after" } else { "" }, s));
                }
                if lab.extra(&d).len() > 1 && bad.is_none() {
                    bad = Some(format!("more than one temporary file: {:?}", lab.extra(&d)));
                }
            })?;
            ctx.add("crash_points", points);
            if let Some(b) = bad {
                return Err(b);
            }
            if o.code != Some(want) {
                return Err(format!("traced build exits with {:?}", o.code));
            }
            let mut p = plans.lock().unwrap();
            for (k, v) in o.visits.iter().enumerate() {
                p.push((li, k, v.name));
                ctx.distinct(&(i, k, v.name));
            }
            ctx.sample(&key, || o.visits.iter().map(|v| v.name).collect::<Vec<_>>().join(" "));
            std::fs::remove_dir_all(&d).ok();
            Ok(())
        });
    });
    let labs: Vec<Lab> = labs_m.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let mut jobs: Vec<(usize, usize, &'static str, Fault)> = vec![];
    for (li, k, n) in plans.into_inner().unwrap() {
        let errs: &[i32] = match n {
            "write" | "pwrite64" | "writev" | "ftruncate" | "fallocate" => &[libc::EIO, libc::ENOSPC],
            "open" | "openat" | "creat" => &[libc::EACCES, libc::EMFILE, libc::ENOSPC],
            "rename" | "renameat" | "renameat2" | "link" | "linkat" => &[libc::EIO, libc::EACCES, libc::EXDEV],
            _ => &[libc::EIO],
        };
        for &e in errs {
            jobs.push((li, k, n, Fault::Errno(k, e)));
        }
        if matches!(n, "write" | "read" | "openat" | "open" | "pwrite64") {
            jobs.push((li, k, n, Fault::Errno(k, libc::EINTR)));
        }
        if matches!(n, "write" | "read" | "pwrite64") {
            jobs.push((li, k, n, Fault::Short(k, 1)));
            jobs.push((li, k, n, Fault::Short(k, 7)));
        }
        if ptrace::is_write(n) {
            jobs.push((li, k, n, Fault::Sticky(k, libc::ENOSPC)));
        }
        jobs.push((li, k, n, Fault::Kill(k)));
        jobs.push((li, k, n, Fault::KillAfter(k)));
    }
    ctx.note("faults", jobs.len() as u64);
    ctx.par(&jobs, |(li, k, n, f)| {
        let lab = &labs[*li];
        let key = format!("c{}/{}/{}@{}/{:?}", lab.i, if lab.old.is_some() { "replace" } else { "create" }, n, k, f);
        ctx.case(&key, || {
            let d = lab.fresh();
            // every system call of the disturbed run is a crash point, too
            let watch = !matches!(f, Fault::Kill(_) | Fault::KillAfter(_));
            let mut bad: Option<String> = None;
            let mut seen_new = false;
            let mut points = 0u64;
            let o = ptrace::run(lab.cmd(&d), *f, |j, v, after| {
                if !watch || j < *k {
                    return;
                }
                points += 1;
                let s = lab.dest_state(&d);
                seen_new |= s == Dest::New;
                let ok = if seen_new { s == Dest::New } else { s == lab.prev() };
                if !ok && bad.is_none() {
                    bad = Some(format!("after the fault, at system call {} ({}{}), the destination is {:?}", j, v.name, if after { ", after" } else { "" }, s));
                }
            })?;
            ctx.add("crash_points_after_fault", points);
            if let Some(b) = bad {
                std::fs::remove_dir_all(&d).ok();
                return Err(b);
            }
            let s = lab.dest_state(&d);
            let extra = lab.extra(&d);
            let r = (|| {
                match f {
                    Fault::Kill(_) | Fault::KillAfter(_) => {
                        if s != lab.prev() && s != Dest::New {
                            return Err(format!("killed: the destination is {:?}", s));
                        }
                        // recovery: the same build again, on what the crash left
                        let st = lab.cmd(&d).status().map_err(|e| e.to_string())?;
                        let s = lab.dest_state(&d);
                        match (lab.i, st.code(), s) {
                            (9, Some(10), s) if s == lab.prev() => {}
                            (_, Some(0), Dest::New) => {}
                            x => return Err(format!("rebuilding after the crash: {:?}", x)),
                        }
                    }
                    Fault::Short(..) | Fault::Errno(_, libc::EINTR) => {
                        let want = if lab.i == 9 { Some(10) } else { Some(0) };
                        if o.code != want {
                            return Err(format!("a short or interrupted {} makes the build end with {:?}", n, o.code));
                        }
                        if lab.i != 9 && s != Dest::New || lab.i == 9 && s != lab.prev() {
                            return Err(format!("the destination is {:?}", s));
                        }
                        if !extra.is_empty() {
                            return Err(format!("left behind: {:?}", extra));
                        }
                    }
                    _ => {
                        let clean = extra.is_empty() || (n.starts_with("unlink") && extra.len() == 1);
                        match o.code {
                            Some(0) => {
                                if s != Dest::New {
                                    return Err(format!("build reports success, but the destination is {:?}", s));
                                }
                            }
                            Some(10) => {
                                if s != lab.prev() {
                                    return Err(format!("build reports failure, but the destination is {:?} (was {:?})", s, lab.prev()));
                                }
                            }
                            c => return Err(format!("build ends abnormally: {:?}", c)),
                        }
                        if !clean {
                            return Err(format!("left behind: {:?}", extra));
                        }
                    }
                }
                Ok(())
            })();
            std::fs::remove_dir_all(&d).ok();
            if o.hit {
                ctx.add("faults_delivered", 1);
                ctx.distinct(&key);
            }
            r
        });
    });
    for l in &labs {
        std::fs::remove_dir_all(&l.src).ok();
    }
    ctx.assume("a crash is the end of the process between two system calls; loss of unflushed page cache (power failure) is not modelled, because the builder does not promise durability");
}
