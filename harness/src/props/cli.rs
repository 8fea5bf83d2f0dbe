//! Running the real command line tool, as an unprivileged user, inside scratch directories.
use crate::engine::*;
use crate::ptrace::{self, Fault};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const NOBODY: u32 = 65534;

pub struct Cli {
    bin: PathBuf,
    home: PathBuf,
}
#[derive(Debug)]
pub struct Out {
    pub code: i32,
    pub out: String,
    pub err: String,
}

pub fn give(p: &Path) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) };
}
/// A directory the tool may write to.
pub fn dir(p: &Path) -> PathBuf {
    std::fs::create_dir_all(p).unwrap();
    give(p);
    p.to_path_buf()
}

impl Cli {
    pub fn new(ctx: &Ctx) -> Cli {
        let src = std::env::var("MC_CLI").expect("MC_CLI");
        let d = ctx.file("bin");
        std::fs::create_dir_all(&d).unwrap();
        let bin = d.join("storm-cli");
        std::fs::copy(src, &bin).expect("the tool");
        std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755)).unwrap();
        let home = dir(&ctx.file("home"));
        Cli { bin, home }
    }
    pub fn run<S: AsRef<OsStr>>(&self, cwd: &Path, args: &[S]) -> Result<Out, String> {
        let o = Command::new(&self.bin)
            .args(args)
            .current_dir(cwd)
            .env_clear()
            .env("HOME", &self.home)
            .env("NO_COLOR", "1")
            .uid(NOBODY)
            .gid(NOBODY)
            .stdin(Stdio::null())
            .output()
            .expect("run the tool");
        let show = || args.iter().map(|a| a.as_ref().to_string_lossy().to_string()).collect::<Vec<_>>().join(" ");
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        match o.status.code() {
            Some(101) => Err(format!("`{}` panicked: {}", show(), err)),
            None => Err(format!("`{}` was ended by signal {:?}: {}", show(), o.status.signal(), err)),
            Some(code) => Ok(Out { code, out: String::from_utf8_lossy(&o.stdout).to_string(), err }),
        }
    }
    /// Run the tool with `f` injected among its system calls after it first opens a path containing `start`.
    pub fn traced(&self, cwd: &Path, args: &[&str], start: &str, f: Fault) -> Result<(Out, ptrace::Outcome), String> {
        let so = cwd.with_extension("stdout");
        let file = std::fs::File::create(&so).unwrap();
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(cwd).env_clear().env("HOME", &self.home).env("NO_COLOR", "1").uid(NOBODY).gid(NOBODY).stdout(file).stderr(Stdio::null());
        let o = ptrace::run_from(c, Some(start), f, |_, _, _| {})?;
        let out = String::from_utf8_lossy(&std::fs::read(&so).unwrap_or_default()).to_string();
        let _ = std::fs::remove_file(&so);
        match o.code {
            Some(101) => Err(format!("`{}` panicked", args.join(" "))),
            None => Err(format!("`{}` was ended by a signal", args.join(" "))),
            Some(code) => Ok((Out { code, out, err: String::new() }, o)),
        }
    }
    /// Repeat a command with every fault at every system call. `fresh` prepares a directory, `judge` is told what
    /// came of it: the fault, whether it has to go unnoticed, the result and the directory.
    pub fn faults(
        &self,
        ctx: &Ctx,
        key: &str,
        args: &[&str],
        start: &str,
        fresh: impl Fn(&Path) + Sync,
        judge: impl Fn(bool, &Out, &Path) -> Result<(), String> + Sync,
    ) {
        let lab = |f: Fault| -> Result<(Out, ptrace::Outcome, PathBuf), String> {
            let d = dir(&ctx.file("f"));
            fresh(&d);
            let (o, t) = self.traced(&d, args, start, f)?;
            Ok((o, t, d))
        };
        let mut plan = vec![];
        ctx.case(&format!("{}/undisturbed", key), || {
            let (o, t, d) = lab(Fault::None)?;
            if t.visits.is_empty() {
                return Err("no system calls seen".into());
            }
            plan = t.visits;
            let r = judge(true, &o, &d);
            let _ = std::fs::remove_dir_all(&d);
            r
        });
        let mut jobs = vec![];
        for (k, v) in plan.iter().enumerate() {
            let n = v.name;
            let mut add = |f| jobs.push((k, n, f));
            if n == "close" {
                continue;
            }
            add(Fault::Errno(k, libc::EIO));
            if ptrace::is_write(n) || n.starts_with("open") || n.starts_with("mkdir") || n.starts_with("rename") {
                add(Fault::Errno(k, libc::ENOSPC));
                add(Fault::Errno(k, libc::EACCES));
            }
            if ptrace::is_write(n) {
                add(Fault::Sticky(k, libc::ENOSPC));
            }
            if matches!(n, "read" | "pread64") {
                add(Fault::StickyRead(k, libc::EIO));
                // (the end of a source file only makes it a shorter source)
                if !args.contains(&"create") {
                    add(Fault::StickyEnd(k));
                }
            }
            if matches!(n, "read" | "write" | "pread64" | "pwrite64") {
                add(Fault::Short(k, 1));
                add(Fault::Short(k, 7));
                add(Fault::Errno(k, libc::EINTR));
            }
        }
        ctx.par(&jobs, |(k, n, f)| {
            ctx.case(&format!("{}/{}@{}/{:?}", key, n, k, f), || {
                let (o, t, d) = lab(*f)?;
                let r = judge(matches!(f, Fault::Short(..) | Fault::Errno(_, libc::EINTR)), &o, &d);
                let _ = std::fs::remove_dir_all(&d);
                if t.hit {
                    ctx.add("faults_delivered", 1);
                    ctx.distinct(&(key, k, *f));
                }
                r.map_err(|e| format!("`{}` with {:?} at {}: {}", args.join(" "), f, n, e))
            });
        });
    }
    pub fn ok<S: AsRef<OsStr>>(&self, cwd: &Path, args: &[S]) -> Result<Out, String> {
        let o = self.run(cwd, args)?;
        if o.code != 0 {
            let show = args.iter().map(|a| a.as_ref().to_string_lossy().to_string()).collect::<Vec<_>>().join(" ");
            return Err(format!("`{}` failed with {}: {}", show, o.code, o.err));
        }
        Ok(o)
    }
}

/// Every file (and directory, as None) below `p`, by path relative to it.
pub fn tree(p: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(base: &Path, p: &Path, m: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let q = e.path();
            let k = q.strip_prefix(base).unwrap().to_string_lossy().to_string();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                m.insert(k, None);
                go(base, &q, m);
            } else {
                m.insert(k, Some(std::fs::read(&q).unwrap_or_default()));
            }
        }
    }
    let mut m = BTreeMap::new();
    go(p, p, &mut m);
    m
}
pub fn files(t: &BTreeMap<String, Option<Vec<u8>>>) -> BTreeMap<String, Vec<u8>> {
    t.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).collect()
}
pub fn tree_diff(got: &BTreeMap<String, Vec<u8>>, want: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{:?} is missing (there are {:?})", k, got.keys().collect::<Vec<_>>())),
            Some(g) if g != v => return Err(format!("{:?} holds {} bytes that differ from the {} expected", k, g.len(), v.len())),
            _ => {}
        }
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => Err(format!("unexpected {:?}", k)),
        None => Ok(()),
    }
}
