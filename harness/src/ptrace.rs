//! Run a helper process under ptrace: visit every system call of its measured region,
//! observe the file system at each, and inject one fault.
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

/// Helpers bracket the region under observation with this (invalid) system call.
pub const MARK: i64 = 4242;
pub fn mark() {
    unsafe { libc::syscall(MARK) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    /// the k-th visited call fails with errno, without being executed
    Errno(usize, i32),
    /// from the k-th visited call on, every call of write type fails
    Sticky(usize, i32),
    /// from the k-th visited call on, every call of read type fails
    StickyRead(usize, i32),
    /// from the k-th visited call on, every read finds the end of the file
    StickyEnd(usize),
    /// the k-th visited call transfers at most n bytes
    Short(usize, u64),
    /// the process is killed on entry to the k-th visited call
    Kill(usize),
    /// the process is killed after the k-th visited call was executed
    KillAfter(usize),
}

#[derive(Clone, Debug)]
pub struct Visit {
    pub nr: i64,
    pub name: &'static str,
    pub args: [u64; 6],
}

pub struct Outcome {
    pub visits: Vec<Visit>,
    /// exit code, or None when killed
    pub code: Option<i32>,
    pub hit: bool,
}

pub fn name(nr: i64) -> Option<&'static str> {
    Some(match nr {
        0 => "read",
        1 => "write",
        2 => "open",
        3 => "close",
        4 => "stat",
        5 => "fstat",
        8 => "lseek",
        17 => "pread64",
        18 => "pwrite64",
        19 => "readv",
        20 => "writev",
        40 => "sendfile",
        74 => "fsync",
        75 => "fdatasync",
        76 => "truncate",
        77 => "ftruncate",
        82 => "rename",
        83 => "mkdir",
        84 => "rmdir",
        85 => "creat",
        86 => "link",
        87 => "unlink",
        88 => "symlink",
        90 => "chmod",
        91 => "fchmod",
        217 => "getdents64",
        257 => "openat",
        258 => "mkdirat",
        262 => "newfstatat",
        263 => "unlinkat",
        264 => "renameat",
        265 => "linkat",
        285 => "fallocate",
        316 => "renameat2",
        326 => "copy_file_range",
        332 => "statx",
        _ => return None,
    })
}
pub fn is_write(n: &str) -> bool {
    matches!(n, "write" | "pwrite64" | "writev" | "ftruncate" | "fallocate" | "fsync" | "fdatasync" | "copy_file_range" | "sendfile")
}
pub fn is_read(n: &str) -> bool {
    matches!(n, "read" | "pread64" | "readv" | "lseek")
}

fn wait(pid: i32) -> Result<i32, String> {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::__WALL) };
        if r == pid {
            return Ok(st);
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
            continue;
        }
        return Err(format!("waitpid: {}", std::io::Error::last_os_error()));
    }
}

/// Run `cmd` traced. `at` is called at every visited call (before it runs) and once after each.
pub fn run(cmd: Command, fault: Fault, at: impl FnMut(usize, &Visit, bool)) -> Result<Outcome, String> {
    run_from(cmd, None, fault, at)
}

fn peek(pid: i32, addr: u64) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < 4096 {
        let w = unsafe { libc::ptrace(libc::PTRACE_PEEKDATA, pid, addr + v.len() as u64, 0) };
        for b in w.to_le_bytes() {
            if b == 0 {
                return v;
            }
            v.push(b);
        }
    }
    v
}

/// The same for a command without marks: the region begins where a path that contains `start` is opened. Writes to
/// the standard streams are not visited.
pub fn run_from(mut cmd: Command, start: Option<&str>, fault: Fault, mut at: impl FnMut(usize, &Visit, bool)) -> Result<Outcome, String> {
    cmd.stdin(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().map_err(|e| format!("spawn: {}", e))?;
    let pid = child.id() as i32;
    let mut out = Outcome { visits: vec![], code: None, hit: false };
    let st = wait(pid)?;
    if !libc::WIFSTOPPED(st) {
        return Err("helper did not stop at exec".into());
    }
    unsafe {
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
    }
    let mut sig = 0;
    let mut inside = false;
    let mut entering = true;
    let mut inject: Option<i32> = None;
    let mut cur: Option<usize> = None;
    loop {
        unsafe { libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, sig as libc::c_long) };
        sig = 0;
        let st = wait(pid)?;
        if libc::WIFEXITED(st) {
            out.code = Some(libc::WEXITSTATUS(st));
            break;
        }
        if libc::WIFSIGNALED(st) {
            break;
        }
        let s = libc::WSTOPSIG(st);
        if s != libc::SIGTRAP | 0x80 {
            if s != libc::SIGTRAP {
                sig = s;
            }
            continue;
        }
        let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        unsafe { libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r) };
        if entering {
            entering = false;
            let nr = r.orig_rax as i64;
            if nr == MARK {
                inside = !inside;
                continue;
            }
            cur = None;
            if let (false, Some(p)) = (inside, start) {
                let a = match nr {
                    2 => r.rdi,
                    257 => r.rsi,
                    _ => 0,
                };
                inside = a != 0 && peek(pid, a).windows(p.len()).any(|w| w == p.as_bytes());
            }
            if !inside || start.is_some() && matches!(nr, 1 | 20) && r.rdi < 3 {
                continue;
            }
            let Some(n) = name(nr) else { continue };
            let k = out.visits.len();
            let v = Visit { nr, name: n, args: [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9] };
            at(k, &v, false);
            out.visits.push(v);
            cur = Some(k);
            match fault {
                Fault::Errno(f, e) if f == k => {
                    r.orig_rax = u64::MAX;
                    unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &r) };
                    inject = Some(e);
                    out.hit = true;
                }
                Fault::Sticky(f, e) if k >= f && is_write(n) => {
                    r.orig_rax = u64::MAX;
                    unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &r) };
                    inject = Some(e);
                    out.hit = true;
                }
                Fault::StickyRead(f, e) if k >= f && is_read(n) => {
                    r.orig_rax = u64::MAX;
                    unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &r) };
                    inject = Some(e);
                    out.hit = true;
                }
                Fault::StickyEnd(f) if k >= f && matches!(n, "read" | "pread64") => {
                    r.rdx = 0;
                    unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &r) };
                    out.hit = true;
                }
                Fault::Short(f, m) if f == k => {
                    r.rdx = r.rdx.min(m);
                    unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &r) };
                    out.hit = true;
                }
                Fault::Kill(f) if f == k => {
                    out.hit = true;
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                }
                _ => {}
            }
        } else {
            entering = true;
            if let Some(e) = inject.take() {
                r.rax = (-(e as i64)) as u64;
                unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &r) };
            }
            if let Some(k) = cur.take() {
                let v = out.visits[k].clone();
                at(k, &v, true);
                if fault == Fault::KillAfter(k) {
                    out.hit = true;
                    unsafe { libc::kill(pid, libc::SIGKILL) };
                }
            }
        }
    }
    std::mem::forget(child.stdin.take());
    Ok(out)
}
