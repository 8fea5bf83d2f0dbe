//! P22: I/O faults while reading are survived or reported, never taken for content or absence.
use super::common::*;
use super::p14;
use super::p16::{apply, archives, Op};
use crate::engine::*;
use crate::ptrace::{self, Fault};
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use mopaq::{crypto, header, tables, Archive};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::process::{Command, Stdio};

/// The calls of one session, each made twice.
fn session(names: &[String]) -> Vec<Op> {
    let mut ops = vec![Op::List, Op::Verify, Op::Info];
    for n in names {
        ops.push(Op::Read(n.clone()));
    }
    ops.push(Op::Find(names[0].clone()));
    ops.push(Op::ListAll);
    ops.push(Op::LoadTables);
    ops.push(Op::LoadAttributes);
    for i in [0, 1] {
        ops.push(Op::Attr(i));
    }
    ops.push(Op::ListAllHashes);
    ops.push(Op::Read("(listfile)".into()));
    ops.push(Op::Read("nope".into()));
    ops.iter().flat_map(|o| [o.clone(), o.clone()]).collect()
}
/// What remains of the archive information when an optional table could not be read.
fn essence(a: &mut Archive) -> String {
    match a.get_info() {
        Ok(i) => format!(
            "essence {:?}",
            (i.file_size, i.archive_offset, i.format_version, i.file_count, i.sector_size, i.is_encrypted, i.has_attributes, i.has_listfile, i.user_data_info.map(|u| (u.header_size, u.data_size)), i.md5_status)
        ),
        Err(_) => "error".into(),
    }
}

/// argv: @p22 <archive> <transcript> <name>...
pub fn helper(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let ops = session(&a[3..]);
    let mut out: Vec<String> = vec![];
    ptrace::mark();
    let r = Archive::open(&a[1]);
    match r {
        Ok(mut h) => {
            out.push("open".into());
            for o in &ops {
                out.push(apply(&mut h, o));
                if let Op::Info = o {
                    out.push(essence(&mut h));
                }
            }
        }
        Err(_) => out.push("error".into()),
    }
    ptrace::mark();
    std::fs::write(&a[2], out.join("\n")).unwrap();
    0
}

struct Lab {
    name: String,
    path: Tmp,
    names: Vec<String>,
    want: Vec<String>,
}
impl Lab {
    fn run(&self, ctx: &Ctx, f: Fault) -> Result<(Vec<String>, ptrace::Outcome), String> {
        let t = ctx.file("transcript");
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("@p22").arg(&self.path.0).arg(&t).args(&self.names).stdout(Stdio::null()).stderr(Stdio::null());
        let o = ptrace::run(c, f, |_, _, _| {})?;
        if o.code != Some(0) {
            return Err(format!("{:?}: the session ends abnormally: {:?}", f, o.code));
        }
        let s = std::fs::read_to_string(&t).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(&t);
        Ok((s.split('\n').map(|x| x.to_string()).collect(), o))
    }
    fn label(&self, i: usize) -> String {
        let mut l = vec!["open".to_string()];
        for o in session(&self.names) {
            l.push(format!("{:?}", o));
            if let Op::Info = o {
                l.push("essence".into());
            }
        }
        l.get(i).cloned().unwrap_or_default()
    }
}

/// An I/O error was delivered: is `got` an acceptable answer where `want` is the right one?
fn acceptable(got: &str, want: &str, label: &str) -> bool {
    if got == want || got == "error" {
        return true;
    }
    match label {
        // a signature that cannot be read counts as invalid, never as absent or valid
        "Verify" => want != "None" && got.ends_with("Invalid"),
        // optional tables may be missing: what must hold is in "essence"
        "Info" => {
            let sig = |s: &str| s.split("signature_status: ").nth(1).and_then(|x| x.split(',').next()).unwrap_or("").to_string();
            let (g, w) = (sig(got), sig(want));
            g == w || w != "None" && g.ends_with("Invalid")
        }
        _ => false,
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule("a session of opening an archive and making every reading call twice runs in a traced process; it is repeated with each of its system calls failing, interrupted or shortened, and with every read from it on failing or finding the end of the file; every result must be the undisturbed one (always, for short and interrupted reads) or an error, and after a transient error every later call gives the undisturbed result; the exported table, header and signature readers are run on in-memory readers with a fault at each of their operations; non-trivial = distinct delivered faults");
    handles(ctx);
    blocks(ctx);
    #[cfg(feature = "ffi")]
    c_api(ctx);
    #[cfg(not(feature = "ffi"))]
    ctx.assume("the C API could not be built with the harness: its calls were not judged under read faults");
    ctx.assume("a signature that cannot be read may be reported invalid; optional tables that cannot be read may be reported as failed to load");
}

pub(super) fn set(ctx: &'static Ctx) -> Vec<(String, Vec<u8>, Vec<String>)> {
    let mut v = archives(ctx);
    // an archive holding another one at an aligned position, where a search for the header could find it
    let mut inner = RefWriter::new(0, 0);
    inner.files.push(RefFile::new("one", b"inner".to_vec()));
    inner.files.push(RefFile::new("(listfile)", b"one\r\n".to_vec()));
    let inner = inner.write();
    for at in [512usize, 1024, 4096] {
        let mut w = RefWriter::new(0, 0);
        w.files.push(RefFile::new("pad", vec![0x55; at - 32]));
        w.files.push(RefFile::new("two", inner.clone()));
        w.files.push(RefFile::new("one", b"outer".to_vec()));
        w.files.push(RefFile::new("(listfile)", b"one\r\ntwo\r\n".to_vec()));
        let d = w.write();
        if &d[at..at + 4] == b"MPQ\x1a" {
            v.push((format!("nested-{}", at), d, vec!["one".into(), "two".into()]));
        }
    }
    // strong signature behind the archive (not genuine, so it must stay invalid), and user data before it
    let mut w = RefWriter::new(0, 0);
    w.files.push(RefFile::new("one", content("text", 900, 512)));
    w.files.push(RefFile::new("(listfile)", b"one\r\n".to_vec()));
    let base = w.write();
    let mut d = base.clone();
    d.extend(b"NGIS");
    d.extend(vec![0x5A; 256]);
    v.push(("strong".into(), d, vec!["one".into()]));
    let mut d = b"MPQ\x1b".to_vec();
    d.extend([0, 2, 0, 0, 0, 2, 0, 0, 16, 0, 0, 0]);
    d.resize(512, 7);
    d.extend(&base);
    v.push(("user-data".into(), d, vec!["one".into()]));
    v
}

fn handles(ctx: &'static Ctx) {
    let mut labs: Vec<Lab> = set(ctx).into_iter().map(|(name, d, names)| Lab { name, path: Tmp::of(ctx, &d), names, want: vec![] }).collect();
    // a file beyond 4 GB, found through the high block table
    let mut w = RefWriter::new(1, 0);
    w.files.push(RefFile::new("one", content("text", 900, 512)));
    w.files.push(RefFile::new("(listfile)", b"one\r\n".to_vec()));
    let far = Tmp(ctx.file("far.mpq"));
    let mut o = std::fs::File::create(&far.0).unwrap();
    for (pos, b) in w.write_far(0x1_0000_1000, 0x1_0100_0000) {
        o.seek(SeekFrom::Start(pos)).unwrap();
        o.write_all(&b).unwrap();
    }
    // something else where the file would be without its high bits
    o.seek(SeekFrom::Start(0x1000)).unwrap();
    o.write_all(&vec![0x66; 4096]).unwrap();
    drop(o);
    labs.push(Lab { name: "far".into(), path: far, names: vec!["one".into()], want: vec![] });
    let mut jobs: Vec<(usize, usize, &'static str, Fault)> = vec![];
    for (li, lab) in labs.iter_mut().enumerate() {
        let mut bad = None;
        match lab.run(ctx, Fault::None) {
            Ok((w, o)) => {
                if w[0] != "open" {
                    bad = Some("the undisturbed archive does not open".to_string());
                }
                if lab.name == "strong" && w[3] != "StrongInvalid" {
                    bad = Some(format!("strong signature: {}", w[3]));
                }
                lab.want = w;
                for (k, v) in o.visits.iter().enumerate() {
                    let mut add = |f| jobs.push((li, k, v.name, f));
                    match v.name {
                        "read" | "pread64" => {
                            add(Fault::Errno(k, libc::EIO));
                            add(Fault::Errno(k, libc::EINTR));
                            add(Fault::Short(k, 1));
                            add(Fault::StickyRead(k, libc::EIO));
                            // (a search for the header through 4 GB without data takes too long under trace)
                            if lab.name != "far" {
                                add(Fault::StickyEnd(k));
                            }
                            if ctx.thorough {
                                for n in [2, 3, 5, 15, 100, 511] {
                                    add(Fault::Short(k, n));
                                }
                                for e in [libc::EBADF, libc::EAGAIN, libc::ENOMEM, libc::ESTALE] {
                                    add(Fault::Errno(k, e));
                                }
                            } else {
                                add(Fault::Short(k, 7));
                            }
                        }
                        "lseek" | "fstat" | "statx" | "newfstatat" => add(Fault::Errno(k, libc::EIO)),
                        "open" | "openat" => {
                            add(Fault::Errno(k, libc::EINTR));
                            for e in [libc::EMFILE, libc::EACCES, libc::ENOENT] {
                                add(Fault::Errno(k, e));
                            }
                        }
                        _ => {}
                    }
                }
                ctx.sample(&lab.name, || o.visits.iter().map(|v| v.name).collect::<Vec<_>>().join(" "));
            }
            Err(e) => bad = Some(e),
        }
        let name = lab.name.clone();
        ctx.case(&format!("handle/{}/undisturbed", name), || bad.map_or(Ok(()), Err));
    }
    ctx.note("faults", jobs.len() as u64);
    ctx.par(&jobs, |(li, k, n, f)| {
        let lab = &labs[*li];
        ctx.case(&format!("handle/{}/{}@{}/{:?}", lab.name, n, k, f), || {
            let (got, o) = lab.run(ctx, *f)?;
            if o.hit {
                ctx.distinct(&(li, k, *f));
            }
            let transparent = matches!(f, Fault::Short(..) | Fault::Errno(_, libc::EINTR));
            let sticky = matches!(f, Fault::StickyRead(..) | Fault::StickyEnd(_));
            if got.len() < lab.want.len() && (transparent || got != ["error"]) {
                return Err(format!("the archive does not open or the session is cut: {:?}", got.first()));
            }
            let mut disturbed: Option<String> = None;
            for (i, (g, w)) in got.iter().zip(&lab.want).enumerate() {
                let l = lab.label(i);
                let show = |s: &str| s.chars().take(200).collect::<String>();
                if transparent && g != w {
                    return Err(format!("{} under a short or interrupted {} gives {} instead of {}", l, n, show(g), show(w)));
                }
                if !acceptable(g, w, &l) {
                    return Err(format!("{} after a failed {} gives {} instead of {}", l, n, show(g), show(w)));
                }
                if g != w && !sticky && l != "Info" {
                    if let Some(d) = &disturbed {
                        return Err(format!("{} still gives {} instead of {} after one failed {} during {}", l, show(g), show(w), n, d));
                    }
                    disturbed = Some(l);
                }
            }
            Ok(())
        });
    });
}

#[derive(Clone, Copy, PartialEq, Debug, Hash, Eq)]
enum RF {
    None,
    /// every read delivers at most n bytes
    Slow(usize),
    /// the k-th operation delivers at most n bytes
    Short(usize, usize),
    Interrupted(usize),
    Error(usize),
    /// fails from here on
    Broken(usize),
}
struct Faulty {
    c: Cursor<Vec<u8>>,
    f: RF,
    n: usize,
    ops: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Faulty {
    fn check(&mut self, read: bool) -> io::Result<()> {
        let k = self.n;
        self.n += 1;
        self.ops.set(self.n);
        match self.f {
            RF::Interrupted(x) if x == k && read => Err(io::ErrorKind::Interrupted.into()),
            RF::Error(x) if x == k => Err(io::Error::other("fault")),
            RF::Broken(x) if k >= x => Err(io::Error::other("fault")),
            _ => Ok(()),
        }
    }
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.n;
        self.check(true)?;
        let n = match self.f {
            RF::Slow(m) => b.len().min(m),
            RF::Short(x, m) if x == k => b.len().min(m),
            _ => b.len(),
        };
        self.c.read(&mut b[..n])
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.check(false)?;
        self.c.seek(p)
    }
}

type Block = (String, Vec<u8>, Box<dyn Fn(Faulty) -> String + Sync + Send>);
fn show<T: std::fmt::Debug, E>(x: Result<T, E>) -> String {
    x.map(|t| format!("{:?}", t)).unwrap_or("error".into())
}

fn blocks(ctx: &'static Ctx) {
    let mut all: Vec<Block> = vec![];
    for (name, d, _) in set(ctx) {
        all.push((format!("{}/find_header", name), d.clone(), Box::new(|mut f| show(header::find_header(&mut f)))));
        let Ok(a) = RefArchive::parse(&d) else { continue };
        let base = a.base as u64;
        all.push((
            format!("{}/header", name),
            d.clone(),
            Box::new(move |mut f| {
                if f.c.seek(SeekFrom::Start(base)).is_err() {
                    return "error".into();
                }
                show(header::MpqHeader::read(&mut f))
            }),
        ));
        let t = Tmp::of(ctx, &d);
        let Ok(h) = Archive::open(&t.0) else { continue };
        let hd = h.header().clone();
        let (hp, bp) = (base + hd.get_hash_table_pos(), base + hd.get_block_table_pos());
        let (hs, bs) = (hd.hash_table_size, hd.block_table_size);
        all.push((format!("{}/hash", name), d.clone(), Box::new(move |mut f| show(tables::HashTable::read(&mut f, hp, hs)))));
        all.push((format!("{}/block", name), d.clone(), Box::new(move |mut f| show(tables::BlockTable::read(&mut f, bp, bs)))));
        all.push((format!("{}/hi", name), d.clone(), Box::new(move |mut f| show(tables::HiBlockTable::read(&mut f, bp, bs)))));
        if let (Some(hp), Some(bp), Some(v4)) = (hd.het_table_pos, hd.bet_table_pos, &hd.v4_data) {
            let (hs, bs) = (v4.het_table_size_64, v4.bet_table_size_64);
            let (hk, bk) = (r::hash(b"(hash table)", 3), r::hash(b"(block table)", 3));
            all.push((format!("{}/het", name), d.clone(), Box::new(move |mut f| show(tables::HetTable::read(&mut f, base + hp, hs, hk)))));
            all.push((format!("{}/bet", name), d.clone(), Box::new(move |mut f| show(tables::BetTable::read(&mut f, base + bp, bs, bk)))));
        }
    }
    // digests: ranges around the digest unit, the excluded part everywhere interesting
    let data: Vec<u8> = (0..140_000u32).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
    for (begin, end) in [(0usize, 100usize), (0, 65536), (0, 65537), (512, 131072 + 512), (100, 139_999)] {
        for (xb, xl) in [(begin + 10, 72usize), (65500, 72), (65536, 72), (begin, 1), (end - 5, 72), (end + 10, 3)] {
            let info = crypto::SignatureInfo::new_weak(begin as u64, (end - begin) as u64, xb as u64, xl as u64, vec![]);
            let mut m = data[begin..end].to_vec();
            for i in xb..xb + xl {
                if (begin..end).contains(&i) {
                    m[i - begin] = 0;
                }
            }
            let (good, bad) = (p14::sign(&r::md5(&m)), p14::sign(&r::md5(b"something else")));
            let want = format!("{:?}", r::md5(&m));
            let key = format!("digest/{}-{}/{}+{}", begin, end, xb, xl);
            let i2 = info.clone();
            all.push((
                key.clone(),
                data.clone(),
                Box::new(move |f| {
                    let g = show(crypto::calculate_mpq_hash_md5(f, &i2));
                    if g == want {
                        "right".into()
                    } else if g == "error" {
                        g
                    } else {
                        "wrong digest".into()
                    }
                }),
            ));
            for (w, s) in [(true, good), (false, bad)] {
                let i2 = info.clone();
                all.push((format!("{}/{}", key, w), data.clone(), Box::new(move |f| match crypto::verify_weak_signature_stormlib(f, &s, &i2) {
                    Ok(x) if x == w => "right".into(),
                    Ok(_) => "wrong verdict".into(),
                    Err(_) => "error".into(),
                })));
            }
        }
        // the older form: everything from the current position on
        let size = end - begin;
        for w in [true, false] {
            let s = p14::sign(&r::md5(if w { &data[..size] } else { b"else" }));
            all.push((format!("legacy/{}/{}", size, w), data.clone(), Box::new(move |f| match crypto::verify_weak_signature(f, &s, size as u64) {
                Ok(x) if x == w => "right".into(),
                Ok(_) => "wrong verdict".into(),
                Err(_) => "error".into(),
            })));
        }
        all.push((format!("strong/{}", size), data.clone(), Box::new(move |f| match crypto::verify_strong_signature(f, &[0x5A; 256], size as u64) {
            Ok(false) => "right".into(),
            Ok(true) => "wrong verdict".into(),
            Err(_) => "error".into(),
        })));
    }
    for (at, n) in [(0usize, 0usize), (0, 1), (1, 511), (4095, 2), (9, 9000), (139_999, 1), (100_000, 40_000)] {
        let want = data[at..at + n].to_vec();
        all.push((format!("buffered/{}+{}", at, n), data.clone(), Box::new(move |f| {
            let mut b = mopaq::io::BufferedMpqReader::new(f);
            let mut buf = vec![0x5A; n];
            match mopaq::io::MpqRead::read_at(&mut b, at as u64, &mut buf) {
                Ok(()) if buf == want => "right".into(),
                Ok(()) => "wrong bytes".into(),
                Err(_) => "error".into(),
            }
        })));
    }
    ctx.note("readers", all.len() as u64);
    ctx.par(&all, |(name, d, f)| {
        let ops = std::rc::Rc::new(std::cell::Cell::new(0));
        let go = |rf: RF, at: u64| {
            let mut c = Cursor::new(d.clone());
            c.set_position(at);
            guarded(|| f(Faulty { c, f: rf, n: 0, ops: ops.clone() }))
        };
        let mut want = String::new();
        ctx.case(&format!("block/{}", name), || {
            want = go(RF::None, 0)?;
            if want == "error" || want.starts_with("wrong") {
                return Err(format!("undisturbed: {}", want));
            }
            let total = ops.get();
            // where the reader stood before does not matter to calls that are told where to read
            if !name.starts_with("legacy") && !name.starts_with("strong/") {
                for at in [1, 511, d.len() as u64, d.len() as u64 + 100] {
                    if go(RF::None, at)? != want {
                        return Err(format!("depends on where the reader stood ({})", at));
                    }
                }
            }
            let mut fs = vec![RF::Slow(1000), RF::Slow(7)];
            if d.len() < 20_000 {
                fs.push(RF::Slow(1));
            }
            for k in 0..total {
                fs.extend([RF::Short(k, 1), RF::Short(k, 3), RF::Interrupted(k), RF::Error(k), RF::Broken(k)]);
            }
            for rf in fs {
                let g = go(rf, 0)?;
                let hard = matches!(rf, RF::Error(_) | RF::Broken(_));
                if g != want && !(hard && g == "error") {
                    return Err(format!("{:?} of {} operations: {} instead of {}", rf, total, g.chars().take(200).collect::<String>(), want.chars().take(200).collect::<String>()));
                }
                ctx.add("reader_faults", 1);
                ctx.distinct(&(name, rf));
            }
            Ok(())
        });
    });
}

/// The session through the C API: what each call gives, "error" when it fails.
#[cfg(feature = "ffi")]
fn c_session(path: &str, names: &[String], dest: &str) -> Vec<String> {
    use std::ffi::CString;
    let cs = |s: &str| CString::new(s).unwrap();
    extern "C" fn gather(name: *const std::ffi::c_char, data: *mut std::ffi::c_void) -> bool {
        let v = unsafe { &mut *(data as *mut Vec<String>) };
        v.push(unsafe { std::ffi::CStr::from_ptr(name) }.to_string_lossy().into_owned());
        true
    }
    let mut out: Vec<String> = vec![];
    let ok = |b: bool, s: String| if b { s } else { "error".to_string() };
    let mut a = std::ptr::null_mut();
    if !unsafe { storm::SFileOpenArchive(cs(path).as_ptr(), 0, 0, &mut a) } {
        return vec!["error".into()];
    }
    out.push("open".into());
    let mut names: Vec<String> = names.to_vec();
    names.extend(["(listfile)".into(), "nope".into()]);
    for _ in 0..2 {
        let mut got: Vec<String> = vec![];
        let r = unsafe { storm::SFileEnumFiles(a, std::ptr::null(), std::ptr::null(), Some(gather), &mut got as *mut _ as _) };
        got.sort();
        out.push(ok(r, format!("enum {:?}", got)));
        for n in &names {
            out.push(format!("has {} {}", n, unsafe { storm::SFileHasFile(a, cs(n).as_ptr()) }));
            let mut h = std::ptr::null_mut();
            if unsafe { storm::SFileOpenFileEx(a, cs(n).as_ptr(), 0, &mut h) } {
                let size = unsafe { storm::SFileGetFileSize(h, std::ptr::null_mut()) };
                let mut b = vec![0u8; size as usize + 10];
                let mut got = 0;
                let r = unsafe { storm::SFileReadFile(h, b.as_mut_ptr() as _, b.len() as u32, &mut got, std::ptr::null_mut()) };
                let r2 = unsafe { storm::SFileCloseFile(h) };
                out.push(ok(r && r2, format!("read {} {} {:016x}", n, got, fnv(&b[..got as usize]))));
            } else {
                out.push("error".into());
            }
            let r = unsafe { storm::SFileExtractFile(a, cs(n).as_ptr(), cs(&format!("{}.{}", dest, out.len())).as_ptr(), 0) };
            out.push(ok(r, format!("extract {}", n)));
            for f in [0u32, 1, 2, 4] {
                out.push(ok(unsafe { storm::SFileVerifyFile(a, cs(n).as_ptr(), f) }, format!("verify {} {}", n, f)));
            }
        }
        for f in [0x10u32, 0x20, 0] {
            out.push(ok(unsafe { storm::SFileVerifyArchive(a, f) }, format!("verify archive {:x}", f)));
        }
        for c in [1u32, 2, 3, 4] {
            let mut v = [0u64; 2];
            let mut need = 0;
            let r = unsafe { storm::SFileGetFileInfo(a, c, v.as_mut_ptr() as _, 16, &mut need) };
            out.push(ok(r, format!("info {} {:?} {}", c, v, need)));
        }
    }
    unsafe { storm::SFileCloseArchive(a) };
    out
}
#[cfg(feature = "ffi")]
fn fnv(d: &[u8]) -> u64 {
    d.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

/// argv: @p22c <archive> <transcript> <destination> <name>...
#[cfg(feature = "ffi")]
pub fn helper_c(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    ptrace::mark();
    let mut out = c_session(&a[1], &a[4..], &a[3]);
    ptrace::mark();
    for (i, o) in out.iter_mut().enumerate() {
        let f = format!("{}.{}", a[3], i);
        if o.starts_with("extract") {
            *o += &std::fs::read(&f).map(|d| format!(" {} {:016x}", d.len(), fnv(&d))).unwrap_or(" none".into());
        }
        let _ = std::fs::remove_file(&f);
    }
    std::fs::write(&a[2], out.join("\n")).unwrap();
    0
}

/// The C API in the same way: a call that meets a read error fails or gives the right result.
#[cfg(feature = "ffi")]
fn c_api(ctx: &'static Ctx) {
    let mut sets = set(ctx);
    // checksums of both kinds, an attributes file and a damaged file
    let mut w = RefWriter::new(0, 0);
    for (n, crc) in [("one", true), ("two", false)] {
        let mut f = RefFile::new(n, content("text", 1500, 512));
        (f.crc, f.method) = (crc, 2);
        w.files.push(f);
    }
    w.files.push(RefFile::new("(listfile)", b"one\r\ntwo\r\n".to_vec()));
    let good = w.write();
    let mut d = good.clone();
    let e = {
        let ra = RefArchive::parse(&good).unwrap();
        ra.block[ra.lookup("one", 0).unwrap().block as usize].clone()
    };
    d[(e.pos + e.csize as u64) as usize - 30] ^= 1;
    sets.push(("checksums".into(), good, vec!["one".into(), "two".into()]));
    sets.push(("damaged-one".into(), d, vec!["one".into(), "two".into()]));
    let run = |path: &std::path::Path, names: &[String], f: Fault| -> Result<(Vec<String>, ptrace::Outcome), String> {
        let (t, x) = (ctx.file("transcript"), ctx.file("extracted"));
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("@p22c").arg(path).arg(&t).arg(&x).args(names).stdout(Stdio::null()).stderr(Stdio::null());
        let o = ptrace::run(c, f, |_, _, _| {})?;
        if o.code != Some(0) {
            return Err(format!("{:?}: the session ends abnormally: {:?}", f, o.code));
        }
        let s = std::fs::read_to_string(&t).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(&t);
        Ok((s.split('\n').map(|x| x.to_string()).collect(), o))
    };
    let mut labs: Vec<(String, Tmp, Vec<String>, Vec<String>)> = sets.into_iter().map(|(n, d, names)| (n, Tmp::of(ctx, &d), names, vec![])).collect();
    let mut jobs: Vec<(usize, usize, &'static str, Fault)> = vec![];
    for (li, lab) in labs.iter_mut().enumerate() {
        let mut bad = None;
        match run(&lab.1 .0, &lab.2, Fault::None) {
            Ok((w, o)) => {
                if w[0] != "open" {
                    bad = Some("the undisturbed archive does not open".to_string());
                }
                lab.3 = w;
                for (k, v) in o.visits.iter().enumerate() {
                    let mut add = |f| jobs.push((li, k, v.name, f));
                    match v.name {
                        "read" | "pread64" => {
                            add(Fault::Errno(k, libc::EIO));
                            add(Fault::Errno(k, libc::EINTR));
                            add(Fault::Short(k, 1));
                            if ctx.thorough {
                                add(Fault::Short(k, 7));
                                add(Fault::StickyRead(k, libc::EIO));
                                add(Fault::StickyEnd(k));
                            }
                        }
                        "lseek" | "fstat" | "statx" | "newfstatat" => add(Fault::Errno(k, libc::EIO)),
                        "write" | "pwrite64" => {
                            for e in [libc::EIO, libc::ENOSPC, libc::EINTR] {
                                add(Fault::Errno(k, e));
                            }
                            add(Fault::Short(k, 1));
                        }
                        "open" | "openat" => {
                            for e in [libc::EMFILE, libc::EACCES, libc::EINTR] {
                                add(Fault::Errno(k, e));
                            }
                        }
                        _ => {}
                    }
                }
                let name = lab.0.clone();
                ctx.sample(&format!("c-api {}", name), || o.visits.iter().map(|v| v.name).collect::<Vec<_>>().join(" "));
            }
            Err(e) => bad = Some(e),
        }
        let name = lab.0.clone();
        ctx.case(&format!("c-api/{}/undisturbed", name), || bad.map_or(Ok(()), Err));
    }
    ctx.note("faults in C API sessions", jobs.len() as u64);
    ctx.par(&jobs, |(li, k, n, f)| {
        let (name, path, names, want) = &labs[*li];
        ctx.case(&format!("c-api/{}/{}@{}/{:?}", name, n, k, f), || {
            let (got, o) = run(&path.0, names, *f)?;
            if o.hit {
                ctx.distinct(&("c", li, k, *f));
            }
            let transparent = matches!(f, Fault::Short(..) | Fault::Errno(_, libc::EINTR));
            let sticky = matches!(f, Fault::StickyRead(..) | Fault::StickyEnd(_));
            if got.len() < want.len() && (transparent || got != ["error"]) {
                return Err(format!("the archive does not open or the session is cut: {:?}", got.first()));
            }
            let mut disturbed: Option<String> = None;
            for (g, w) in got.iter().zip(want) {
                if g == w {
                    continue;
                }
                if transparent || g != "error" {
                    return Err(format!("a {} {} makes a call give {:.200} instead of {:.200}", if transparent { "short or interrupted" } else { "failed" }, n, g, w));
                }
                if let Some(d) = &disturbed {
                    if !sticky {
                        return Err(format!("one failed {} makes two calls fail: {:.200} and {:.200}", n, d, w));
                    }
                }
                disturbed = Some(w.clone());
            }
            Ok(())
        });
    });
}
