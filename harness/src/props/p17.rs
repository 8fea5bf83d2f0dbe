//! P17: the C API behaves like its model under every sequence of calls.
use super::ffi::*;
use crate::engine::*;
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::Ordering;

const A0: H = H::V(0);
const A1: H = H::V(1);
const F0: H = H::V(2);
const F1: H = H::V(3);

/// Calls that do not change what handles mean: made in every state.
fn probes() -> Vec<Op> {
    let mut v = vec![];
    let hs = [A0, A1, F0, F1, H::Null, H::Bogus];
    for h in hs {
        v.extend([Op::Size(h, true), Op::Size(h, false), Op::FileName(h, false), Op::ReadNull(h), Op::FileName(h, true), Op::EnumNull(h)]);
        v.extend([Op::Read(h, 0, true), Op::Seek(h, 0, None, 1), Op::Seek(h, 0, Some(0), 1), Op::Seek(h, 0, None, 3), Op::Seek(h, -1, None, 0), Op::Seek(h, -1, Some(-1), 0), Op::Seek(h, i32::MIN, None, 2), Op::Seek(h, 0, Some(i32::MIN), 1)]);
        for n in [Some("a.txt"), Some("A.TXT"), Some("dir/B.bin"), Some("nope"), Some(""), None] {
            v.push(Op::Has(h, n));
        }
        for c in 0..13 {
            for s in [0, 3, 4, 7, 8, 16] {
                v.push(Op::Info(h, c, s));
            }
        }
        v.extend([Op::ArchName(h, 0), Op::ArchName(h, 1), Op::ArchName(h, 300), Op::ArchNameFit(h, 0), Op::ArchNameFit(h, -1), Op::ArchNameFit(h, 1)]);
        for m in [None, Some("*")] {
            for c in [Cb::All, Cb::Stop, Cb::Reenter] {
                v.push(Op::Enum(h, m, c));
            }
        }
        v.extend([Op::OpenFile(h, None, Some(3)), Op::OpenFile(h, Some("a.txt"), None), Op::OpenFile(h, Some("nope"), Some(3))]);
        v.extend([Op::GetLocale, Op::SetErr(77), Op::GetLocale, Op::SetErr(0)]);
        for n in ["a.txt", "nope"] {
            v.push(Op::Extract(h, n));
            for f in [0, 1, 2, 4, 7, 8, 0x10, 0xFF] {
                v.push(Op::VerifyFile(h, n, f));
            }
        }
        for f in [0, 1, 0x10, 0x20, 0x30, 0xFF] {
            v.push(Op::VerifyArchive(h, f));
        }
    }
    for s in [Src::Junk, Src::Missing, Src::NullName, Src::NullOut] {
        v.push(Op::OpenArchive(s, 0));
    }
    v
}

/// Calls that move from state to state.
fn moves() -> Vec<Op> {
    let mut v = vec![
        Op::OpenArchive(Src::Arch(0), 0),
        Op::OpenArchive(Src::Arch(0), 1),
        Op::OpenArchive(Src::Arch(1), 1),
        Op::SetLocale(0x409),
        Op::SetLocale(0),
    ];
    for h in [A0, A1, F0, F1, H::Null, H::Bogus] {
        v.push(Op::CloseArchive(h));
        v.push(Op::CloseFile(h));
    }
    for (h, n, o) in [(A0, "a.txt", 2), (A0, "DIR/b.BIN", 2), (A1, "a.txt", 2), (A0, "a.txt", 3), (A1, "a.txt", 3), (A0, "empty", 3), (A1, "ok.txt", 3), (A1, "sub\\damaged.bin", 3), (F0, "a.txt", 3)] {
        v.push(Op::OpenFile(h, Some(n), Some(o)));
    }
    for h in [F0, F1] {
        v.extend([Op::Read(h, 3, true), Op::Read(h, u32::MAX, true), Op::Read(h, 4, false)]);
        v.extend([Op::Seek(h, 2, None, 0), Op::Seek(h, -3, None, 1), Op::Seek(h, -1, Some(-1), 2), Op::Seek(h, 5, Some(0), 1), Op::Seek(h, 1, Some(1), 0), Op::Seek(h, i32::MAX, None, 1), Op::Seek(h, -1, Some(i32::MAX), 1)]);
    }
    v
}
/// Would the call overwrite a variable that holds a live handle?
fn overwrites(m: &Model, op: &Op) -> bool {
    match op {
        Op::OpenArchive(Src::Arch(_), v) => m.live(*v),
        Op::OpenFile(_, Some(_), Some(v)) => m.live(*v),
        _ => false,
    }
}

fn play(fx: &Fixture, r: &mut Real, m: &mut Model, ops: &[Op]) -> Result<(), String> {
    for (i, op) in ops.iter().enumerate() {
        let w = m.step(fx, 0, op);
        let g = r.step(fx, op).map_err(|e| format!("{} | then {:?}: {}", describe(&ops[..i]), op, e))?;
        if g != w {
            return Err(format!("after [{}], {:?} gave {:?} instead of {:?}", describe(&ops[..i]), op, show(&g), show(&w)));
        }
    }
    Ok(())
}
fn show(r: &Res) -> String {
    format!("{{return {:#x}, output {:02x?}, last error {}}}", r.ret, &r.out[..r.out.len().min(24)], r.err)
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("model_checking");
    ctx.rule("breadth-first search over the states of a model of the C API (two archive and two file handle variables; live, closed and unset), every state's shortest history replayed on the real API followed by every probe call, and every transition replayed with a full probe; plus all pairs of calls of the whole alphabet after representative histories; non-trivial = distinct model states and transitions");
    let dir = ctx.file("fx");
    std::fs::create_dir_all(&dir).unwrap();
    let fx: &'static Fixture = Box::leak(Box::new(fixture(&dir)));
    let work = |k: &str| {
        let p = ctx.file(k);
        std::fs::create_dir_all(&p).unwrap();
        p.to_str().unwrap().to_string()
    };
    let sc = work("warm");
    ctx.case("warm-up", || warm_up(fx, &sc));
    let depth = if ctx.thorough { 9 } else { 6 };
    let mv = moves();
    let pr = probes();
    // model search
    let init = Model::default();
    let mut seen = HashSet::new();
    seen.insert(init.canon());
    let mut q = VecDeque::from([(init, Vec::<Op>::new())]);
    let mut states: Vec<(Vec<Op>, Vec<Op>)> = vec![]; // history, enabled moves
    let cap = if ctx.thorough { 400_000 } else { 30_000 };
    while let Some((m, h)) = q.pop_front() {
        let mut en = vec![];
        for op in &mv {
            if overwrites(&m, op) {
                continue;
            }
            en.push(*op);
            if h.len() < depth {
                let mut n = m.clone();
                n.step(fx, 0, op);
                if seen.len() < cap && seen.insert(n.canon()) {
                    let mut h2 = h.clone();
                    h2.push(*op);
                    q.push_back((n, h2));
                }
            }
        }
        states.push((h, en));
    }
    ctx.states.store(states.len() as u64, Ordering::Relaxed);
    ctx.note("depth", depth as u64);
    ctx.note("alphabet", (mv.len() + pr.len()) as u64);
    ctx.note("complete_to_depth", states.len() < cap);
    let light: Vec<Op> = vec![
        Op::Size(F0, true), Op::Info(F0, 10, 8), Op::Read(F0, 2, true), Op::Size(F1, false), Op::Info(F1, 10, 8), Op::Read(F1, 2, true),
        Op::Has(A0, Some("a.txt")), Op::Has(A1, Some("a.txt")), Op::Info(A0, 1, 8), Op::Info(A1, 1, 8), Op::GetLocale,
    ];
    let chunk = 64;
    ctx.par_range(states.len().div_ceil(chunk), |c| {
        let sc = work("s");
        for (h, en) in &states[c * chunk..((c + 1) * chunk).min(states.len())] {
            ctx.case(&format!("state/{}", describe(h)), || {
                let mut r = Real::new(sc.clone());
                let mut m = Model::default();
                storm::SFileSetLocale(0);
                storm::SFileSetLastError(0);
                let mut all = h.clone();
                if h.len() <= 4 || ctx.thorough {
                    all.extend(&pr);
                } else {
                    all.extend(&light);
                }
                let x = play(fx, &mut r, &mut m, &all);
                r.cleanup();
                x?;
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.distinct(&m.canon());
                for op in en {
                    let mut r = Real::new(sc.clone());
                    let mut m = Model::default();
                    storm::SFileSetLocale(0);
                    storm::SFileSetLastError(0);
                    let mut all = h.clone();
                    all.push(*op);
                    all.extend(&light);
                    let x = play(fx, &mut r, &mut m, &all);
                    r.cleanup();
                    x?;
                    ctx.transitions.fetch_add(1, Ordering::Relaxed);
                    ctx.traces.fetch_add(1, Ordering::Relaxed);
                    ctx.distinct(&(h, op));
                }
                ctx.sample("state", || format!("after [{}]: {} calls enabled", describe(h), en.len()));
                Ok(())
            });
        }
        let _ = std::fs::remove_dir_all(&sc);
    });
    // all pairs of calls of the whole alphabet, after representative histories
    let hist: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::OpenArchive(Src::Arch(0), 0)],
        vec![Op::OpenArchive(Src::Arch(0), 0), Op::OpenArchive(Src::Arch(1), 1), Op::OpenFile(A0, Some("a.txt"), Some(2)), Op::OpenFile(A1, Some("ok.txt"), Some(3)), Op::Read(F0, 3, true)],
        vec![Op::OpenArchive(Src::Arch(0), 0), Op::OpenFile(A0, Some("Dir\\b.bin"), Some(2)), Op::CloseArchive(A0), Op::OpenArchive(Src::Arch(1), 0)],
    ];
    let mut al: Vec<Op> = mv.clone();
    al.extend(pr.iter().filter(|o| !matches!(o, Op::Info(_, _, s) if *s != 8)));
    ctx.par_range(hist.len() * al.len(), |j| {
        let (h, a) = (&hist[j / al.len()], al[j % al.len()]);
        let sc = work("p");
        ctx.case(&format!("pair/{}/{:?}", j / al.len(), a), || {
            for b in &al {
                if matches!(b, Op::Extract(..)) && !ctx.thorough {
                    continue;
                }
                let mut r = Real::new(sc.clone());
                let mut m = Model::default();
                storm::SFileSetLocale(0);
                storm::SFileSetLastError(0);
                let mut ops = h.clone();
                ops.extend([a, *b]);
                ops.extend(&light);
                let mut probe = m.clone();
                let mut bad = false;
                for o in &ops {
                    bad |= overwrites(&probe, o);
                    probe.step(fx, 0, o);
                }
                if bad {
                    continue;
                }
                let x = play(fx, &mut r, &mut m, &ops);
                r.cleanup();
                x?;
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.add("pairs", 1);
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&sc);
    });
    // verification, enumeration, extraction on every fixture archive
    for k in 0..fx.arch.len() {
        let sc = work("k");
        ctx.case(&format!("archive/{}", k), || {
            let mut r = Real::new(sc.clone());
            r.over = true;
            let mut m = Model::default();
            storm::SFileSetLocale(0);
            let mut ops = vec![Op::OpenArchive(Src::Arch(k), 0)];
            for f in 0..256 {
                ops.push(Op::VerifyArchive(A0, f));
            }
            for f in &fx.arch[k].files {
                let n: &'static str = Box::leak(f.name.clone().into_boxed_str());
                for fl in 0..256 {
                    ops.push(Op::VerifyFile(A0, n, fl));
                }
                ops.extend([Op::Has(A0, Some(n)), Op::Extract(A0, n), Op::OpenFile(A0, Some(n), Some(2)), Op::Read(F0, 600, true), Op::Read(F0, 600, true), Op::Read(F0, 4000, true), Op::Read(F0, 1, true), Op::CloseFile(F0)]);
            }
            for c in [Cb::All, Cb::Stop, Cb::Reenter] {
                ops.push(Op::Enum(A0, None, c));
                ops.push(Op::Enum(A0, Some("*"), c));
            }
            for c in 0..16 {
                for s in 0..20 {
                    ops.push(Op::Info(A0, c, s));
                }
            }
            let x = play(fx, &mut r, &mut m, &ops);
            r.cleanup();
            ctx.add("archive_calls", ops.len() as u64);
            x
        });
    }
    // archives that take each other's place at one path
    let td = ctx.file("tw");
    std::fs::create_dir_all(&td).unwrap();
    let tw: &'static Fixture = Box::leak(Box::new(twins(&td)));
    let ops: Vec<Op> = vec![
        Op::OpenArchive(Src::Arch(0), 0),
        Op::OpenArchive(Src::Arch(1), 1),
        Op::OpenArchive(Src::Arch(2), 0),
        Op::OpenFile(A0, Some("a.txt"), Some(2)),
        Op::OpenFile(A1, Some("a.txt"), Some(3)),
        Op::OpenFile(A1, Some("DIR/b.bin"), Some(2)),
        Op::Read(F0, 2000, true),
        Op::Read(F1, 2, true),
        Op::CloseArchive(A0),
        Op::CloseArchive(A1),
        Op::CloseFile(F0),
    ];
    let tail = [
        Op::Has(A0, Some("only0")), Op::Has(A1, Some("only0")), Op::Has(A1, Some("only1")), Op::Size(F0, false), Op::Size(F1, false), Op::Read(F0, 5, true), Op::Read(F1, 5, true),
        Op::Info(A0, 1, 8), Op::Info(A1, 1, 8), Op::Enum(A0, Some("*"), Cb::All), Op::Enum(A1, Some("*"), Cb::All), Op::VerifyFile(A0, "Dir\\b.bin", 0), Op::OpenFile(A0, Some("Dir\\b.bin"), Some(4)), Op::Read(H::V(4), 1400, true),
        Op::OpenFile(A1, Some("Dir\\b.bin"), Some(5)), Op::Read(H::V(5), 1400, true),
    ];
    let len = if ctx.thorough { 6 } else { 5 };
    ctx.par_range(ops.len() * ops.len(), |j| {
        let sc = work("x");
        ctx.case(&format!("exchange/{:?}/{:?}", ops[j / ops.len()], ops[j % ops.len()]), || {
            'seqs: for code in 0..ops.len().pow(len - 2) {
                let mut seq = vec![ops[j / ops.len()], ops[j % ops.len()]];
                let mut c = code;
                for _ in 2..len {
                    seq.push(ops[c % ops.len()]);
                    c /= ops.len();
                }
                let mut probe = Model::default();
                for o in &seq {
                    if overwrites(&probe, o) {
                        continue 'seqs;
                    }
                    probe.step(tw, 0, o);
                }
                seq.extend(&tail);
                let mut r = Real::new(sc.clone());
                r.via = Some(format!("{}/place.mpq", sc));
                let mut m = Model::default();
                storm::SFileSetLocale(0);
                storm::SFileSetLastError(0);
                let x = play(tw, &mut r, &mut m, &seq);
                r.cleanup();
                x?;
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.add("exchange_histories", 1);
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&sc);
    });
    // creation
    for exists in 0..3u8 {
        for disp in 0..8 {
            for hs in [0u32, 1, 2, 3, 4, 5, 8, 16, 1000, 1024, u32::MAX] {
                let sc = work("c");
                ctx.case(&format!("create/{}/{}/{}", exists, disp, hs), || {
                    let mut r = Real::new(sc.clone());
                    let mut m = Model::default();
                    storm::SFileSetLocale(0);
                    ctx.distinct(&("create", exists, disp, hs));
                    let x = play(fx, &mut r, &mut m, &[Op::Create(exists, disp, hs, 0)]);
                    r.cleanup();
                    x
                });
                let _ = std::fs::remove_dir_all(&sc);
            }
        }
    }
    // every position of a file reached by every kind of seek, and read to the end
    let sc = work("seek");
    ctx.case("seek/all", || {
        let mut r = Real::new(sc.clone());
        let mut m = Model::default();
        storm::SFileSetLocale(0);
        play(fx, &mut r, &mut m, &[Op::OpenArchive(Src::Arch(0), 0), Op::OpenFile(A0, Some("a.txt"), Some(2))])?;
        let offs = [0i32, 1, 2, 9, 10, 11, 100, -1, -2, -9, -10, -11, i32::MAX, i32::MIN];
        for start in 0..=10 {
            for &lo in &offs {
                for hi in [None, Some(0), Some(-1), Some(1), Some(i32::MAX), Some(i32::MIN)] {
                    for me in 0..5 {
                        play(fx, &mut r, &mut m, &[Op::Seek(F0, start, None, 0), Op::Seek(F0, lo, hi, me), Op::Info(F0, 10, 8), Op::Read(F0, 100, true)])
                            .map_err(|e| format!("from {}: {}", start, e))?;
                        ctx.distinct(&("seek", start, lo, hi, me));
                    }
                }
            }
        }
        r.cleanup();
        Ok(())
    });
    scale(ctx, &work("scale"));
    strings(ctx, &work("strings"));
    destinations(ctx, &work("destinations"));
    listings(ctx, &work("listings"));
    ctx.assume("masks other than '*' and '*text*' are not judged (the API documents simplified matching); buffers are aligned for the values they receive");
}

extern "C" fn gather(name: *const std::ffi::c_char, data: *mut std::ffi::c_void) -> bool {
    let v = unsafe { &mut *(data as *mut Vec<String>) };
    v.push(unsafe { std::ffi::CStr::from_ptr(name) }.to_string_lossy().into_owned());
    true
}

/// Many handles, many files, large files and long names: nothing changes beyond some number of them.
fn scale(ctx: &'static Ctx, dir: &str) {
    use std::ffi::CString;
    let cs = |s: &str| CString::new(s).unwrap();
    let nfiles = 1500usize;
    let big = |k: usize| noise(k as u64, 65_536 * (k + 1) + 7);
    let long = |l: usize| -> String { (0..l).map(|i| if i % 50 == 49 { '\\' } else { (b'a' + (i * 7 % 26) as u8) as char }).collect() };
    let lens = [100usize, 255, 256, 259, 260, 261, 511, 512, 1023, 1024, 4000, 70_000];
    let mut files: Vec<(String, Vec<u8>)> = (0..nfiles).map(|i| (format!("Many\\f{}", i), format!("contents of {}", i).into_bytes())).collect();
    files.extend((0..6).map(|k| (format!("big{}", k), big(k))));
    files.push(("huge".into(), noise(99, 20_000_003)));
    files.extend(lens.iter().map(|&l| (long(l), vec![l as u8; 9])));
    let path = format!("{}/scale.mpq", dir);
    let mut b = mopaq::ArchiveBuilder::new().version(mopaq::FormatVersion::V2).block_size(3);
    for (i, (n, d)) in files.iter().enumerate() {
        b = b.add_file_data_with_options(d.clone(), n, if i % 2 == 0 { super::common::ZLIB } else { 0 }, i % 5 == 1, 0);
    }
    if let Err(e) = b.build(&path) {
        return ctx.case("scale/build", || Err(e.to_string()));
    }
    let open = |p: &str| -> Result<usize, String> {
        let mut h = std::ptr::null_mut();
        match unsafe { storm::SFileOpenArchive(cs(p).as_ptr(), 0, 0, &mut h) } {
            true => Ok(h as usize),
            false => Err(format!("opening the archive failed with {}", storm::SFileGetLastError())),
        }
    };
    let openf = |a: usize, n: &str| -> Result<usize, String> {
        let mut h = std::ptr::null_mut();
        match unsafe { storm::SFileOpenFileEx(a as _, cs(n).as_ptr(), 0, &mut h) } {
            true => Ok(h as usize),
            false => Err(format!("opening {:.60} failed with {}", n, storm::SFileGetLastError())),
        }
    };
    let read = |h: usize, n: usize| -> Option<Vec<u8>> {
        let mut v = vec![0xC7u8; n + 8];
        let mut got = 0u32;
        let ok = unsafe { storm::SFileReadFile(h as _, v.as_mut_ptr() as _, n as u32, &mut got, std::ptr::null_mut()) };
        (ok && got as usize <= n && v[got as usize..].iter().all(|x| *x == 0xC7)).then(|| v[..got as usize].to_vec())
    };
    // every file open at once through two archive handles, read in turns
    ctx.case("scale/handles", || {
        let arcs = [open(&path)?, open(&path)?];
        let mut hs: Vec<(usize, usize)> = vec![];
        for (i, (n, _)) in files.iter().enumerate().filter(|x| x.1 .0 != "huge") {
            hs.push((openf(arcs[i % 2], n)?, i));
        }
        let mut all: Vec<usize> = hs.iter().map(|x| x.0).chain(arcs).collect();
        all.sort();
        all.dedup();
        if all.len() != hs.len() + 2 {
            return Err("the same handle was given out twice".into());
        }
        for round in 0..3 {
            for &(h, i) in &hs {
                let d = &files[i].1;
                let lo = (4 * round).min(d.len());
                let want = &d[lo..(lo + 4).min(d.len())];
                if read(h, 4).as_deref() != Some(want) {
                    return Err(format!("round {}: handle of {:.60} does not read its own file", round, files[i].0));
                }
            }
        }
        // close every third file, then the first archive
        for (k, &(h, _)) in hs.iter().enumerate() {
            if k % 3 == 0 && !storm::SFileCloseFile(h as _) {
                return Err(format!("closing file handle {} failed", k));
            }
        }
        if !storm::SFileCloseArchive(arcs[0] as _) {
            return Err("closing the archive failed".into());
        }
        for (k, &(h, i)) in hs.iter().enumerate() {
            let alive = k % 3 != 0 && i % 2 == 1;
            let got = read(h, 2);
            let d = &files[i].1;
            let want = &d[12.min(d.len())..14.min(d.len())];
            if got.as_deref() != alive.then_some(want) {
                return Err(format!("file handle {} of {} ({}): {:?}", k, hs.len(), if alive { "open" } else { "closed" }, got.map(|x| x.len())));
            }
        }
        if !storm::SFileCloseArchive(arcs[1] as _) {
            return Err("closing the second archive failed".into());
        }
        if hs.iter().any(|x| read(x.0, 1).is_some()) {
            return Err("a file stayed open after its archive was closed".into());
        }
        ctx.add("handles_open_at_once", hs.len() as u64 + 2);
        ctx.distinct(&"scale/handles");
        Ok(())
    });
    // handles that were closed stay closed, however many are given out afterwards
    let rounds = if ctx.thorough { 400_000 } else { 70_000 };
    ctx.case("scale/reuse", || {
        let a = open(&path)?;
        let kept = openf(a, "Many\\f1")?;
        let gone = openf(a, "Many\\f2")?;
        storm::SFileCloseFile(gone as _);
        let mut seen: HashSet<usize> = [a, kept, gone].into();
        for i in 0..rounds {
            let h = openf(a, "Many\\f3")?;
            if !seen.insert(h) {
                return Err(format!("handle {:#x} was given out again after {} others", h, i));
            }
            if !storm::SFileCloseFile(h as _) {
                return Err(format!("closing handle number {} failed", i));
            }
        }
        if read(gone, 3).is_some() || read(kept, 3).as_deref() != Some(b"con") {
            return Err("old handles changed their meaning".into());
        }
        for i in 0..rounds / 40 {
            let h = open(&path)?;
            if !seen.insert(h) {
                return Err(format!("archive handle {:#x} was given out again after {} others", h, i));
            }
            storm::SFileCloseArchive(h as _);
            if i >= 200 && !ctx.thorough {
                break;
            }
        }
        storm::SFileCloseArchive(a as _);
        ctx.add("handles_given_out", seen.len() as u64);
        ctx.distinct(&"scale/reuse");
        Ok(())
    });
    // large files: read in pieces of every kind, seek everywhere
    for (n, d) in files.iter().filter(|f| f.0.starts_with("big") || f.0 == "huge") {
        ctx.case(&format!("scale/{}", n), || {
            let a = open(&path)?;
            let h = openf(a, n)?;
            let mut hi = 77u32;
            if unsafe { storm::SFileGetFileSize(h as _, &mut hi) } as usize != d.len() || hi != 0 {
                return Err("size".into());
            }
            for piece in [1000usize, 65_535, 65_536, 65_537, 300_000, 30_000_000] {
                if d.len() / piece > 1000 {
                    continue;
                }
                unsafe { storm::SFileSetFilePointer(h as _, 0, std::ptr::null_mut(), 0) };
                let mut all = vec![];
                loop {
                    let x = read(h, piece).ok_or("a read failed")?;
                    if x.is_empty() {
                        break;
                    }
                    if x.len() != piece && all.len() + x.len() != d.len() {
                        return Err(format!("short read of {} at {}", x.len(), all.len()));
                    }
                    all.extend(x);
                }
                if &all != d {
                    return Err(format!("read in pieces of {}: other contents", piece));
                }
            }
            let l = d.len() as i64;
            let mut at = vec![0i64, 1, l - 1, l, l / 2];
            for s in 8..25 {
                at.extend([(1i64 << s) - 1, 1 << s, (1 << s) + 1]);
            }
            at.retain(|x| *x <= l);
            for &p in &at {
                for (from, off) in [(0u32, p), (2, p - l)] {
                    let r = unsafe { storm::SFileSetFilePointer(h as _, off as i32, std::ptr::null_mut(), from) };
                    if r as i64 != p {
                        return Err(format!("seek to {} went to {}", p, r));
                    }
                    let mut pos = 0u64;
                    let mut need = 0;
                    let ok = unsafe { storm::SFileGetFileInfo(h as _, 10, &mut pos as *mut _ as _, 8, &mut need) };
                    let lo = p as usize;
                    if !ok || pos != p as u64 || read(h, 5).as_deref() != Some(&d[lo..(lo + 5).min(d.len())]) {
                        return Err(format!("position {} after a seek to {}", pos, p));
                    }
                }
                for &q in &at {
                    unsafe { storm::SFileSetFilePointer(h as _, p as i32, std::ptr::null_mut(), 0) };
                    let r = unsafe { storm::SFileSetFilePointer(h as _, (q - p) as i32, std::ptr::null_mut(), 1) };
                    if r as i64 != q {
                        return Err(format!("seek from {} to {} went to {}", p, q, r));
                    }
                }
            }
            let out = format!("{}/out", dir);
            if !unsafe { storm::SFileExtractFile(a as _, cs(n).as_ptr(), cs(&out).as_ptr(), 0) } || std::fs::read(&out).ok().as_ref() != Some(d) {
                return Err("extracted differently".into());
            }
            storm::SFileCloseArchive(a as _);
            ctx.distinct(&("scale", n));
            Ok(())
        });
    }
    ctx.case("scale/names", || {
        let a = open(&path)?;
        for l in lens {
            let n = long(l);
            let h = openf(a, &n)?;
            let mut b = vec![0xC7u8; l + 20];
            if !unsafe { storm::SFileGetFileName(h as _, b.as_mut_ptr() as _) } || &b[..l] != n.as_bytes() || b[l] != 0 || b[l + 1..].iter().any(|x| *x != 0xC7) {
                return Err(format!("name of {} bytes", l));
            }
            if read(h, 20) != Some(vec![l as u8; 9]) {
                return Err(format!("contents of the file with a name of {} bytes", l));
            }
            if !unsafe { storm::SFileHasFile(a as _, cs(&n).as_ptr()) } || unsafe { storm::SFileHasFile(a as _, cs(&format!("{}x", n)).as_ptr()) } {
                return Err(format!("presence of a name of {} bytes", l));
            }
        }
        let mut got: Vec<String> = vec![];
        if !unsafe { storm::SFileEnumFiles(a as _, cs("*").as_ptr(), std::ptr::null(), Some(gather), &mut got as *mut _ as _) } {
            return Err("enumeration failed".into());
        }
        let mut want: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
        want.push("(listfile)".into());
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("{} names enumerated instead of {}", got.len(), want.len()));
        }
        storm::SFileCloseArchive(a as _);
        ctx.distinct(&"scale/names");
        Ok(())
    });
    let _ = std::fs::remove_dir_all(dir);
}

fn cstr(b: &[u8]) -> std::ffi::CString {
    std::ffi::CString::new(b).unwrap()
}
fn open_path(p: &str) -> Option<usize> {
    let mut h = std::ptr::null_mut();
    unsafe { storm::SFileOpenArchive(cstr(p.as_bytes()).as_ptr(), 0, 0, &mut h) }.then_some(h as usize)
}
fn enumerate(a: usize, mask: &[u8]) -> Option<Vec<String>> {
    let mut got: Vec<String> = vec![];
    let ok = unsafe { storm::SFileEnumFiles(a as _, cstr(mask).as_ptr(), std::ptr::null(), Some(gather), &mut got as *mut _ as _) };
    got.sort();
    ok.then_some(got)
}

/// Every string argument of every call with text that is not UTF-8 is refused and changes nothing; masks of the form *text*.
fn strings(ctx: &'static Ctx, dir: &str) {
    let names = ["alpha.txt", "alphabet.txt", "Sub\\alpha.dat", "Sub\\x.txt", "long name with blanks", "noext", "ab"];
    let path = format!("{}/strings.mpq", dir);
    let mut b = mopaq::ArchiveBuilder::new();
    for n in names {
        b = b.add_file_data(n.as_bytes().to_vec(), n);
    }
    if let Err(e) = b.build(&path) {
        return ctx.case("strings/build", || Err(e.to_string()));
    }
    let mut bad: Vec<Vec<u8>> = (0x80..=0xFFu8).map(|x| vec![x]).collect();
    for t in ["alpha.txt", "*"] {
        for at in 0..=t.len() {
            for x in [0x80u8, 0xC3, 0xFF] {
                let mut v = t.as_bytes().to_vec();
                v.insert(at, x);
                bad.push(v);
            }
        }
    }
    bad.extend([vec![0xC0, 0xAF], vec![0xED, 0xA0, 0x80], vec![0xF5, 0x80, 0x80, 0x80], vec![0xE2, 0x82]]);
    let Some(a) = open_path(&path) else { return ctx.case("strings/open", || Err("the archive does not open".into())) };
    let tree = || -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
        v.sort();
        v
    };
    for x in &bad {
        let c = cstr(x);
        let key: String = x.iter().map(|b| format!("{:02x}", b)).collect();
        ctx.case(&format!("strings/invalid/{}", key), || {
            let before = tree();
            let inside = cstr(&[dir.as_bytes(), b"/", x].concat());
            let good = cstr(b"alpha.txt");
            let out = cstr(format!("{}/out", dir).as_bytes());
            let mut h = 0x5A5Ausize as *mut std::ffi::c_void;
            let calls: [(&str, &dyn Fn(*mut *mut std::ffi::c_void) -> bool); 10] = unsafe {
                [
                    ("SFileOpenArchive", &|h| storm::SFileOpenArchive(inside.as_ptr(), 0, 0, h as _)),
                    ("SFileCreateArchive", &|h| storm::SFileCreateArchive(inside.as_ptr(), 1, 16, h as _)),
                    ("SFileCreateArchive (always)", &|h| storm::SFileCreateArchive(inside.as_ptr(), 2, 16, h as _)),
                    ("SFileOpenFileEx", &|h| storm::SFileOpenFileEx(a as _, c.as_ptr(), 0, h as _)),
                    ("SFileHasFile", &|_| storm::SFileHasFile(a as _, c.as_ptr())),
                    ("SFileVerifyFile", &|_| storm::SFileVerifyFile(a as _, c.as_ptr(), 0)),
                    ("SFileExtractFile", &|_| storm::SFileExtractFile(a as _, c.as_ptr(), out.as_ptr(), 0)),
                    ("SFileExtractFile (destination)", &|_| storm::SFileExtractFile(a as _, good.as_ptr(), inside.as_ptr(), 0)),
                    ("SFileEnumFiles", &|_| {
                        let mut got: Vec<String> = vec![];
                        let r = storm::SFileEnumFiles(a as _, c.as_ptr(), std::ptr::null(), Some(gather), &mut got as *mut _ as _);
                        r || !got.is_empty()
                    }),
                    ("SFileOpenArchive (bare)", &|h| storm::SFileOpenArchive(c.as_ptr(), 0, 0, h as _)),
                ]
            };
            for (n, f) in calls {
                storm::SFileSetLastError(0);
                if f(&mut h) {
                    return Err(format!("{} accepts a string that is not UTF-8", n));
                }
                if storm::SFileGetLastError() != E_PARAM {
                    return Err(format!("{} refuses a string that is not UTF-8 with error {}", n, storm::SFileGetLastError()));
                }
                if h as usize != 0x5A5A {
                    return Err(format!("{} writes a handle although it fails", n));
                }
                if tree() != before {
                    return Err(format!("{} changes files although it fails", n));
                }
            }
            ctx.distinct(&key);
            Ok(())
        });
    }
    // masks: every piece of a name
    let mut subs = HashSet::new();
    for n in names {
        let v: Vec<char> = n.chars().collect();
        for i in 0..v.len() {
            for l in 1..=5 {
                if i + l <= v.len() {
                    subs.insert(v[i..i + l].iter().collect::<String>());
                }
            }
        }
    }
    subs.extend(["zzz".into(), "alpha.txt".into(), "alpha.txtx".into()]);
    let mut all: Vec<&str> = names.to_vec();
    all.push("(listfile)");
    let mut subs: Vec<String> = subs.into_iter().collect();
    subs.sort();
    for s in subs {
        let insensitive = |n: &&&str| n.to_lowercase().contains(&s.to_lowercase());
        let mut want: Vec<String> = all.iter().filter(|n| n.contains(&s)).map(|n| n.to_string()).collect();
        // whether case counts is not documented
        if want.len() != all.iter().filter(insensitive).count() {
            continue;
        }
        want.sort();
        ctx.case(&format!("strings/mask/{}", s), || {
            let got = enumerate(a, format!("*{}*", s).as_bytes());
            ctx.distinct(&s);
            if got.as_ref() != Some(&want) {
                return Err(format!("mask *{}* enumerates {:?} instead of {:?}", s, got, want));
            }
            Ok(())
        });
    }
    storm::SFileCloseArchive(a as _);
}

/// Extraction to destinations of every kind: exactly the content or a failure that changes nothing else.
fn destinations(ctx: &'static Ctx, dir: &str) {
    let root = format!("{}/destinations", dir);
    std::fs::create_dir_all(&root).unwrap();
    let path = format!("{}/a.mpq", root);
    let files: Vec<(String, Vec<u8>)> = [0usize, 1, 3, 511, 513, 5000].iter().map(|&n| (format!("d\\f{}", n), super::common::content("mix", n, 512))).collect();
    let mut b = mopaq::ArchiveBuilder::new().block_size(0).generate_crcs(true);
    for (i, (n, d)) in files.iter().enumerate() {
        b = b.add_file_data_with_options(d.clone(), n, [0, super::common::ZLIB][i % 2], i % 3 == 1, 0);
    }
    let bad = vec![0x41u8; 300];
    b.add_file_data_with_options(bad.clone(), "damaged", 0, false, 0).build(&path).unwrap();
    let mut raw = std::fs::read(&path).unwrap();
    let at = raw.windows(300).position(|w| w == &bad[..]).unwrap();
    raw[at + 100] ^= 1;
    std::fs::write(&path, &raw).unwrap();
    let Some(a) = open_path(&path) else {
        ctx.case("destinations", || Err("the archive does not open".into()));
        return;
    };
    // name in the archive, its content (None: cannot be extracted, and the error)
    let mut sources: Vec<(String, Result<Vec<u8>, u32>)> = files.into_iter().map(|(n, d)| (n, Ok(d))).collect();
    sources.push(("damaged".into(), Err(1392)));
    sources.push(("absent".into(), Err(2)));
    let kinds = ["new", "same", "shorter", "longer", "below/new", "below/a/b/c/new", "existing/new", "existing", "file/below", "full", "old/../new", "./new", "link"];
    for (si, (name, want)) in sources.iter().enumerate() {
        for (ki, kind) in kinds.iter().enumerate() {
            for twice in [false, true] {
                ctx.case(&format!("destinations/{}/{}/{}", name, kind, twice), || {
                    let here = format!("{}/{}-{}-{}", root, si, ki, twice as u8);
                    let cleanup = here.clone();
                    let out = (|| {
                        std::fs::create_dir_all(format!("{}/existing", here)).unwrap();
                        std::fs::create_dir_all(format!("{}/old", here)).unwrap();
                        std::fs::write(format!("{}/file", here), b"a file").unwrap();
                        std::fs::write(format!("{}/existing/neighbour", here), b"a neighbour").unwrap();
                        let len = want.as_ref().map(|d| d.len()).unwrap_or(100);
                        match *kind {
                            "same" => std::fs::write(format!("{}/same", here), vec![0xEE; len]).unwrap(),
                            "shorter" => std::fs::write(format!("{}/shorter", here), vec![0xEE; len / 2]).unwrap(),
                            "longer" => std::fs::write(format!("{}/longer", here), vec![0xEE; len + 7000]).unwrap(),
                            "full" => std::os::unix::fs::symlink("/dev/full", format!("{}/full", here)).unwrap(),
                            "link" => std::os::unix::fs::symlink("file", format!("{}/link", here)).unwrap(),
                            _ => {}
                        }
                        let dest = format!("{}/{}", here, kind);
                        let before = snapshot(&here);
                        let refused = matches!(*kind, "existing" | "file/below") || *kind == "full" && len > 0;
                        for _ in 0..1 + twice as usize {
                            storm::SFileSetLastError(77);
                            let ok = unsafe { storm::SFileExtractFile(a as _, cstr(name.as_bytes()).as_ptr(), cstr(dest.as_bytes()).as_ptr(), 0) };
                            let err = storm::SFileGetLastError();
                            let after = snapshot(&here);
                            match want {
                                Ok(d) if !refused => {
                                    if !ok || err != 0 {
                                        return Err(format!("failed with {}", err));
                                    }
                                    if *kind == "full" && std::fs::symlink_metadata(&dest).map(|m| m.is_symlink()).unwrap_or(false) {
                                        continue;
                                    }
                                    if std::fs::read(&dest).ok().as_ref() != Some(d) {
                                        return Err("other content at the destination".into());
                                    }
                                    // nothing else changed
                                    let real = std::fs::canonicalize(&dest).unwrap().to_string_lossy().into_owned();
                                    for (p, c) in &before {
                                        if *p != real && *p != dest && after.get(p) != Some(c) {
                                            return Err(format!("{} changed", p));
                                        }
                                    }
                                    if let Some((p, _)) = after.iter().find(|(p, _)| !before.contains_key(*p) && !real.starts_with(p.as_str())) {
                                        return Err(format!("{} appeared", p));
                                    }
                                }
                                Ok(d) => {
                                    // a file may also take the place of the link to a full device
                                    if ok && *kind == "full" && std::fs::symlink_metadata(&dest).map(|m| m.is_file()).unwrap_or(false) && std::fs::read(&dest).ok().as_ref() == Some(d) {
                                        continue;
                                    }
                                    if ok || err != 5 {
                                        return Err(format!("returned {} with error {} for a destination that cannot be written", ok, err));
                                    }
                                    if after != before {
                                        return Err("a failed extraction changed something".into());
                                    }
                                }
                                Err(code) => {
                                    if ok || err != *code {
                                        return Err(format!("returned {} with error {} instead of {}", ok, err, code));
                                    }
                                    if after != before {
                                        return Err("a failed extraction changed something".into());
                                    }
                                }
                            }
                        }
                        Ok(())
                    })();
                    std::fs::remove_dir_all(&cleanup).ok();
                    out?;
                    ctx.distinct(&("destinations", si, ki, twice));
                    Ok(())
                });
            }
        }
    }
    storm::SFileCloseArchive(a as _);
}

/// Everything below a directory: directories, links and contents.
fn snapshot(dir: &str) -> std::collections::BTreeMap<String, String> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![std::path::PathBuf::from(dir)];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            let t = e.file_type().unwrap();
            let v = if t.is_dir() {
                todo.push(p.clone());
                "dir".to_string()
            } else if t.is_symlink() {
                format!("link to {:?}", std::fs::read_link(&p).unwrap())
            } else {
                format!("{:?}", std::fs::read(&p).unwrap_or_default())
            };
            m.insert(p.to_string_lossy().into_owned(), v);
        }
    }
    m
}

/// A list file that cannot be read: the files are not enumerated as if there were none, and not verified as if they were intact.
fn listings(ctx: &'static Ctx, dir: &str) {
    use crate::refmpq::{RefArchive, RefFile, RefWriter};
    let path = format!("{}/list.mpq", dir);
    for (v, single, method, encrypt, crc) in [(0, false, 0u8, false, true), (0, false, 2, false, true), (0, true, 2, false, true), (1, false, 2, true, true), (3, false, 2, true, false), (0, true, 2, false, false)] {
        let mut w = RefWriter::new(v, 0);
        w.files.push(RefFile::new("one", vec![1; 700]));
        w.files.push(RefFile::new("two", b"second".to_vec()));
        let mut list = b"one\r\ntwo\r\n".to_vec();
        for i in 0..60 {
            list.extend(format!("absent number {}\r\n", i).bytes());
        }
        let mut l = RefFile::new("(listfile)", list);
        (l.single, l.method, l.encrypt, l.crc) = (single, method, encrypt, crc);
        w.files.push(l);
        let d = w.write();
        let key = format!("listings/v{}-{}-m{}-{}-{}", v, if single { "single" } else { "sectors" }, method, if encrypt { "enc" } else { "plain" }, if crc { "crc" } else { "nocrc" });
        let Ok(ra) = RefArchive::parse(&d) else { return ctx.case(&key, || Err("reference".into())) };
        let Some(e) = ra.lookup("(listfile)", 0).map(|h| ra.block[h.block as usize].clone()) else { return ctx.case(&key, || Err("reference".into())) };
        let (start, len) = (ra.base + e.pos as usize, e.csize as usize);
        let step = if ctx.thorough { 1 } else { 3 };
        for at in (start..start + len).step_by(step) {
            for x in [0x01u8, 0x80, 0xFF] {
                ctx.case(&format!("{}/{}^{:02x}", key, at - start, x), || {
                    let mut d = d.clone();
                    d[at] ^= x;
                    std::fs::write(&path, &d).unwrap();
                    let Some(a) = open_path(&path) else { return Ok(()) };
                    let lib = mopaq::Archive::open(&path).and_then(|mut l| l.list()).ok().map(|l| {
                        let mut v: Vec<String> = l.into_iter().map(|e| e.name).collect();
                        v.sort();
                        v
                    });
                    let got = enumerate(a, b"*");
                    let verified = unsafe { storm::SFileVerifyArchive(a as _, 0x20) };
                    let err = storm::SFileGetLastError();
                    storm::SFileCloseArchive(a as _);
                    ctx.distinct(&(&key, at, x));
                    if got != lib {
                        return Err(format!("enumeration gives {:?}, the list is {:?}", got, lib));
                    }
                    if lib.is_none() && (verified || err == 0) {
                        return Err("an archive whose list of files cannot be read is verified".into());
                    }
                    Ok(())
                });
            }
        }
    }
}
