//! P16: what a call returns does not depend on the calls made before on the same handle.
use super::common::*;
use super::p14;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use mopaq::{Archive, OpenOptions};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug)]
pub(super) enum Op {
    Read(String),
    Find(String),
    List,
    ListAll,
    ListHashes,
    ListAllHashes,
    Info,
    Verify,
    LoadTables,
    LoadAttributes,
    Attr(usize),
    Add,
}

fn dbg<T: std::fmt::Debug, E>(x: Result<T, E>) -> String {
    match x {
        Ok(t) => format!("{:?}", t),
        Err(_) => "error".into(),
    }
}
pub(super) fn apply(a: &mut Archive, op: &Op) -> String {
    match op {
        Op::Read(n) => match a.read_file(n) {
            Ok(d) => format!("{} bytes {:02x?} md5 {:02x?}", d.len(), &d[..d.len().min(8)], r::md5(&d)),
            Err(_) => "error".into(),
        },
        Op::Find(n) => dbg(a.find_file(n)),
        Op::List => dbg(a.list()),
        Op::ListAll => dbg(a.list_all()),
        Op::ListHashes => dbg(a.list_with_hashes()),
        Op::ListAllHashes => dbg(a.list_all_with_hashes()),
        Op::Info => dbg(a.get_info()),
        Op::Verify => dbg(a.verify_signature()),
        Op::LoadTables => dbg(a.load_tables()),
        Op::LoadAttributes => dbg(a.load_attributes()),
        Op::Attr(i) => format!("{:?}", a.get_file_attributes(*i)),
        Op::Add => dbg(a.add_file("x", b"y")),
    }
}

/// (name, bytes, file names to read, damaged name)
pub(super) fn archives(ctx: &'static Ctx) -> Vec<(String, Vec<u8>, Vec<String>)> {
    let mut out = vec![];
    for v in 0..4 {
        for crc in [false, true] {
            let mut c = Cfg::new(VERSIONS[v], 0);
            c.crc = crc;
            c.tables = Some(ZLIB);
            c.files.push(F::with("small.txt", content("text", 40, 512), ZLIB, Enc::No));
            c.files.push(F::with("Dir\\sect.bin", content("mix", 1400, 512), ZLIB, Enc::Fix));
            c.files.push(F::with("stored", content("noise", 700, 512), 0, Enc::Plain));
            c.files.push(F::with("empty", vec![], ZLIB, Enc::No));
            let names = c.files.iter().map(|f| f.name.clone()).collect::<Vec<_>>();
            match c.build(ctx) {
                Ok(t) => {
                    let mut d = t.bytes();
                    if crc {
                        // an archive behind other data
                        let mut p = vec![0x11u8; 1024];
                        p.extend(&d);
                        d = p;
                    }
                    out.push((format!("built-v{}-{}", v + 1, crc), d, names));
                }
                Err(e) => ctx.case(&format!("build/v{}/{}", v + 1, crc), || Err(e)),
            }
        }
    }
    // attributes, a damaged file, a signature
    for k in 0..3 {
        let mut w = RefWriter::new(if k == 1 { 1 } else { 0 }, 0);
        let mut names = vec![];
        for (i, (n, s)) in [("one", 100usize), ("two\\three", 1300), ("broken", 900), ("plain", 20)].into_iter().enumerate() {
            let mut f = RefFile::new(n, content("text", s, 512));
            f.crc = i < 3;
            f.method = if i < 3 { ZLIB } else { 0 };
            w.files.push(f);
            names.push(n.to_string());
        }
        if k < 2 {
            let n = 6;
            let mut att = vec![100u8, 0, 0, 0, 1, 0, 0, 0];
            for i in 0..n {
                att.extend((0x1000u32 + i).to_le_bytes());
            }
            w.files.push(RefFile::new("(attributes)", att));
        } else {
            let mut s = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
            s.single = true;
            w.files.push(s);
        }
        if k != 1 {
            w.files.push(RefFile::new("(listfile)", (names.join("\r\n") + "\r\nnot there\r\n").into_bytes()));
        } else {
            w.files.push(RefFile::new("other", vec![1, 2, 3]));
        }
        let mut d = w.write();
        if k < 2 {
            let at = {
                let a = RefArchive::parse(&d).unwrap();
                let h = a.lookup("broken", 0).unwrap();
                super::p09::protected(&a, "broken", &a.block[h.block as usize]).into_iter().find(|x| x.2 == "data").unwrap().0 + 30
            };
            d[at] ^= 0x40;
        } else {
            p14::sign_archive(&mut d).unwrap();
        }
        out.push((format!("foreign-{}", k), d, names));
    }
    out
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("model_checking");
    ctx.rule("all sequences of calls up to a bounded length on one handle, and all interleavings of calls on two handles of the same file, over archives of every version, embedded, with attributes, signed and with a damaged file; all histories of exchanging the file at a path, opening and calling; each call must return exactly what it returns as the first call on a fresh handle; non-trivial = distinct sequences");
    let max = if ctx.thorough { 5 } else { 4 };
    let all = archives(ctx);
    struct A {
        name: String,
        path: Tmp,
        ops: Vec<Op>,
        want: Vec<String>,
        before: Vec<u8>,
    }
    let mut set = vec![];
    let mut others = vec![];
    let mut more: Vec<(String, Vec<u8>, Vec<String>)> = vec![];
    // the same names with other contents
    for (v, k) in [(0usize, 0usize), (0, 1), (2, 1), (3, 2), (1, 2)] {
        let mut c = Cfg::new(VERSIONS[v], 0);
        c.crc = k == 1;
        let size = |s: usize| s + if k == 2 { 0 } else { 37 * k };
        c.files.push(F::with("small.txt", content(["text", "mix", "noise"][k], size(40), 512), ZLIB, [Enc::No, Enc::Fix, Enc::Plain][k]));
        c.files.push(F::with("Dir\\sect.bin", content(["mix", "noise", "text"][k], size(1400), 512), ZLIB, Enc::Fix));
        if k != 1 {
            c.files.push(F::with("stored", content(["noise", "", "mix"][k], 700, 512), 0, Enc::Plain));
        }
        c.files.push(F::with("empty", vec![k as u8; k], ZLIB, Enc::No));
        match c.build(ctx) {
            Ok(t) => more.push((format!("same-names-v{}-{}", v + 1, k), t.bytes(), c.files.iter().map(|f| f.name.clone()).collect())),
            Err(e) => ctx.case(&format!("build/same-names/v{}/{}", v + 1, k), || Err(e)),
        }
    }
    // the same layout with other contents, sizes from a few bytes to more than 64 kB
    for v in [0usize, 1, 3] {
        for k in 0..2usize {
            let mut c = Cfg::new(VERSIONS[v], 0);
            for (i, n) in [40usize, 2100, 9000, 70_000].into_iter().enumerate() {
                let d: Vec<u8> = noise(i as u64, n).iter().map(|b| b ^ (k as u8 * 0x5A)).collect();
                c.files.push(F::with(&format!("f{}", n), d, [0, 0, ZLIB, 0][i], [Enc::No, Enc::No, Enc::No, Enc::No][i]));
            }
            c.files.push(F::with("locked", noise(9 + k as u64, 3000), 0, Enc::Fix));
            match c.build(ctx) {
                Ok(t) => more.push((format!("twin-v{}-{}", v + 1, k), t.bytes(), c.files.iter().map(|f| f.name.clone()).collect())),
                Err(e) => ctx.case(&format!("build/twin/v{}/{}", v + 1, k), || Err(e)),
            }
        }
    }
    for k in 0..2usize {
        let mut w = crate::refmpq::RefWriter::new(1, 0);
        for (i, n) in [41usize, 2200, 9100, 70_100].into_iter().enumerate() {
            let d: Vec<u8> = noise(i as u64, n).iter().map(|b| b ^ (k as u8 * 0x5A)).collect();
            let mut f = crate::refmpq::RefFile::new(&format!("r{}", n), d);
            f.single = i == 2;
            w.files.push(f);
        }
        let names: Vec<String> = w.files.iter().map(|f| f.name.clone()).collect();
        w.files.push(crate::refmpq::RefFile::new("(listfile)", names.join("\r\n").into_bytes()));
        more.push((format!("twin-foreign-{}", k), w.write(), names));
    }
    for (second, (name, d, names)) in all.into_iter().map(|x| (false, x)).chain(more.into_iter().map(|x| (true, x))) {
        let path = Tmp::of(ctx, &d);
        let mut ops = vec![Op::List, Op::ListAll, Op::ListHashes, Op::ListAllHashes, Op::Info, Op::Verify, Op::LoadTables, Op::LoadAttributes, Op::Add];
        for n in &names {
            ops.push(Op::Read(n.clone()));
        }
        ops.push(Op::Read(names[1].to_uppercase().replace('\\', "/")));
        ops.push(Op::Read("(listfile)".into()));
        ops.push(Op::Read("nope".into()));
        ops.push(Op::Find(names[0].clone()));
        ops.push(Op::Find("nope".into()));
        ops.push(Op::Find("(attributes)".into()));
        for i in [0, 1, 5, 99] {
            ops.push(Op::Attr(i));
        }
        let mut want = vec![];
        let mut bad = None;
        for o in &ops {
            match guarded(|| Archive::open(&path.0).map(|mut a| apply(&mut a, o))) {
                Ok(Ok(x)) => want.push(x),
                Ok(Err(e)) => bad = Some(format!("open: {}", e)),
                Err(e) => bad = Some(e),
            }
        }
        if let Some(e) = bad {
            ctx.case(&format!("{}/open", name), || Err(e));
            continue;
        }
        if second { &mut others } else { &mut set }.push(A { name, path, ops, want, before: d });
    }
    let differ = |a: &A, seq: &[usize], i: usize, got: &str, how: &str| -> Result<(), String> {
        Err(format!(
            "{}: after {:?}{}, {:?} returned {} instead of {}",
            a.name,
            seq[..i].iter().map(|k| format!("{:?}", a.ops[*k])).collect::<Vec<_>>(),
            how,
            a.ops[seq[i]],
            got.chars().take(300).collect::<String>(),
            a.want[seq[i]].chars().take(300).collect::<String>()
        ))
    };
    // lazily opened: after load_tables, and load_attributes where the archive has them, the same as an ordinary open
    let jobs: Vec<(usize, usize)> = (0..set.len()).flat_map(|i| (0..set[i].ops.len()).map(move |j| (i, j))).collect();
    ctx.par(&jobs, |&(i, first)| {
        let a = &set[i];
        let n = a.ops.len();
        ctx.case(&format!("{}/{:?}", a.name, a.ops[first]), || {
            let mut seq = vec![first; 1];
            // all sequences beginning with `first`
            let total = n.pow(max as u32 - 1);
            let per = total.min(50_000);
            for code in 0..total {
                seq.truncate(1);
                let mut c = code;
                for _ in 1..max {
                    seq.push(c % n);
                    c /= n;
                }
                let mut h = Archive::open(&a.path.0).map_err(|e| e.to_string())?;
                for k in 0..seq.len() {
                    let got = apply(&mut h, &a.ops[seq[k]]);
                    if got != a.want[seq[k]] {
                        return differ(a, &seq, k, &got, "");
                    }
                }
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                if code < per {
                    ctx.distinct(&(i, &seq));
                }
                ctx.transitions.fetch_add(seq.len() as u64, Ordering::Relaxed);
            }
            ctx.states.fetch_add(total as u64, Ordering::Relaxed);
            // two handles, two calls each, in every interleaving
            for x in 0..n {
                let pat: [[usize; 4]; 6] = [[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [1, 1, 0, 0]];
                for p in &pat {
                    let mut hs = [Archive::open(&a.path.0).map_err(|e| e.to_string())?, Archive::open(&a.path.0).map_err(|e| e.to_string())?];
                    let progs = [[first, x], [x, first]];
                    let mut at = [0, 0];
                    for &t in p {
                        let k = progs[t][at[t]];
                        at[t] += 1;
                        let got = apply(&mut hs[t], &a.ops[k]);
                        if got != a.want[k] {
                            return differ(a, &[first, x, k], 2, &got, " on two handles");
                        }
                    }
                    ctx.traces.fetch_add(1, Ordering::Relaxed);
                }
            }
            // opened without tables, loaded later
            for x in 0..n {
                let mut h = OpenOptions::new().load_tables(false).open(&a.path.0).map_err(|e| e.to_string())?;
                let early = guarded(|| apply(&mut h, &a.ops[x]));
                // describing an archive loads what it needs
                if matches!(a.ops[x], Op::Info) && early != Ok(a.want[x].clone()) {
                    return differ(a, &[x], 0, &early.unwrap_or_else(|e| e), " on a handle without tables");
                }
                h.load_tables().map_err(|e| format!("load_tables: {}", e))?;
                if matches!(a.ops[first], Op::Attr(_)) || matches!(a.ops[x], Op::LoadAttributes) {
                    h.load_attributes().map_err(|e| format!("load_attributes: {}", e))?;
                }
                let got = apply(&mut h, &a.ops[first]);
                if got != a.want[first] {
                    return differ(a, &[x, first], 1, &got, " on a handle whose tables were loaded later");
                }
                ctx.traces.fetch_add(1, Ordering::Relaxed);
            }
            ctx.distinct(&(i, first));
            ctx.sample(&a.name, || format!("{} sequences starting with {:?}", total, a.ops[first]));
            Ok(())
        });
    });
    // files that are alike in all but one respect
    let jobs: Vec<(usize, bool)> = (0..4).flat_map(|v| [(v, false), (v, true)]).collect();
    ctx.par(&jobs, |&(v, crc)| {
        let mut c = Cfg::new(VERSIONS[v], 0);
        c.crc = crc;
        let tail = |n: usize, k: u8| {
            let mut d = content("text", n, 512);
            *d.last_mut().unwrap() = k;
            d
        };
        let head = |n: usize, k: u8| {
            let mut d = content("text", n, 512);
            d[0] = k;
            d
        };
        // the same name in other folders, the same sizes, the same beginning, the same end, no content
        for (n, d, m, e) in [
            ("x.txt", tail(40, 1), 0u8, Enc::No),
            ("a\\x.txt", tail(40, 2), 0, Enc::No),
            ("b\\a\\x.txt", head(40, 3), 0, Enc::No),
            ("s1", tail(1400, 4), 0, Enc::Plain),
            ("s2", tail(1400, 5), 0, Enc::Plain),
            ("s3", head(1400, 6), 0, Enc::Fix),
            ("e1", vec![], ZLIB, Enc::No),
            ("e2", vec![], 0, Enc::No),
            ("z1", vec![7; 1500], ZLIB, Enc::No),
            ("z2", vec![8; 1500], ZLIB, Enc::No),
        ] {
            c.files.push(F::with(n, d, m, e));
        }
        for t in [0usize, 4, 8, 14] {
            for (k, n) in [super::p02::TWINS[t].1, super::p02::TWINS[t].2].into_iter().enumerate() {
                c.files.push(F::with(n, tail(90, (9 + k) as u8), ZLIB, Enc::No));
            }
        }
        ctx.case(&format!("alike/v{}/crc{}", v + 1, crc as u8), || {
            let t = c.build(ctx)?;
            let n = c.files.len();
            let read = |a: &mut Archive, k: usize, h: &dyn std::fmt::Debug| -> Result<(), String> {
                let d = a.read_file(&c.files[k].name).map_err(|e| format!("{:?}: {:?}: {}", h, c.files[k].name, e))?;
                diff(&d, &c.files[k].data).map_err(|m| format!("after reading {:?}, {:?} is other than on its own: {}", h, c.files[k].name, m))
            };
            for code in 0..n * n * n {
                let seq = [code % n, code / n % n, code / n / n];
                let mut a = t.open()?;
                for k in 0..3 {
                    read(&mut a, seq[k], &seq[..k].iter().map(|i| &c.files[*i].name).collect::<Vec<_>>())?;
                }
                ctx.traces.fetch_add(1, Ordering::Relaxed);
            }
            ctx.distinct(&("alike", v, crc));
            Ok(())
        });
    });
    // rounds over many files in many orders
    let jobs: Vec<(usize, usize)> = (0..4).flat_map(|v| [5usize, 17, 40, 130, 300].into_iter().map(move |n| (v, n))).collect();
    ctx.par(&jobs, |&(v, n)| {
        ctx.case(&format!("rounds/v{}/{}", v + 1, n), || {
            let mut c = Cfg::new(VERSIONS[v], 0);
            for i in 0..n {
                let mut d = vec![b'.'; [30usize, 600, 1300][i % 3]];
                d[7..15].copy_from_slice(&(i as u64).to_le_bytes());
                c.files.push(F::with(&format!("d{}\\f{}", i % 4, i), d, [0, ZLIB][i % 2], ENCS[i % 3]));
            }
            let t = c.build(ctx)?;
            let mut a = t.open()?;
            // every stride in turn on one handle; back and forth between near and far ones
            let strides: Vec<usize> = (1..n).filter(|s| *s < 12 || s % (1 + n / 12) == 0 || n - s < 3).collect();
            for &s in &strides {
                for k in 0..n {
                    for i in [k * s % n, (k * s + s / 2) % n] {
                        let f = &c.files[i];
                        let d = a.read_file(&f.name).map_err(|e| format!("stride {}, {}: {}", s, k, e))?;
                        diff(&d, &f.data).map_err(|m| format!("stride {}, step {}: {:?}: {}", s, k, f.name, m))?;
                    }
                }
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.transitions.fetch_add(2 * n as u64, Ordering::Relaxed);
            }
            ctx.distinct(&("rounds", v, n));
            Ok(())
        });
    });
    // archives that take each other's place: handles on a path whose file is exchanged, and on two archives
    let get = |n: &str| set.iter().chain(&others).find(|a| a.name == n);
    let worlds: Vec<[&A; 2]> = [
        ("same-names-v1-0", "same-names-v1-1"),
        ("same-names-v1-0", "same-names-v4-2"),
        ("same-names-v3-1", "same-names-v4-2"),
        ("same-names-v2-2", "same-names-v3-1"),
        ("foreign-0", "foreign-2"),
        ("foreign-1", "foreign-0"),
        ("twin-v1-0", "twin-v1-1"),
        ("twin-foreign-0", "twin-foreign-1"),
        ("twin-v2-0", "twin-v2-1"),
        ("twin-v4-0", "twin-v4-1"),
    ]
    .iter()
    .filter_map(|(x, y)| Some([get(x)?, get(y)?]))
    .collect();
    let depth = if ctx.thorough { 6 } else { 5 };
    let jobs: Vec<([&A; 2], usize)> = worlds.iter().flat_map(|&w| (0..14).map(move |f| (w, f))).collect();
    ctx.par(&jobs, |&(pair, f)| {
        ctx.case(&format!("exchange/{}+{}/{}", pair[0].name, pair[1].name, f), || {
            let bytes = [pair[0].path.bytes(), pair[1].path.bytes()];
            // calls both archives know, chosen so that they differ
            let pick: Vec<(usize, usize)> = (0..pair[0].ops.len())
                .filter_map(|i| Some((i, (0..pair[1].ops.len()).find(|&j| format!("{:?}", pair[0].ops[i]) == format!("{:?}", pair[1].ops[j]))?)))
                .filter(|&(i, j)| pair[0].want[i] != pair[1].want[j])
                .collect();
            // two different groups of calls
            let group = |g: usize| -> Vec<(usize, usize)> { pick.iter().copied().skip(g).step_by(3.max(pick.len() / 3)).collect() };
            let p = Tmp::of(ctx, &bytes[0]);
            for g in 0..3 {
                let calls = group(g);
                // letters: 0..2 put archive at the path, 2..4 open into a slot, then calls on slots
                let letters = 4 + 2 * calls.len();
                if f >= letters {
                    continue;
                }
                let mut seq = vec![0usize; depth];
                let total = letters.pow(depth as u32 - 1);
                'seqs: for code in 0..total {
                    seq[0] = f;
                    let mut c = code;
                    for s in seq.iter_mut().skip(1) {
                        *s = c % letters;
                        c /= letters;
                    }
                    // only histories that end in a call, call open slots, and change something
                    if seq[depth - 1] < 4 {
                        continue;
                    }
                    let mut open = [false; 2];
                    let mut put = 0;
                    for &l in &seq {
                        match l {
                            0 | 1 => {
                                if put == l {
                                    continue 'seqs;
                                }
                                put = l;
                            }
                            2 | 3 => open[l - 2] = true,
                            l => {
                                if !open[(l - 4) % 2] {
                                    continue 'seqs;
                                }
                            }
                        }
                    }
                    std::fs::write(&p.0, &bytes[0]).map_err(|e| e.to_string())?;
                    let mut now = 0;
                    let mut hs: [Option<(Archive, usize)>; 2] = [None, None];
                    for &l in &seq {
                        match l {
                            0 | 1 => {
                                // another file takes the place: open handles keep theirs
                                std::fs::remove_file(&p.0).map_err(|e| e.to_string())?;
                                std::fs::write(&p.0, &bytes[l]).map_err(|e| e.to_string())?;
                                now = l;
                            }
                            2 | 3 => hs[l - 2] = Some((Archive::open(&p.0).map_err(|e| format!("open: {}", e))?, now)),
                            l => {
                                let (h, which) = hs[(l - 4) % 2].as_mut().unwrap();
                                let (i, j) = calls[(l - 4) / 2];
                                let k = if *which == 0 { i } else { j };
                                // the information names the path
                                let got = apply(h, &pair[*which].ops[k]).replace(&format!("{:?}", p.0), &format!("{:?}", pair[*which].path.0));
                                if got != pair[*which].want[k] {
                                    return Err(format!(
                                        "history {:?} (0, 1: {} or {} is put at the path; 2, 3: it is opened; then {:?} on the handles): {:?} returned {} instead of {}",
                                        seq,
                                        pair[0].name,
                                        pair[1].name,
                                        calls.iter().map(|c| &pair[0].ops[c.0]).collect::<Vec<_>>(),
                                        pair[*which].ops[k],
                                        got.chars().take(200).collect::<String>(),
                                        pair[*which].want[k].chars().take(200).collect::<String>()
                                    ));
                                }
                            }
                        }
                    }
                    ctx.add("exchange_histories", 1);
                    ctx.traces.fetch_add(1, Ordering::Relaxed);
                }
                ctx.distinct(&("exchange", &pair[0].name, &pair[1].name, f, g));
            }
            Ok(())
        });
    });
    // and nothing of this has changed a file
    for a in set.iter().chain(&others) {
        ctx.case(&format!("unchanged/{}", a.name), || if a.path.bytes() == a.before { Ok(()) } else { Err("the archive file was changed by reading".into()) });
    }
    ctx.note("sequence_length", max as u64);
    ctx.note("archives", set.len() as u64);
}
