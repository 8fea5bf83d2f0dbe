//! P02: a name finds exactly its own file.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefFile, RefWriter};
use mopaq::{Archive, Error, FormatVersion};
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

/// The spellings under which a name must be found.
pub fn spellings(n: &str) -> Vec<String> {
    let mut v = vec![
        n.to_string(),
        n.to_ascii_uppercase(),
        n.to_ascii_lowercase(),
        n.replace('/', "\\"),
        n.replace('\\', "/"),
        n.to_ascii_uppercase().replace('\\', "/"),
    ];
    // alternate case and alternate separators
    v.push(n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
    let mut k = 0;
    v.push(
        n.chars()
            .map(|c| {
                if c == '/' || c == '\\' {
                    k += 1;
                    if k % 2 == 0 { '/' } else { '\\' }
                } else {
                    c
                }
            })
            .collect(),
    );
    v.sort();
    v.dedup();
    v
}

fn present(a: &mut Archive, q: &str, want: &[u8]) -> Result<(), String> {
    match a.find_file(q) {
        Ok(Some(i)) => {
            if i.file_size != want.len() as u64 {
                return Err(format!("find_file({:?}) reports {} bytes, the file has {}", q, i.file_size, want.len()));
            }
        }
        Ok(None) => return Err(format!("find_file({:?}) does not find a file that is there", q)),
        Err(e) => return Err(format!("find_file({:?}): {}", q, e)),
    }
    let g = a.read_file(q).map_err(|e| format!("read_file({:?}): {}", q, e))?;
    diff(&g, want).map_err(|m| format!("read_file({:?}) returned another file: {}", q, m))
}

fn absent(a: &mut Archive, q: &str) -> Result<(), String> {
    match a.find_file(q) {
        Ok(None) => {}
        Ok(Some(i)) => return Err(format!("find_file({:?}) finds an absent name (block {})", q, i.block_index)),
        Err(e) => return Err(format!("find_file({:?}): {}", q, e)),
    }
    match a.read_file(q) {
        Err(Error::FileNotFound(_)) => Ok(()),
        Err(e) => Err(format!("read_file of absent {:?} gives {} instead of not-found", q, e)),
        Ok(d) => Err(format!("read_file of absent {:?} returned {} bytes", q, d.len())),
    }
}

fn unique(i: usize) -> Vec<u8> {
    let mut v = format!("content of file number {}", i).into_bytes();
    v.resize(v.len() + i % 9, b'.');
    v
}

/// `n` names whose home slot in a table of `size` is `slot`.
fn colliding(prefix: &str, size: usize, slot: usize, n: usize) -> Vec<String> {
    (0..)
        .map(|i| format!("{}{}.Dat", prefix, i))
        .filter(|s| r::hash(s.as_bytes(), 0) as usize & (size - 1) == slot)
        .take(n)
        .collect()
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("model_checking");
    ctx.rule("explicit-state search over hash table layouts under insert/delete (tombstones, wrap-around), each state replayed on the real reader; plus builder archives over complete name universes, present and absent names queried in every spelling");
    tables(ctx);
    unmarked(ctx);
    universes(ctx);
    insertion_orders(ctx);
    duplicates(ctx);
    absent_flood(ctx);
    chains(ctx);
    long_names(ctx);
    twins(ctx);
}

/// Pairs of names that share one of their hashes: (what, first, second). Those that share a name hash lie in the same
/// slot of every table of up to 256 entries.
pub const TWINS: [(&str, &str, &str); 24] = [
    ("a", "N0250402", "N1141401"),
    ("a", "N0250401", "N1141402"),
    ("a", "N1646457", "N2982788"),
    ("a", "N0295736", "N1060441"),
    ("b", "N0858987", "N1446414"),
    ("b", "N1895976", "N2919401"),
    ("b", "N0858984", "N1446417"),
    ("b", "N0398613", "N1379611"),
    ("key", "N0688851", "N2619707"),
    ("key", "N0446861", "N1197457"),
    ("key", "N0244203", "N0969224"),
    ("offset", "N1744531", "N2923957"),
    ("offset", "N1710748", "N2329426"),
    ("offset", "N1120390", "N1560135"),
    ("extended", "N3779930", "N3779941"),
    ("extended", "N1704601", "N1704656"),
    ("extended", "N2670933", "N2670999"),
    ("extended", "N6548500", "N6548589"),
    ("extended", "N3779931", "N3779942"),
    ("extended-upper", "N6737977", "N6727778"),
    ("extended-upper", "N0044279", "N0044276"),
    ("extended-upper", "N4266452", "N4266451"),
    ("extended-upper", "N3692043", "N3692042"),
    ("extended-upper", "N2034752", "N2034753"),
];

/// Names that share a hash, one of them stored or both, at every place among other files.
fn twins(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for v in VERSIONS {
        for t in 0..TWINS.len() {
            for n in [0usize, 1, 2, 5, 10, 20, 50, 150] {
                for (before, between) in [(0usize, 0usize), (0, 1), (1, 0), (2, 3), (0, 999), (999, 0)] {
                    if (before == 999 || between == 999) && n < 3 || before < 999 && between < 999 && before + between > n {
                        continue;
                    }
                    for stored in 0..4usize {
                        jobs.push((v, t, n, before.min(n), between.min(n), stored));
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, t, n, before, between, stored)| {
        let (what, x, y) = TWINS[t];
        ctx.case(&format!("twins/{:?}/{}/{}/{}/{}/{}/{}", v, what, x, n, before, between, stored), || {
            // first only, second only, both, both the other way round
            let (p, q) = [(Some(x), None), (Some(y), None), (Some(x), Some(y)), (Some(y), Some(x))][stored];
            let mut cfg = Cfg::new(v, 0);
            cfg.lf = if (t + n + stored) % 2 == 0 { Lf::Gen } else { Lf::None };
            for i in 0..n {
                cfg.files.push(F::with(&format!("other {}", i), unique(i), [0, ZLIB][i % 2], ENCS[i % 3]));
            }
            let enc = ENCS[(t + before + stored) % 3];
            cfg.files.insert(before, F::with(p.unwrap(), content("text", 700 + t, 512), ZLIB, enc));
            if let Some(q) = q {
                cfg.files.insert(before + 1 + between.min(n - before), F::with(q, content("noise", 600 + t, 512), 0, enc));
            }
            let b = cfg.build(ctx)?;
            let mut a = b.open()?;
            for f in &cfg.files {
                present(&mut a, &f.name, &f.data)?;
                present(&mut a, &f.name.to_ascii_lowercase(), &f.data)?;
            }
            for z in [x, y] {
                if !cfg.files.iter().any(|f| f.name == z) {
                    absent(&mut a, z)?;
                }
            }
            if cfg.lf == Lf::Gen {
                let l: Vec<(String, u64)> = a.list().map_err(|e| e.to_string())?.into_iter().map(|e| (e.name, e.size)).collect();
                for f in &cfg.files {
                    if !l.contains(&(f.name.clone(), f.data.len() as u64)) {
                        return Err(format!("{:?} of {} bytes is not listed as that", f.name, f.data.len()));
                    }
                }
            }
            ctx.distinct(&("twins", v as u16, t, n, before, between, stored));
            Ok(())
        });
    });
    // the same on tables of another writer
    let mut jobs = vec![];
    for v in 0..4u16 {
        for t in 0..TWINS.len() {
            for stored in 0..4usize {
                for ext in [false, true] {
                    if !ext || v > 1 {
                        jobs.push((v, t, stored, ext));
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, t, stored, ext)| {
        let (what, x, y) = TWINS[t];
        ctx.case(&format!("twins-foreign/v{}/{}/{}/{}/{}", v + 1, what, x, stored, ext), || {
            let mut w = RefWriter::new(v, 0);
            w.hash_size = 64;
            if ext {
                w.ext = Some(r::Ext { order: [0, 1, 2, 3], wider: [0; 4], unknown: (0, false), odd_flags: false, codec: 0 });
            }
            let names: Vec<&str> = [vec![x], vec![y], vec![x, y], vec![y, x]][stored].clone();
            for (i, n) in names.iter().enumerate() {
                w.files.push(RefFile::new(n, content("text", 700 + i, 512)));
            }
            for i in 0..20 {
                w.files.push(RefFile::new(&format!("other {}", i), unique(i)));
            }
            let b = Tmp::of(ctx, &w.write());
            let mut a = b.open()?;
            for f in &w.files {
                present(&mut a, &f.name, &f.data)?;
            }
            for z in [x, y] {
                if !names.contains(&z) {
                    absent(&mut a, z)?;
                }
            }
            ctx.distinct(&("twins-foreign", v, t, stored, ext));
            Ok(())
        });
    });
}

/// Long probe sequences: a file any distance behind its home slot, tombstones or other files in between; full tables.
fn chains(ctx: &'static Ctx) {
    let mut jobs: Vec<(usize, usize, bool)> = vec![];
    for size in if ctx.thorough { vec![256usize, 1024, 4096, 65_536] } else { vec![256, 1024, 8192] } {
        let mut ds: Vec<usize> = (0..size).step_by(if size <= 256 { 1 } else { size / 64 }).collect();
        for s in 0..20 {
            ds.extend([(1usize << s) - 1, 1 << s, (1 << s) + 1]);
        }
        ds.extend([size - 2, size - 1]);
        ds.retain(|d| *d < size);
        ds.sort();
        ds.dedup();
        for d in ds {
            for stale in [false, true] {
                jobs.push((size, d, stale));
            }
        }
    }
    ctx.par(&jobs, |&(size, d, stale)| {
        ctx.case(&format!("chain/{}/{}/{}", size, d, stale), || {
            let mut w = RefWriter::new((d % 4) as u16, 0);
            w.hash_size = size;
            let name = format!("Far\\n{}.Dat", d % 7);
            w.files.push(RefFile::new(&name, unique(d)));
            w.files.push(RefFile::new("other file", unique(d + 1)));
            let home = r::hash(name.as_bytes(), 0) as usize & (size - 1);
            // the way there: deleted entries, or ones that still carry the other file's hashes
            let mut l = vec![-1i32; size];
            for i in 0..d {
                l[(home + i) & (size - 1)] = if stale { -11 } else { -2 };
            }
            l[(home + d) & (size - 1)] = 0;
            w.layout = Some(l);
            let t = Tmp::of(ctx, &w.write());
            let mut a = t.open()?;
            present(&mut a, &name, &unique(d))?;
            absent(&mut a, "Far\\none")?;
            absent(&mut a, "other file")?;
            ctx.states.fetch_add(1, Ordering::Relaxed);
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            ctx.distinct(&("chain", size, d, stale));
            Ok(())
        });
    });
    // tables filled to the last slot, or but for one
    let mut jobs: Vec<(usize, usize)> = vec![];
    for size in if ctx.thorough { vec![16usize, 128, 512, 2048, 16_384] } else { vec![16, 128, 512, 2048] } {
        jobs.extend([(size, 0), (size, 1), (size, size / 8)]);
    }
    ctx.par(&jobs, |&(size, free)| {
        ctx.case(&format!("full/{}/{}", size, free), || {
            let mut w = RefWriter::new(0, 0);
            w.hash_size = size;
            for i in 0..size - free {
                w.files.push(RefFile::new(&format!("Full\\n{}.Dat", i), unique(i)));
            }
            let t = Tmp::of(ctx, &w.write());
            let mut a = t.open()?;
            for (i, f) in w.files.iter().enumerate() {
                present(&mut a, &f.name, &unique(i))?;
            }
            for i in 0..50 {
                absent(&mut a, &format!("Gone\\n{}", i))?;
            }
            ctx.distinct(&("full", size, free));
            Ok(())
        });
    });
}

/// Names that differ only behind (or before) a long common part.
fn long_names(ctx: &'static Ctx) {
    let mut lens: Vec<usize> = (0..300).chain((300..1100).step_by(37)).collect();
    lens.extend([510, 511, 512, 513, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537]);
    let mut jobs = vec![];
    for v in VERSIONS {
        for lf in [Lf::Gen, Lf::None] {
            for front in [false, true] {
                jobs.push((v, lf, front));
            }
        }
    }
    ctx.par(&jobs, |&(v, lf, front)| {
        ctx.case(&format!("long/{:?}/{:?}/{}", v, lf, front), || {
            let common: String = (0..70_000usize).map(|i| if i % 60 == 59 { '\\' } else { (b'a' + (i * 7 % 26) as u8) as char }).collect();
            let name = |l: usize, e: &str| if front { format!("{}{}", e, &common[..l]) } else { format!("{}{}", &common[..l], e) };
            let mut c = Cfg::new(v, 0);
            c.lf = lf;
            for (i, &l) in lens.iter().enumerate() {
                c.files.push(F::with(&name(l, "0"), unique(2 * i), [0, ZLIB][i % 2], ENCS[i % 3]));
                c.files.push(F::with(&name(l, "1"), unique(2 * i + 1), [0, ZLIB][i % 2], ENCS[i % 3]));
            }
            let t = c.build(ctx)?;
            let mut a = t.open()?;
            for (i, &l) in lens.iter().enumerate() {
                for (k, e) in ["0", "1"].iter().enumerate() {
                    let n = name(l, e);
                    present(&mut a, &n, &unique(2 * i + k))?;
                    present(&mut a, &n.to_uppercase().replace('\\', "/"), &unique(2 * i + k))?;
                }
                absent(&mut a, &name(l, "2"))?;
                absent(&mut a, &name(l, "00"))?;
            }
            ctx.distinct(&("long", v as u16, lf, front));
            Ok(())
        });
    });
}

/// Explicit-state search: every layout reachable by insert/delete from an empty table.
fn tables(ctx: &'static Ctx) {
    // (table size, home slots of the names); the last name is never inserted
    let mut cfgs: Vec<(usize, Vec<usize>)> = vec![
        (2, vec![1, 1, 0]),
        (4, vec![3, 3, 3, 3, 3]),
        (4, vec![3, 0, 3, 2, 0]),
        (4, vec![0, 1, 2, 3, 0]),
        (8, vec![7, 7, 7, 7]),
        (8, vec![7, 0, 7, 0]),
        (8, vec![5, 6, 7, 5]),
        (8, vec![7, 7, 7, 7, 7]),
        (8, vec![6, 7, 0, 7, 6]),
    ];
    if ctx.thorough {
        cfgs.push((8, vec![3, 3, 3, 4, 4, 3]));
        cfgs.push((8, vec![7, 0, 1, 7, 7, 7]));
        cfgs.push((8, vec![0, 1, 2, 3, 4, 0]));
        cfgs.push((16, vec![15, 15, 14, 15]));
    }
    let cfgs: Vec<(usize, Vec<usize>, bool)> = cfgs.into_iter().flat_map(|(s, h)| if s <= 4 { vec![(s, h.clone(), false), (s, h, true)] } else { vec![(s, h, false)] }).collect();
    let mut cfgs = cfgs;
    for h in [vec![7usize, 7, 7], vec![7, 0, 7], vec![6, 7, 7], vec![0, 1, 0]] {
        cfgs.push((8, h, true));
    }
    if ctx.thorough {
        cfgs.push((8, vec![7, 7, 0, 7], true));
        cfgs.push((8, vec![3, 3, 3, 3], true));
    }
    ctx.par(&cfgs, |(size, homes, stale)| {
        let (size, stale) = (*size, *stale);
        let mut taken: HashSet<String> = HashSet::new();
        let names: Vec<String> = homes
            .iter()
            .map(|&h| {
                let n = colliding("Dir\\n", size, h, 40).into_iter().find(|n| !taken.contains(n)).unwrap();
                taken.insert(n.clone());
                n
            })
            .collect();
        let k = names.len() - 1;
        let start: Vec<i32> = vec![-1; size];
        let mut seen: HashSet<Vec<i32>> = HashSet::new();
        seen.insert(start.clone());
        let mut q: VecDeque<Vec<i32>> = VecDeque::from([start]);
        let mut trans = 0u64;
        while let Some(s) = q.pop_front() {
            let key = format!("table{}/{}/{:?}/{:?}", if stale { "-stale" } else { "" }, size, homes, s);
            ctx.case(&key, || {
                let mut w = RefWriter::new((s.iter().map(|x| *x as i64).sum::<i64>() & 1) as u16, 0);
                w.hash_size = size;
                for i in 0..k {
                    w.files.push(RefFile::new(&names[i], unique(i)));
                }
                w.layout = Some(s.clone());
                let t = Tmp::of(ctx, &w.write());
                let mut a = t.open()?;
                for (i, n) in names.iter().enumerate() {
                    let there = s.contains(&(i as i32));
                    for q in [n.clone(), n.to_ascii_uppercase().replace('\\', "/")] {
                        if there {
                            present(&mut a, &q, &unique(i))?;
                        } else {
                            absent(&mut a, &q)?;
                        }
                    }
                }
                ctx.states.fetch_add(1, Ordering::Relaxed);
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.distinct(&key);
                Ok(())
            });
            // successors
            for i in 0..k as i32 {
                if let Some(p) = s.iter().position(|x| *x == i) {
                    let mut nx = s.clone();
                    nx[p] = if stale { -10 - i } else { -2 };
                    trans += 1;
                    if seen.insert(nx.clone()) {
                        q.push_back(nx);
                    }
                } else {
                    let home = homes[i as usize];
                    // a writer may reuse the first deleted slot or append to the chain
                    let probe: Vec<usize> = (0..size).map(|d| (home + d) & (size - 1)).collect();
                    for p in [probe.iter().find(|p| s[**p] < 0), probe.iter().find(|p| s[**p] == -1)].into_iter().flatten() {
                        let mut nx = s.clone();
                        nx[*p] = i;
                        trans += 1;
                        if seen.insert(nx.clone()) {
                            q.push_back(nx);
                        }
                    }
                }
            }
        }
        ctx.transitions.fetch_add(trans, Ordering::Relaxed);
        ctx.sample(&format!("table{}", size), || format!("table of {} slots, homes {:?}, stale tombstones: {stale}: {} reachable layouts, {} transitions", size, homes, seen.len(), trans));
    });
}

/// Deleted files whose hash table entries are still there: every way to delete every subset.
fn unmarked(ctx: &'static Ctx) {
    let k = if ctx.deep { 7 } else { 6 };
    let mut jobs = vec![];
    for v in 0..4u16 {
        for collide in [false, true] {
            for lf in [false, true] {
                jobs.push((v, collide, lf));
            }
        }
    }
    ctx.par(&jobs, |&(v, collide, lf)| {
        let names = if collide { colliding("Dir\\u", 16, 14, k) } else { (0..k).map(|i| format!("plain {}", i)).collect() };
        for code in 0..3usize.pow(k as u32) {
            let state: Vec<u8> = (0..k).map(|i| (code / 3usize.pow(i as u32) % 3) as u8).collect();
            ctx.case(&format!("unmarked/v{}/{}/{}/{:?}", v + 1, collide, lf, state), || {
                let mut w = RefWriter::new(v, 0);
                for (i, n) in names.iter().enumerate() {
                    let mut f = RefFile::new(n, unique(i));
                    f.method = if i % 2 == 0 { ZLIB } else { 0 };
                    f.encrypt = i % 3 == 1;
                    w.files.push(f);
                }
                if lf {
                    w.files.push(RefFile::new("(listfile)", names.join("\r\n").into_bytes()));
                }
                w.gone = state.iter().enumerate().filter(|s| *s.1 > 0).map(|(i, s)| (i, *s)).collect();
                let t = Tmp::of(ctx, &w.write());
                let mut a = t.open()?;
                for (i, n) in names.iter().enumerate() {
                    if state[i] == 0 {
                        present(&mut a, n, &unique(i))?;
                    } else {
                        absent(&mut a, n)?;
                    }
                }
                let alive = state.iter().filter(|s| **s == 0).count();
                let all = a.list_all().map_err(|e| e.to_string())?.len();
                if all != alive + lf as usize {
                    return Err(format!("list_all shows {} files of {}", all, alive + lf as usize));
                }
                if lf {
                    let mut got: Vec<String> = a.list().map_err(|e| e.to_string())?.into_iter().map(|e| e.name).collect();
                    got.retain(|n| n != "(listfile)");
                    let mut want: Vec<String> = (0..k).filter(|&i| state[i] == 0).map(|i| names[i].clone()).collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("list shows {:?} instead of {:?}", got, want));
                    }
                }
                ctx.states.fetch_add(1, Ordering::Relaxed);
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.distinct(&("unmarked", v, collide, lf, &state));
                Ok(())
            });
        }
    });
}

/// Every word over a small alphabet; every subset class present, the rest absent.
fn universes(ctx: &'static Ctx) {
    let alpha = ["a", "B", "\\", "/", ".", "y", "Z", "1"];
    let depth = if ctx.deep { 5 } else { 4 };
    let mut words: Vec<String> = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..depth {
        let mut nx = vec![];
        for c in &cur {
            for a in alpha {
                nx.push(format!("{}{}", c, a));
            }
        }
        words.extend(nx.iter().cloned());
        cur = nx;
    }
    // one representative per equivalence class
    let mut reps: Vec<String> = vec![];
    let mut seen = HashSet::new();
    for w in words {
        if seen.insert(r::norm_name(&w)) {
            reps.push(w);
        }
    }
    let classes = 5usize;
    let mut jobs = vec![];
    for v in VERSIONS {
        for c in 0..classes {
            for lf in [Lf::Gen, Lf::None] {
                jobs.push((v, c, lf));
            }
        }
    }
    ctx.par(&jobs, |(v, c, lf)| {
        ctx.case(&format!("universe/{:?}/{}/{:?}", v, c, lf), || {
            let mut cfg = Cfg::new(*v, 0);
            cfg.lf = *lf;
            cfg.tables = if *c % 2 == 1 && *v >= FormatVersion::V3 { Some(ZLIB) } else { None };
            for (i, w) in reps.iter().enumerate() {
                // class 0: sparse third; 1: its complement; 2: half; 3: almost all; 4: few
                let inn = match c {
                    0 => i % 3 == 0,
                    1 => i % 3 != 0,
                    2 => i % 2 == 0,
                    3 => i % 17 != 0,
                    _ => i % 29 == 0,
                };
                if inn {
                    cfg.files.push(F::with(w, unique(i), [0, ZLIB][i % 2], ENCS[i % 3]));
                }
            }
            let here: HashSet<Vec<u8>> = cfg.files.iter().map(|f| r::norm_name(&f.name)).collect();
            let t = cfg.build(ctx)?;
            let mut a = t.open()?;
            for (i, w) in reps.iter().enumerate() {
                for s in spellings(w) {
                    if here.contains(&r::norm_name(w)) {
                        present(&mut a, &s, &unique(i))?;
                    } else {
                        absent(&mut a, &s)?;
                    }
                }
            }
            for q in ["", "(listfile)x", "(attributes)", "(signature)", " ", "\0"] {
                absent(&mut a, q)?;
            }
            if *lf == Lf::None {
                absent(&mut a, "(listfile)")?;
            }
            ctx.distinct(&("u", *v as u16, *c, *lf));
            Ok(())
        });
    });
    ctx.note("universe_names", reps.len() as u64);
}

/// Builder: all insertion orders of names that share a home slot, at every interesting slot.
fn insertion_orders(ctx: &'static Ctx) {
    // 16 slots for up to 7 files + listfile
    let mut jobs = vec![];
    for slot in [0usize, 1, 8, 14, 15] {
        let names = colliding("c\\", 16, slot, 5);
        let next = colliding("d\\", 16, (slot + 1) & 15, 1);
        let all: Vec<String> = names[..4].iter().chain(next.iter()).cloned().collect();
        let ghost = names[4].clone();
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        let mut cur = vec![vec![]];
        for _ in 0..all.len() {
            let mut nx = vec![];
            for p in &cur {
                for i in 0..all.len() {
                    if !p.contains(&i) {
                        let mut q: Vec<usize> = p.clone();
                        q.push(i);
                        nx.push(q);
                    }
                }
            }
            perms.extend(nx.iter().cloned());
            cur = nx;
        }
        for p in perms {
            jobs.push((slot, all.clone(), ghost.clone(), p));
        }
    }
    ctx.par(&jobs, |(slot, all, ghost, p)| {
        for v in VERSIONS {
            ctx.case(&format!("order/{:?}/{}/{:?}", v, slot, p), || {
                let mut cfg = Cfg::new(v, 0);
                cfg.lf = if p.len() % 2 == 0 { Lf::Gen } else { Lf::None };
                for &i in p {
                    cfg.files.push(F::with(&all[i], unique(i), 0, Enc::No));
                }
                let t = cfg.build(ctx)?;
                let mut a = t.open()?;
                for (i, n) in all.iter().enumerate() {
                    if p.contains(&i) {
                        present(&mut a, n, &unique(i))?;
                        present(&mut a, &n.to_ascii_uppercase(), &unique(i))?;
                    } else {
                        absent(&mut a, n)?;
                    }
                }
                absent(&mut a, ghost)?;
                ctx.distinct(&("o", v as u16, *slot, p.clone()));
                Ok(())
            });
        }
    });
}

/// Adding the same name twice (in any spelling, same locale) is refused.
fn duplicates(ctx: &'static Ctx) {
    let base = ["Dir\\File.Txt", "a", "x/y/z.w", "(weird)", "Dir\\yY.zZ"];
    for v in VERSIONS {
        for b in base {
            for s in spellings(b) {
                for (between, loc) in [(0usize, 0u16), (3, 0), (6, 0x409)] {
                    ctx.case(&format!("dup/{:?}/{:?}/{:?}/{}", v, b, s, between), || {
                        let mut cfg = Cfg::new(v, 0);
                        let mut f = F::with(b, unique(1), 0, Enc::No);
                        f.locale = loc;
                        cfg.files.push(f);
                        for i in 0..between {
                            cfg.files.push(F::with(&format!("other{}", i), unique(5 + i), 0, Enc::No));
                        }
                        let mut f = F::with(&s, unique(2), 0, Enc::No);
                        f.locale = loc;
                        cfg.files.push(f);
                        ctx.distinct(&("dup", v as u16, b, s.as_str(), between));
                        match cfg.build(ctx) {
                            Err(_) => Ok(()),
                            Ok(_) => Err(format!("an archive with both {:?} and {:?} was built", b, s)),
                        }
                    });
                }
            }
        }
        // the first of the two sits anywhere in a probe chain, wrapped or not
        for slot in [0usize, 7, 14, 15] {
            let names = colliding("dd\\", 16, slot, 4);
            for again in 0..4usize {
                for extra in again + 1..=4 {
                    ctx.case(&format!("dupchain/{:?}/{}/{}/{}", v, slot, again, extra), || {
                        let mut cfg = Cfg::new(v, 0);
                        cfg.lf = if slot % 2 == 0 { Lf::Gen } else { Lf::None };
                        for (i, n) in names[..extra].iter().enumerate() {
                            cfg.files.push(F::with(n, unique(i), 0, Enc::No));
                        }
                        cfg.build(ctx)?;
                        cfg.files.push(F::with(&names[again].to_ascii_uppercase(), unique(9), 0, Enc::No));
                        ctx.distinct(&("dupchain", v as u16, slot, again, extra));
                        match cfg.build(ctx) {
                            Err(_) => Ok(()),
                            Ok(_) => Err(format!("an archive with {:?} twice was built", names[again])),
                        }
                    });
                }
            }
        }
        // the same name under two locales is two files; the name finds one of them
        for (l1, l2) in [(0u16, 0x409u16), (0x409, 0), (0x407, 0x409)] {
            ctx.case(&format!("locales/{:?}/{:x}/{:x}", v, l1, l2), || {
                let mut cfg = Cfg::new(v, 0);
                for (l, i) in [(l1, 1), (l2, 2)] {
                    let mut f = F::with("same.txt", unique(i), 0, Enc::No);
                    f.locale = l;
                    cfg.files.push(f);
                }
                let t = cfg.build(ctx)?;
                let mut a = t.open()?;
                let g = a.read_file("same.txt").map_err(|e| e.to_string())?;
                if g != unique(1) && g != unique(2) {
                    return Err("neither locale's contents".into());
                }
                Ok(())
            });
        }
    }
}

/// A flood of absent names against archives of every size class (partial hashes must not match).
fn absent_flood(ctx: &'static Ctx) {
    let per = if ctx.deep { 1_000_000 } else { 200_000 };
    let mut jobs = vec![];
    for v in VERSIONS {
        for n in [0usize, 1, 2, 3, 7, 8, 30, 100] {
            for ch in 0..4 {
                jobs.push((v, n, ch));
            }
        }
    }
    let worst = Mutex::new(0u64);
    ctx.par(&jobs, |(v, n, ch)| {
        ctx.case(&format!("flood/{:?}/{}/{}", v, n, ch), || {
            let mut cfg = Cfg::new(*v, 0);
            cfg.lf = if ch % 2 == 0 { Lf::Gen } else { Lf::None };
            for i in 0..*n {
                cfg.files.push(F::with(&format!("real{}\\file", i), unique(i), 0, Enc::No));
            }
            let t = cfg.build(ctx)?;
            let mut a = t.open()?;
            for i in 0..per / 4 {
                let q = format!("ghost{}\\{}", i * 4 + ch, n);
                if let Some(x) = a.find_file(&q).map_err(|e| e.to_string())? {
                    return Err(format!("absent {:?} found as block {}", q, x.block_index));
                }
            }
            for i in 0..*n {
                present(&mut a, &format!("REAL{}/FILE", i), &unique(i))?;
            }
            *worst.lock().unwrap() += per as u64 / 4;
            ctx.distinct(&("f", *v as u16, *n, *ch));
            Ok(())
        });
    });
    ctx.note("absent_lookups", *worst.lock().unwrap());
}
