//! P21: an archive's bytes depend only on what the builder was told, not on the order of the calls, the source, the
//! destination or earlier builds.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive};
use mopaq::{ArchiveBuilder, ListfileOption};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    Version(u16),
    Shift(u16),
    Default(u8),
    Crc(bool),
    List(Lf),
    Tables(bool),
    TableMethod(u8),
    /// in memory or on disk, with the default method
    Add(bool),
    /// in memory or on disk, method, encrypted, locale
    AddOptions(bool, u8, bool, u16),
    /// in memory or on disk, method, position-adjusted key
    AddEncrypted(bool, u8, bool),
    /// all sources on disk (files and list file) are rewritten
    Rewrite,
}
fn alphabet() -> Vec<Op> {
    use Op::*;
    let mut v = vec![
        Version(1),
        Version(2),
        Version(3),
        Shift(0),
        Shift(1),
        Default(0),
        Default(BZIP2),
        Crc(true),
        Crc(false),
        List(Lf::None),
        List(Lf::Ext),
        List(Lf::Gen),
        Tables(true),
        Tables(false),
        TableMethod(BZIP2),
    ];
    v.extend(adders());
    v
}
fn adders() -> Vec<Op> {
    use Op::*;
    vec![Add(false), Add(true), AddOptions(false, PKWARE, true, 0), AddOptions(true, 0, false, 0x409), AddEncrypted(false, ZLIB, true), AddEncrypted(true, SPARSE, false), Rewrite]
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct File {
    name: String,
    disk: bool,
    method: u8,
    enc: Enc,
    locale: u16,
}
/// What the builder has been told so far.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct State {
    version: u16,
    shift: u16,
    default: u8,
    crc: bool,
    lf: Lf,
    tables: bool,
    table_method: u8,
    files: Vec<File>,
    /// which edition of the sources lies on the disk
    edition: u8,
}
fn name(i: usize) -> String {
    format!("{}file {}.dat", ["", "Dir\\", "dir/sub/"][i % 3], i)
}
fn data(i: usize, edition: u8) -> Vec<u8> {
    let n = [1700, 40, 512, 0, 1025][i % 5] + edition as usize * 3;
    if n < 4 && i % 5 == 3 {
        return vec![];
    }
    let mut d = content(["text", "mix", "altsec", "ramp", "zero"][(i + i / 5) % 5], n, 512);
    d[0] = i as u8 + 16 * edition;
    d
}
impl State {
    fn new() -> State {
        State { version: 0, shift: 3, default: ZLIB, crc: false, lf: Lf::Gen, tables: false, table_method: ZLIB, files: vec![], edition: 0 }
    }
    fn apply(&mut self, op: Op) {
        let name = name(self.files.len());
        match op {
            Op::Version(v) => self.version = v,
            Op::Shift(s) => self.shift = s,
            Op::Default(m) => self.default = m,
            Op::Crc(c) => self.crc = c,
            Op::List(l) => self.lf = l,
            Op::Tables(t) => self.tables = t,
            Op::TableMethod(m) => self.table_method = m,
            Op::Add(disk) => self.files.push(File { name, disk, method: self.default, enc: Enc::No, locale: 0 }),
            Op::AddOptions(disk, method, e, locale) => self.files.push(File { name, disk, method, enc: if e { Enc::Plain } else { Enc::No }, locale }),
            Op::AddEncrypted(disk, method, fix) => self.files.push(File { name, disk, method, enc: if fix { Enc::Fix } else { Enc::Plain }, locale: 0 }),
            Op::Rewrite => self.edition = 1,
        }
    }
    fn edition_of(&self, i: usize) -> u8 {
        if self.files[i].disk {
            self.edition
        } else {
            0
        }
    }
    fn external(&self) -> Vec<u8> {
        format!("edition {}\r\n{}\r\n", self.edition, name(0)).into_bytes()
    }
}

struct Sources(PathBuf);
impl Sources {
    fn write(&self, edition: u8) {
        for i in 0..8 {
            std::fs::write(self.0.join(i.to_string()), data(i, edition)).unwrap();
        }
        std::fs::write(self.0.join("list"), State { edition, ..State::new() }.external()).unwrap();
    }
}

/// The calls as they are.
fn literal(ops: &[Op], src: &Sources) -> ArchiveBuilder {
    src.write(0);
    let mut b = ArchiveBuilder::new();
    let mut n = 0;
    for op in ops {
        let (nm, p) = (name(n), src.0.join(n.to_string()));
        b = match *op {
            Op::Version(v) => b.version(VERSIONS[v as usize]),
            Op::Shift(s) => b.block_size(s),
            Op::Default(m) => b.default_compression(m),
            Op::Crc(c) => b.generate_crcs(c),
            Op::List(l) => b.listfile_option(match l {
                Lf::Gen => ListfileOption::Generate,
                Lf::None => ListfileOption::None,
                Lf::Ext => ListfileOption::External(src.0.join("list")),
            }),
            Op::Tables(t) => b.compress_tables(t),
            Op::TableMethod(m) => b.table_compression(m),
            Op::Add(false) => b.add_file_data(data(n, 0), &nm),
            Op::Add(true) => b.add_file(p, &nm),
            Op::AddOptions(false, m, e, l) => b.add_file_data_with_options(data(n, 0), &nm, m, e, l),
            Op::AddOptions(true, m, e, l) => b.add_file_with_options(p, &nm, m, e, l),
            Op::AddEncrypted(false, m, f) => b.add_file_data_with_encryption(data(n, 0), &nm, m, f, 0),
            Op::AddEncrypted(true, m, f) => b.add_file_with_encryption(p, &nm, m, f, 0),
            Op::Rewrite => {
                src.write(1);
                b
            }
        };
        n += matches!(op, Op::Add(_) | Op::AddOptions(..) | Op::AddEncrypted(..)) as usize;
    }
    b
}
/// The same archive, told in one fixed way: all options spelled out, after (or before) the files, sources in memory
/// (or on disk).
fn canonical(s: &State, src: &Sources, variant: usize) -> ArchiveBuilder {
    src.write(s.edition);
    let mut b = ArchiveBuilder::new();
    let options = |mut b: ArchiveBuilder| {
        b = b.default_compression(s.default).table_compression(s.table_method).compress_tables(s.tables).generate_crcs(s.crc).block_size(s.shift).version(VERSIONS[s.version as usize]);
        b.listfile_option(match s.lf {
            Lf::Gen => ListfileOption::Generate,
            Lf::None => ListfileOption::None,
            Lf::Ext => ListfileOption::External(src.0.join("list")),
        })
    };
    if variant & 1 == 0 {
        b = options(b);
    }
    for (i, f) in s.files.iter().enumerate() {
        let d = data(i, s.edition_of(i));
        let p = src.0.join(i.to_string());
        b = if variant & 2 == 0 {
            match f.enc {
                Enc::Fix => b.add_file_data_with_encryption(d, &f.name, f.method, true, f.locale),
                e => b.add_file_data_with_options(d, &f.name, f.method, e == Enc::Plain, f.locale),
            }
        } else {
            std::fs::write(&p, d).unwrap();
            match f.enc {
                Enc::No => b.add_file_with_options(p, &f.name, f.method, false, f.locale),
                e => b.add_file_with_encryption(p, &f.name, f.method, e == Enc::Fix, f.locale),
            }
        };
    }
    if variant & 1 == 1 {
        b = options(b);
    }
    b
}

/// The independent reader sees what the model says.
fn judge(s: &State, bytes: &[u8]) -> Result<(), String> {
    let a = RefArchive::parse(bytes)?;
    if a.version != s.version || a.shift != s.shift {
        return Err(format!("version {} and block size {} instead of {} and {}", a.version, a.shift, s.version, s.shift));
    }
    for (i, f) in s.files.iter().enumerate() {
        let h = a.lookup(&f.name, f.locale).filter(|h| h.locale == f.locale).ok_or_else(|| format!("{:?} is not stored", f.name))?;
        let e = &a.block[h.block as usize];
        let (_, d) = a.extract(&f.name, e)?;
        let want = data(i, s.edition_of(i));
        diff(&d, &want).map_err(|m| format!("{:?}: {}", f.name, m))?;
        let enc = match (e.flags & r::ENCRYPTED != 0, e.flags & r::FIX_KEY != 0) {
            (false, _) => Enc::No,
            (true, false) => Enc::Plain,
            (true, true) => Enc::Fix,
        };
        if enc != f.enc && !want.is_empty() {
            return Err(format!("{:?}: {:?} instead of {:?}", f.name, enc, f.enc));
        }
        if (e.flags & r::CRC != 0) != s.crc && !want.is_empty() {
            return Err(format!("{:?}: checksums {}", f.name, e.flags & r::CRC != 0));
        }
        if f.method == 0 && e.csize < e.fsize {
            return Err(format!("{:?}: compressed", f.name));
        }
        if [ZLIB, BZIP2].contains(&f.method) && i % 5 == 0 && i < 5 && e.csize >= e.fsize {
            return Err(format!("{:?}: not compressed", f.name));
        }
    }
    let n = s.files.len() + (s.lf != Lf::None) as usize;
    if a.block.iter().filter(|b| b.flags & r::EXISTS != 0).count() != n {
        return Err(format!("not exactly {} files", n));
    }
    match (s.lf, a.lookup("(listfile)", 0)) {
        (Lf::None, None) => {}
        (Lf::None, Some(_)) | (_, None) => return Err("list file presence".into()),
        (l, Some(h)) => {
            let (_, d) = a.extract("(listfile)", &a.block[h.block as usize])?;
            if l == Lf::Ext {
                diff(&d, &s.external()).map_err(|m| format!("external list file: {}", m))?;
            } else {
                let t = String::from_utf8_lossy(&d).into_owned();
                let g: BTreeSet<&str> = t.lines().filter(|l| *l != "(listfile)").collect();
                let w: BTreeSet<&str> = s.files.iter().map(|f| &f.name[..]).collect();
                if g != w {
                    return Err(format!("list file: {:?} instead of {:?}", g, w));
                }
            }
        }
    }
    Ok(())
}

fn history(ctx: &Ctx, ops: &[Op], seen: &Mutex<std::collections::HashSet<u64>>) -> Result<(), String> {
    let dir = ctx.file("b");
    std::fs::create_dir_all(&dir).unwrap();
    let src = Sources(dir.clone());
    let mut s = State::new();
    for op in ops {
        s.apply(*op);
    }
    let out = dir.join("out.mpq");
    let told = || format!("{:?}", ops);
    literal(ops, &src).build(&out).map_err(|e| format!("{}: build failed: {}", told(), e))?;
    let one = std::fs::read(&out).map_err(|e| e.to_string())?;
    judge(&s, &one).map_err(|m| format!("{}: {}", told(), m))?;
    // the same archive again, told otherwise and built elsewhere
    let variant = hash64(&s) as usize % 4;
    let there = dir.join("another directory with a rather long name");
    std::fs::create_dir_all(&there).unwrap();
    let out2 = there.join("x");
    std::fs::write(&out2, vec![0xEE; 70_000]).unwrap();
    canonical(&s, &src, variant).build(&out2).map_err(|e| format!("{}: second build failed: {}", told(), e))?;
    let two = std::fs::read(&out2).map_err(|e| e.to_string())?;
    diff(&two, &one).map_err(|m| format!("{}: the same archive told in another way (variant {}) differs: {}", told(), variant, m))?;
    ctx.transitions.fetch_add(ops.len() as u64, Ordering::Relaxed);
    if seen.lock().unwrap().insert(hash64(&s)) {
        ctx.states.fetch_add(1, Ordering::Relaxed);
    }
    ctx.distinct(&hash64(ops));
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("model_checking");
    ctx.rule("every sequence of up to 3 (4) builder calls over the whole alphabet (all setters, all ways to add a file, rewriting the sources on disk), with and without a closing addition, and longer ones over reduced alphabets; after each the archive is judged by a model of the builder's state and must be byte-identical to the same state told in a canonical way with other kinds of sources, built at another place over other content; non-trivial = distinct model states");
    let begin = std::time::Instant::now();
    let seen = Mutex::new(Default::default());
    let all = alphabet();
    // a first round, repeated at the end, when at least two seconds have passed
    let cfgs = matrix(false);
    let cfgs: Vec<_> = cfgs.iter().filter(|c| c.1.files.len() < 20).collect();
    let first = Mutex::new(std::collections::HashMap::new());
    ctx.par(&cfgs, |(k, c)| {
        ctx.case(&format!("again/{}", k), || {
            let t = c.build(ctx)?;
            let b = t.bytes();
            let t2 = c.build(ctx)?;
            diff(&t2.bytes(), &b).map_err(|m| format!("built twice: {}", m))?;
            first.lock().unwrap().insert(k.clone(), hash64(&b));
            Ok(())
        });
    });
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut jobs: Vec<Vec<Op>> = vec![vec![], vec![Op::Add(true)]];
    let mut level: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..depth {
        level = level.iter().flat_map(|h| all.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
        jobs.extend(level.iter().cloned());
    }
    // a file after everything, so that every setting takes effect, and one before
    let closed: Vec<Vec<Op>> = jobs.iter().filter(|j| j.len() < 4 && j.len() > 1).map(|h| [&[Op::Add(false)], &h[..], &[Op::Add(true)]].concat()).collect();
    jobs.extend(closed);
    // all orders of one setting of each kind around two files
    let kinds = [Op::Version(3), Op::Shift(0), Op::Default(BZIP2), Op::Crc(true), Op::List(Lf::Ext), Op::Tables(true), Op::Add(true), Op::AddEncrypted(false, ZLIB, true)];
    fn orders(rest: &[Op], cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if rest.is_empty() {
            out.push(cur.clone());
        }
        for i in 0..rest.len() {
            let mut r = rest.to_vec();
            cur.push(r.remove(i));
            orders(&r, cur, out);
            cur.pop();
        }
    }
    let take = if ctx.thorough { 8 } else { 7 };
    let from = kinds.len() - take;
    orders(&kinds[from..], &mut vec![], &mut jobs);
    // longer runs of additions
    let mut adds: Vec<Vec<Op>> = vec![vec![]];
    let ad = adders();
    for _ in 0..if ctx.thorough { 5 } else { 4 } {
        adds = adds.iter().flat_map(|h| ad.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
    }
    jobs.extend(adds.into_iter().map(|h| [&[Op::Version(3), Op::Shift(0)], &h[..]].concat()));
    ctx.note("histories", jobs.len() as u64);
    ctx.sample("history", || format!("{:?}", jobs[jobs.len() / 2]));
    let chunks: Vec<(usize, &[Vec<Op>])> = jobs.chunks(64).enumerate().collect();
    ctx.par(&chunks, |(i, c)| {
        for (j, ops) in c.iter().enumerate() {
            ctx.case(&format!("history/{}", i * 64 + j), || history(ctx, ops, &seen));
        }
    });
    // sources that are gone when the archive is built
    for (i, op) in ad.iter().enumerate().filter(|(_, o)| matches!(o, Op::Add(true) | Op::AddOptions(true, ..) | Op::AddEncrypted(true, ..))) {
        for v in 0..4 {
            for before in [false, true].into_iter().flat_map(|x| (0..5usize).flat_map(move |k| (0..5usize).map(move |m| (x, k, m)))) {
                ctx.case(&format!("gone/{}/{:?}/{:?}", i, v, before), || {
                    let (before, k, m) = before;
                    let dir = ctx.file("g");
                    std::fs::create_dir_all(&dir).unwrap();
                    // k other files before the one that is lost, m after it
                    let ops = [&[Op::Version(v)], &vec![Op::Add(false); k][..], &[*op], &vec![Op::Add(false); m][..]].concat();
                    let b = literal(&ops, &Sources(dir.clone()));
                    for e in std::fs::read_dir(&dir).unwrap() {
                        std::fs::remove_file(e.unwrap().path()).unwrap();
                    }
                    let out = dir.join("out.mpq");
                    if before {
                        std::fs::write(&out, "before").unwrap();
                    }
                    if b.build(&out).is_ok() {
                        return Err("built without its source".into());
                    }
                    if std::fs::read(&out).ok() != before.then(|| b"before".to_vec()) {
                        return Err("a failed build changed the destination".into());
                    }
                    let _ = std::fs::remove_dir_all(&dir);
                    Ok(())
                });
            }
        }
    }
    // a list file that is gone
    for v in 0..4u16 {
        for n in 0..5usize {
            for disk in [false, true] {
                ctx.case(&format!("gone-list/{:?}/{}/{}", v, n, disk), || {
                    let dir = ctx.file("g");
                    std::fs::create_dir_all(&dir).unwrap();
                    let ops = [&[Op::Version(v), Op::List(Lf::Ext)], &vec![Op::Add(disk); n][..]].concat();
                    let b = literal(&ops, &Sources(dir.clone()));
                    std::fs::remove_file(dir.join("list")).unwrap();
                    let out = dir.join("out.mpq");
                    std::fs::write(&out, "before").unwrap();
                    if b.build(&out).is_ok() {
                        return Err("built without its list file".into());
                    }
                    if std::fs::read(&out).ok() != Some(b"before".to_vec()) {
                        return Err("a failed build changed the destination".into());
                    }
                    let _ = std::fs::remove_dir_all(&dir);
                    Ok(())
                });
            }
        }
    }
    let passed = begin.elapsed();
    if passed < std::time::Duration::from_millis(2100) {
        std::thread::sleep(std::time::Duration::from_millis(2100) - passed);
    }
    ctx.par(&cfgs, |(k, c)| {
        ctx.case(&format!("later/{}", k), || {
            let b = c.build(ctx)?.bytes();
            match first.lock().unwrap().get(k) {
                Some(h) if *h != hash64(&b) => Err("built again a little later, the archive differs".into()),
                _ => Ok(()),
            }
        });
    });
    ctx.assume("a file added without options takes the default method set at that moment; flags of empty files are not judged");
}
