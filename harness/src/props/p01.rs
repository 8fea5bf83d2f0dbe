//! P01: what is added to an archive is what is read back.
use super::common::*;
use crate::engine::*;
use mopaq::{Archive, FormatVersion, OpenOptions};

/// Names whose MPQ file key is 0, 1, 2, 3, -3, -2, -1 (two each).
pub const EDGE_KEY_NAMES: [&str; 14] = [
    "KAA4IYYX", "KDMSEOVW", "KCSXT5SO", "KEP5YYI4", "K0RYDTKX", "KCOV0UXR", "K033RPG2", "K0JYHFUR", "K4RB0V44", "KFMHM5HP", "K0GRBKGF",
    "KBXSHAN5", "K4XTIWZC", "KG2NPA5S",
];

fn one(ctx: &Ctx, key: &str, cfg: &Cfg) {
    ctx.case(key, || {
        let t = cfg.build(ctx)?;
        let mut a = t.open()?;
        check_contents(&mut a, &cfg.files)?;
        if cfg.files.len() > 10_000 {
            ctx.distinct(&(cfg.version as u16, cfg.files.len()));
            return Ok(());
        }
        // lazily opened archive, tables loaded afterwards
        let mut b = OpenOptions::new().load_tables(false).open(t.path()).map_err(|e| format!("lazy open: {}", e))?;
        b.load_tables().map_err(|e| format!("load_tables: {}", e))?;
        check_contents(&mut b, &cfg.files)?;
        for f in &cfg.files {
            ctx.distinct(&(cfg.version as u16, cfg.shift, cfg.crc, cfg.lf, cfg.tables, f.method, f.enc, f.data.len(), &f.data[..f.data.len().min(32)]));
        }
        Ok(())
    });
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("full product of format version x sector size x codec x encryption x checksums x boundary sizes x content patterns x listfile option x source; every file read back through eager and lazy open; non-trivial = distinct (configuration, size, content) whose bytes were compared");
    let mut jobs: Vec<(String, Cfg)> = vec![];
    // A. boundary product
    let shifts: &[u16] = if ctx.thorough { &[0, 1, 3] } else { &[0] };
    for &v in &VERSIONS {
        for &sh in shifts {
            let s = 512usize << sh;
            for m in LOSSLESS {
                for enc in ENCS {
                    for crc in [false, true] {
                        for (pi, p) in PATTERNS.iter().enumerate() {
                            if m == LZMA && !ctx.thorough && pi > 4 {
                                continue;
                            }
                            let mut c = Cfg::new(v, sh);
                            c.crc = crc;
                            c.lf = [Lf::Gen, Lf::None, Lf::Ext][(pi + enc as usize) % 3];
                            c.tables = if v >= FormatVersion::V3 { [None, Some(ZLIB), Some(BZIP2), Some(LZMA)][(pi + m as usize + crc as usize) % 4] } else { None };
                            for (i, n) in edge_sizes(s).into_iter().enumerate() {
                                let mut f = F::with(&format!("d{}\\f{}.{}", i % 3, n, p), content(p, n, s), m, enc);
                                f.from_path = i % 4 == 3;
                                c.files.push(f);
                            }
                            jobs.push((format!("edge/{:?}/s{}/{}/{:?}/crc{}/{}", v, sh, mname(m), enc, crc as u8, p), c));
                        }
                    }
                }
            }
        }
    }
    // B. every size 0..=N as a one-file archive (no neighbour can hide a misplaced byte)
    let top = if ctx.thorough { 2100 } else { 1100 };
    for n in 0..=top {
        for (k, m) in LOSSLESS.iter().enumerate() {
            let enc = ENCS[(n + k) % 3];
            for &v in &VERSIONS {
                if !ctx.thorough && (*m == LZMA || *m == BZIP2) && n % 4 != v as usize {
                    continue;
                }
                let mut c = Cfg::new(v, 0);
                c.crc = (n / 3 + k) % 2 == 0;
                c.lf = [Lf::Gen, Lf::None][(n / 2) % 2];
                let p = PATTERNS[(n / 5 + k) % PATTERNS.len()];
                c.files.push(F::with("only.bin", content(p, n, 512), *m, enc));
                jobs.push((format!("size/{:?}/{}/{}", v, mname(*m), n), c));
            }
        }
    }
    // C. archives of many files: every count around the table-size boundaries
    let counts: Vec<usize> = if ctx.thorough { (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096]).collect() } else { (0..=34).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]).collect() };
    for &v in &VERSIONS {
        for lf in [Lf::Gen, Lf::None, Lf::Ext] {
            for &n in &counts {
                let mut c = Cfg::new(v, 0);
                c.lf = lf;
                c.tables = if n % 2 == 1 && v >= FormatVersion::V3 { Some(ZLIB) } else { None };
                for i in 0..n {
                    let m = LOSSLESS[i % 5]; // LZMA left out: slow, covered above
                    c.files.push(F::with(
                        &format!("dir{}\\file{:05}.dat", i % 7, i),
                        content(PATTERNS[i % 7], (i * 37) % 1300, 512),
                        m,
                        ENCS[i % 3],
                    ));
                }
                jobs.push((format!("many/{:?}/{:?}/{}", v, lf, n), c));
            }
        }
    }
    // D. sector sizes
    for sh in 0..=12u16 {
        let s = 512usize << sh;
        for &v in &VERSIONS {
            for crc in [false, true] {
                let mut c = Cfg::new(v, sh);
                c.crc = crc;
                for (i, m) in LOSSLESS.iter().enumerate() {
                    if *m == LZMA && sh > 8 {
                        continue;
                    }
                    for (j, n) in [s - 1, s, s + 1, 2 * s + 1].into_iter().enumerate() {
                        if n > 300_000 && !ctx.thorough && (i + j) % 4 != 0 {
                            continue;
                        }
                        c.files.push(F::with(&format!("f{}_{}", i, j), content(PATTERNS[(i + j) % 7], n, s), *m, ENCS[(i + j) % 3]));
                    }
                }
                jobs.push((format!("sector/{:?}/{}/crc{}", v, sh, crc as u8), c));
            }
        }
    }
    for sh in [13u16, 15, 20, 22, 31] {
        for &v in &VERSIONS {
            let mut c = Cfg::new(v, sh);
            c.files.push(F::with("a", content("mix", 70000, 512), ZLIB, Enc::Fix));
            c.files.push(F::with("b", content("noise", 7, 512), 0, Enc::Plain));
            jobs.push((format!("sector/{:?}/{}", v, sh), c));
        }
    }
    // E. large files and positions (wide bit-packed fields in the extended tables)
    let bigs: &[usize] = if ctx.thorough { &[1 << 16, 1 << 18, 1 << 20, 2_097_151, 2_097_152, 3 << 20, 5_000_001, 17 << 20, 40 << 20] } else { &[1 << 16, 1 << 20, 2_097_152, 3 << 20, 17 << 20] };
    for &v in &VERSIONS {
        for &n in bigs {
            for (i, m) in [0u8, ZLIB].iter().enumerate() {
                let mut c = Cfg::new(v, 3);
                c.crc = i == 1;
                c.files.push(F::with("pre", content("text", 10, 512), ZLIB, Enc::No));
                c.files.push(F::with("big", content("mix", n, 4096), *m, ENCS[(n >> 16) % 3]));
                c.files.push(F::with("post1", content("noise", 3000, 512), *m, Enc::Fix));
                c.files.push(F::with("post2", content("noise", 9000, 512), *m, Enc::Plain));
                c.files.push(F::with("empty", vec![], *m, Enc::No));
                jobs.push((format!("big/{:?}/{}/{}", v, n, mname(*m)), c));
            }
        }
    }
    // F. every byte value alone and every adjacent pair class
    for &v in &VERSIONS {
        for enc in ENCS {
            let mut c = Cfg::new(v, 0);
            for b in 0..=255u8 {
                c.files.push(F::with(&format!("one{}", b), vec![b], [0, ZLIB, SPARSE][b as usize % 3], enc));
                c.files.push(F::with(&format!("sec{}", b), vec![b; 512 + b as usize], [0, ZLIB, SPARSE, PKWARE][b as usize % 4], enc));
            }
            jobs.push((format!("bytes/{:?}/{:?}", v, enc), c));
        }
    }
    // G. name shapes: depth, length, separators, non-ASCII, special-looking names, encryption by name
    for &v in &VERSIONS {
        for enc in ENCS {
            let mut c = Cfg::new(v, 0);
            c.lf = if enc == Enc::Plain { Lf::None } else { Lf::Gen };
            let mut names: Vec<String> = vec![
                "a".into(), "A.b".into(), "dir/sub/file.txt".into(), "dir\\sub\\file2.txt".into(), "MiXeD/CaSe\\N.X".into(),
                "(attributesx)".into(), "(signature) ".trim().into(), "\u{e9}t\u{e9}.txt".into(), "\u{4e2d}\u{6587}\\x".into(),
                "x".repeat(255), "y".repeat(1000), "a/b/c/d/e/f/g/h/i/j".into(), "..\\up".into(), "dot.".into(), ".hidden".into(),
                "sp ace".into(), "(hash table)".into(), "(block table)".into(), "file_00000000.dat".into(),
            ];
            for l in 1..40 {
                names.push("n".repeat(l) + "!");
            }
            for (i, n) in names.iter().enumerate() {
                if n == "(signature)" {
                    continue;
                }
                c.files.push(F::with(n, content(PATTERNS[i % 7], 40 + i * 31, 512), LOSSLESS[i % 5], enc));
            }
            jobs.push((format!("names/{:?}/{:?}", v, enc), c));
        }
    }
    // H. locales: a file stored under one locale is found
    for &v in &VERSIONS {
        for loc in [0u16, 1, 0x409, 0x407, 0xFFFF] {
            let mut c = Cfg::new(v, 0);
            for i in 0..6 {
                let mut f = F::with(&format!("loc{}", i), content("ramp", 100 + i * 200, 512), LOSSLESS[i % 5], ENCS[i % 3]);
                f.locale = loc;
                c.files.push(f);
            }
            jobs.push((format!("locale/{:?}/{:x}", v, loc), c));
        }
    }
    // I. default builder and default compression setter
    for &v in &VERSIONS {
        for m in LOSSLESS {
            let key = format!("default/{:?}/{}", v, mname(m));
            jobs.push((key, { let mut c = Cfg::new(v, 3); c.files.push(F::with("@default", content("text", 9000, 4096), m, Enc::No)); c }));
        }
    }
    // J. names whose file key lies at an edge of the 32-bit range (0, 1, 2, 3, -3, -2, -1), so that
    // the key itself, the offset-table key, per-sector keys and tail keys wrap; with position-adjusted
    // keys the size runs over the header size, where (base + position) ^ size reaches 0
    for &v in &VERSIONS {
        for enc in [Enc::Plain, Enc::Fix] {
            for crc in [false, true] {
                for (ni, n) in EDGE_KEY_NAMES.iter().enumerate() {
                    let hs = [32usize, 44, 68, 208][v as usize];
                    let mut sizes = vec![1usize, 2, 3, 4, 5, 7, 8, 11, 13, 17, 511, 512, 513, 1023, 1025, 1537, 2050, 3001];
                    if enc == Enc::Fix {
                        sizes.extend(hs - 6..=hs + 6);
                    }
                    for sz in sizes {
                        for m in [0u8, ZLIB] {
                            let mut c = Cfg::new(v, 0);
                            c.crc = crc;
                            c.lf = Lf::None;
                            c.files.push(F::with(n, content(PATTERNS[(sz + ni) % 7], sz, 512), m, enc));
                            jobs.push((format!("edgekey/{:?}/{:?}/crc{}/{}/{}/{}", v, enc, crc as u8, n, sz, mname(m)), c));
                        }
                    }
                }
            }
        }
    }
    // K. more files than 16 bits count
    for &v in &VERSIONS {
        if !ctx.thorough && matches!(v, FormatVersion::V2 | FormatVersion::V3) {
            continue;
        }
        let mut c = Cfg::new(v, 0);
        for i in 0..70_000usize {
            c.files.push(F::with(&format!("m{}\\{:x}", i % 97, i), (i as u32).to_le_bytes()[..1 + i % 4].to_vec(), 0, ENCS[i % 3]));
        }
        jobs.push((format!("many/{:?}/70000", v), c));
    }
    // M. more sectors than 8, 10, 15 and 16 bits count
    for &v in &VERSIONS {
        for (i, k) in [255usize, 256, 257, 1023, 1025, 32_769, 65_534, 65_535, 65_536, 65_540].into_iter().enumerate() {
            if !ctx.thorough && k > 60_000 && (i + v as usize) % 2 == 1 {
                continue;
            }
            for (j, m) in [0u8, ZLIB].into_iter().enumerate() {
                let mut c = Cfg::new(v, 0);
                c.crc = j == 1 && i % 2 == 0;
                c.files.push(F::with("many.sectors", content("mix", k * 512 - i * 7, 512), m, ENCS[(i + j + v as usize) % 3]));
                c.files.push(F::with("after", content("text", 1000, 512), m, Enc::Fix));
                jobs.push((format!("sectors/{:?}/{}/{}", v, k, mname(m)), c));
            }
        }
    }
    // L. sources on disk: every ending a text-minded reader would touch
    for &v in &VERSIONS {
        let mut c = Cfg::new(v, 0);
        for (i, d) in [&b""[..], b"\n", b"\r\n", b"\r", b"a\n", b"a\r\n", b"a\r\n\r\n", b"\xef\xbb\xbftext\r\n", b"\xff\xfea\0\r\0\n\0", b"a\x1a", b"\0\0\0\0", b"a\0", b"  a  ", b"MPQ\x1a", b"a\n\n\n", b"\xc3\x28\r\n"].iter().enumerate() {
            for (j, m) in [0u8, ZLIB, PKWARE].into_iter().enumerate() {
                for enc in ENCS {
                    for fp in [true, false] {
                        let mut f = F::with(&format!("src{}_{}_{:?}_{}", i, j, enc, fp), d.to_vec(), m, enc);
                        f.from_path = fp;
                        c.files.push(f);
                    }
                }
            }
        }
        jobs.push((format!("source/{:?}", v), c));
    }
    jobs.sort_by_key(|(_, c)| std::cmp::Reverse(c.files.iter().map(|f| f.data.len() + 2000).sum::<usize>()));
    // waits for memory most of the time
    let large = std::thread::spawn(move || beyond(ctx));
    ctx.par(&jobs, |(k, c)| {
        if k.starts_with("default/") {
            ctx.case(k, || {
                let t = Tmp(ctx.file("d.mpq"));
                let d = c.files[0].data.clone();
                mopaq::ArchiveBuilder::new().version(c.version).default_compression(c.files[0].method).add_file_data(d.clone(), "x\\y.txt").build(t.path()).map_err(|e| e.to_string())?;
                let mut a = Archive::open(t.path()).map_err(|e| e.to_string())?;
                diff(&a.read_file("x/Y.TXT").map_err(|e| e.to_string())?, &d)?;
                // an archive created empty stays readable
                let t2 = Tmp(ctx.file("e.mpq"));
                let mut e = OpenOptions::new().version(c.version).create(t2.path()).map_err(|e| format!("create: {}", e))?;
                if e.header().format_version != c.version {
                    return Err("created with another version".into());
                }
                match e.read_file("nothing") {
                    Err(mopaq::Error::FileNotFound(_)) => Ok(()),
                    x => Err(format!("reading an absent file of an empty archive: {:?}", x.map(|v| v.len()))),
                }
            });
        } else {
            one(ctx, k, c)
        }
    });
    if let Some((k, c)) = jobs.iter().find(|j| j.0.starts_with("edge/V4")) {
        ctx.sample("edge", || format!("{}: {} files of sizes {:?}...", k, c.files.len(), c.files.iter().take(30).map(|f| f.data.len()).collect::<Vec<_>>()));
    }
    ctx.sample("size", || "size/V1/zlib/513: one 513-byte file, 512-byte sectors".into());
    ctx.note("archives", jobs.len() as u64);
    ctx.note("files", jobs.iter().map(|j| j.1.files.len() as u64).sum::<u64>());
    large.join().ok();
    ctx.assume("archives beyond 4 GB are built from sparse sources only");
}

/// Archives and files around 4 GB, from sparse sources: read back exactly, or refused without touching the destination.
fn beyond(ctx: &'static Ctx) {
    const G: u64 = 1 << 30;
    ALLOC_CAP.store(16 << 30, std::sync::atomic::Ordering::Relaxed);
    // (key, version, block size, big files, checksums)
    let mut jobs: Vec<(&str, FormatVersion, u16, Vec<u64>, bool)> = vec![
        ("positions", FormatVersion::V2, 13, vec![G + G / 2, G + G / 2, G + G / 2 - 7], false),
        ("positions", FormatVersion::V1, 13, vec![G + G / 2, G + G / 2, G + G / 2 - 7], false),
    ];
    if ctx.thorough {
        jobs.push(("positions", FormatVersion::V3, 13, vec![G + G / 2, G + G / 2, G + G / 2 - 7], false));
        jobs.push(("positions", FormatVersion::V4, 13, vec![2 * G + 1, 2 * G + 2], true));
        for v in VERSIONS {
            jobs.push(("size", v, 13, vec![4 * G + 10], false));
            jobs.push(("offsets", v, 5, vec![4 * G - 100], false));
        }
        jobs.push(("fits", FormatVersion::V2, 13, vec![4 * G - (8 << 20)], true));
    }
    let mark = |i: usize| format!("mark of file {}", i).into_bytes();
    for (k, v, shift, big, crc) in jobs {
        ctx.case(&format!("beyond/{}/{:?}/s{}/{:?}/{}", k, v, shift, big, crc), || {
            let dest = ctx.file("beyond.mpq");
            std::fs::write(&dest, b"before").unwrap();
            let mut srcs = vec![];
            let mut b = mopaq::ArchiveBuilder::new().version(v).block_size(shift).generate_crcs(crc).default_compression(0);
            b = b.add_file_data(content("text", 5000, 512), "first");
            for (i, &n) in big.iter().enumerate() {
                use std::os::unix::fs::FileExt;
                let p = ctx.file("big");
                let f = std::fs::File::create(&p).unwrap();
                f.set_len(n).unwrap();
                f.write_all_at(&mark(i), 3).unwrap();
                f.write_all_at(&mark(i), n - 40).unwrap();
                b = b.add_file(&p, &format!("big{}", i));
                srcs.push(p);
            }
            let small = content("mix", 3000, 512);
            b = b.add_file_data(small.clone(), "after").add_file_data_with_options(small.clone(), "after enc", ZLIB, true, 0).add_file_data_with_encryption(small.clone(), "after fix", ZLIB, true, 0);
            let r = b.build(&dest).map_err(|e| e.to_string());
            for p in srcs {
                std::fs::remove_file(p).ok();
            }
            let out = (|| match &r {
                Err(_) => {
                    ctx.add("refused", 1);
                    if std::fs::read(&dest).ok() != Some(b"before".to_vec()) {
                        return Err("a refused build changed the destination".into());
                    }
                    // within the limits of the format
                    if k == "fits" || k == "positions" && v != FormatVersion::V1 {
                        return Err(format!("not built: {:?}", r));
                    }
                    Ok(())
                }
                Ok(()) => {
                    let mut a = Archive::open(&dest).map_err(|e| format!("open: {}", e))?;
                    for n in ["after", "after enc", "after fix"] {
                        let got = a.read_file(n).map_err(|e| format!("{}: {}", n, e))?;
                        diff(&got, &small).map_err(|e| format!("{}: {}", n, e))?;
                    }
                    for (i, &n) in big.iter().enumerate() {
                        let got = a.read_file(&format!("big{}", i)).map_err(|e| format!("big{}: {}", i, e))?;
                        let m = mark(i);
                        let mut want = vec![0u8; 3];
                        want.extend(&m);
                        if got.len() as u64 != n || got[..want.len()] != want[..] || got[got.len() - 40..got.len() - 40 + m.len()] != m[..] {
                            return Err(format!("big{}: {} bytes, or its marks are not where they were put", i, got.len()));
                        }
                        let rest = &got[want.len()..got.len() - 40];
                        if let Some(at) = rest.chunks(1 << 16).position(|c| c.iter().any(|b| *b != 0)) {
                            return Err(format!("big{}: other content near {}", i, at << 16));
                        }
                    }
                    if a.list().map_err(|e| e.to_string())?.len() != big.len() + 5 {
                        return Err("list".into());
                    }
                    ctx.add("built_beyond_4gb", 1);
                    Ok(())
                }
            })();
            std::fs::remove_file(&dest).ok();
            out?;
            ctx.distinct(&("beyond", k, v as u16, shift));
            Ok(())
        });
    }
}
