//! P07: what the builder writes conforms to the format (judged by the independent reader).
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive};
use mopaq::FormatVersion;

fn check(ctx: &Ctx, c: &Cfg) -> Result<(), String> {
    let t = c.build(ctx)?;
    let d = t.bytes();
    let a = RefArchive::parse(&d)?;
    if a.base != 0 || a.version != c.version as u16 || a.shift != c.shift {
        return Err(format!("header: base {} version {} shift {}", a.base, a.version, a.shift));
    }
    if a.header_size as usize != [32usize, 44, 68, 208][a.version as usize] {
        return Err(format!("header size {}", a.header_size));
    }
    if a.archive_size as u64 != d.len() as u64 {
        return Err(format!("archive size field {} of a {} byte file", a.archive_size, d.len()));
    }
    if c.version >= FormatVersion::V3 && a.archive_size64 != d.len() as u64 {
        return Err(format!("64-bit archive size field {} of a {} byte file", a.archive_size64, d.len()));
    }
    let nfiles = c.files.len() + (c.lf != Lf::None) as usize;
    if a.block.len() != nfiles {
        return Err(format!("{} block entries for {} files", a.block.len(), nfiles));
    }
    if !a.hash.len().is_power_of_two() || a.hash.iter().filter(|h| h.block < 0xFFFFFFFE).count() != nfiles {
        return Err("hash table does not hold exactly the files".into());
    }
    let mut used = vec![false; nfiles];
    // regions: header, tables, every stored file; they must not overlap and must lie inside the file
    let mut regions: Vec<(u64, u64, String)> = vec![(0, a.header_size as u64, "header".into())];
    regions.push((a.hash_pos, a.hash.len() as u64 * 16, "hash table".into()));
    regions.push((a.block_pos, a.block.len() as u64 * 16, "block table".into()));
    if a.hi_pos != 0 {
        regions.push((a.hi_pos, a.block.len() as u64 * 2, "hi-block table".into()));
    }
    let mut names: Vec<(String, u16, Option<&F>)> = c.files.iter().map(|f| (f.name.clone(), f.locale, Some(f))).collect();
    if c.lf != Lf::None {
        names.push(("(listfile)".into(), 0, None));
    }
    for (n, loc, f) in &names {
        let h = a.lookup(n, *loc).ok_or(format!("{:?} (locale {:x}) not found in the hash table", n, loc))?;
        if h.platform != 0 {
            return Err(format!("{:?}: platform {}", n, h.platform));
        }
        if std::mem::replace(&mut used[h.block as usize], true) {
            return Err(format!("{:?} shares its block with another name", n));
        }
        let b = &a.block[h.block as usize];
        let (stored, data) = a.extract(n, b).map_err(|m| format!("{:?}: {}", n, m))?;
        match f {
            Some(f) => {
                diff(&data, &f.data).map_err(|m| format!("{:?}: {}", n, m))?;
                let enc = b.flags & r::ENCRYPTED != 0;
                let fix = b.flags & r::FIX_KEY != 0;
                if enc != (f.enc != Enc::No) || fix != (f.enc == Enc::Fix) {
                    return Err(format!("{:?}: flags {:#x} for {:?}", n, b.flags, f.enc));
                }
                if (b.flags & r::CRC != 0) != c.crc {
                    return Err(format!("{:?}: checksum flag {:#x}", n, b.flags));
                }
            }
            None => {
                // the generated listfile names every file, itself included
                if c.lf == Lf::Gen {
                    let text = String::from_utf8(data).map_err(|e| e.to_string())?;
                    let mut got: Vec<&str> = text.lines().collect();
                    let mut want: Vec<&str> = names.iter().map(|x| x.0.as_str()).collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("listfile {:?}", got));
                    }
                }
            }
        }
        regions.push((b.pos, stored as u64, format!("file {:?}", n)));
    }
    if c.version >= FormatVersion::V3 {
        if a.het_pos == 0 || a.bet_pos == 0 {
            return Err("no extended tables".into());
        }
        // sizes: V4 declares them; V3 tables lie between BET/hash positions
        let (hs, bs) = if c.version == FormatVersion::V4 { (a.sizes64[3], a.sizes64[4]) } else { (a.bet_pos - a.het_pos, a.hash_pos - a.bet_pos) };
        regions.push((a.het_pos, hs, "HET table".into()));
        regions.push((a.bet_pos, bs, "BET table".into()));
        het_bet(&d, &a, hs, bs, &names)?;
    }
    if c.version == FormatVersion::V4 {
        md5s(&d, &a)?;
    }
    regions.sort();
    for w in regions.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 && w[0].1 > 0 && w[1].1 > 0 {
            return Err(format!("{} ({}+{}) overlaps {} (at {})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0));
        }
    }
    for (p, l, n) in &regions {
        if p + l > d.len() as u64 {
            return Err(format!("{} ends at {} of a {} byte file", n, p + l, d.len()));
        }
    }
    Ok(())
}

fn md5s(d: &[u8], a: &RefArchive) -> Result<(), String> {
    let f = |o: usize| -> [u8; 16] { d[o..o + 16].try_into().unwrap() };
    // offsets of the digests in the 208-byte header
    let reg = |pos: u64, len: u64| &d[pos as usize..(pos + len) as usize];
    let want: [(&str, usize, &[u8]); 5] = [
        ("block table", 112, reg(a.block_pos, a.sizes64[1])),
        ("hash table", 128, reg(a.hash_pos, a.sizes64[0])),
        ("BET table", 160, reg(a.bet_pos, a.sizes64[4])),
        ("HET table", 176, reg(a.het_pos, a.sizes64[3])),
        ("header", 192, &d[0..192]),
    ];
    if a.sizes64[0] != a.hash.len() as u64 * 16 || a.sizes64[1] != a.block.len() as u64 * 16 {
        return Err(format!("table sizes in the header {:?}", a.sizes64));
    }
    for (n, o, b) in want {
        if f(o) != r::md5(b) {
            return Err(format!("digest of the {} does not match it", n));
        }
    }
    if a.hi_pos != 0 && f(144) != r::md5(reg(a.hi_pos, a.block.len() as u64 * 2)) {
        return Err("digest of the hi-block table does not match it".into());
    }
    Ok(())
}

/// Decode the extended tables independently and compare them with the classic ones.
fn het_bet(d: &[u8], a: &RefArchive, hs: u64, bs: u64, names: &[(String, u16, Option<&F>)]) -> Result<(), String> {
    let table = |pos: u64, len: u64, sig: u32, key: &str| -> Result<Vec<u8>, String> {
        let raw = d.get(pos as usize..(pos + len) as usize).ok_or("extended table outside the file")?;
        if r::r32(raw, 0)? != sig || r::r32(raw, 4)? != 1 {
            return Err(format!("bad extended table header {:02x?}", &raw[..12.min(raw.len())]));
        }
        let size = r::r32(raw, 8)? as usize;
        let mut body = raw[12..].to_vec();
        r::decrypt_bytes(&mut body, r::hash(key.as_bytes(), 3));
        if body.len() == size {
            Ok(body)
        } else if body.len() < size {
            r::ref_decompress(&body, size).map_err(|m| format!("compressed extended table: {}", m))
        } else {
            Err(format!("extended table of {} bytes declares {}", body.len(), size))
        }
    };
    let bits = |b: &[u8], at: usize, n: usize| -> Result<u64, String> {
        let mut v = 0u64;
        for i in 0..n {
            let byte = b.get((at + i) / 8).ok_or("bit field outside the table")?;
            v |= ((*byte as u64 >> ((at + i) % 8)) & 1) << i;
        }
        Ok(v)
    };
    let b = table(a.bet_pos, bs, 0x1A544542, "(block table)")?;
    let w = |i: usize| r::r32(&b, i * 4).map(|x| x as usize);
    // fixed fields: table_size, file_count, unknown, entry size, 5 bit indices, 5 bit counts, hash sizes, flags
    if w(0)? != b.len() + 12 {
        return Err(format!("BET declares {} bytes and has {}", w(0)?, b.len()));
    }
    let (n, entry) = (w(1)?, w(3)?);
    if n != a.block.len() {
        return Err(format!("BET has {} files, block table {}", n, a.block.len()));
    }
    let idx = [w(4)?, w(5)?, w(6)?, w(7)?];
    let cnt = [w(9)?, w(10)?, w(11)?, w(12)?];
    let nflags = w(18)?;
    let mut at = 19 * 4;
    let mut flags = vec![];
    for _ in 0..nflags {
        flags.push(r::r32(&b, at)?);
        at += 4;
    }
    let ft = &b[at..];
    for (k, e) in a.block.iter().enumerate() {
        let g = |j: usize| bits(ft, k * entry + idx[j], cnt[j]);
        let (pos, fs, cs, fi) = (g(0)?, g(1)?, g(2)?, g(3)? as usize);
        let fl = *flags.get(fi).ok_or(format!("BET entry {} has flag index {} of {}", k, fi, nflags))?;
        if (pos, fs, cs, fl) != (e.pos, e.fsize as u64, e.csize as u64, e.flags) {
            return Err(format!("BET entry {} = {:?}, block table says {:?}", k, (pos, fs, cs, fl), (e.pos, e.fsize, e.csize, e.flags)));
        }
    }
    let h = table(a.het_pos, hs, 0x1A544548, "(hash table)")?;
    if r::r32(&h, 0)? as usize != h.len() + 12 {
        return Err(format!("HET declares {} bytes and has {}", r::r32(&h, 0)?, h.len()));
    }
    if (r::r32(&h, 4)? as usize) < names.len() {
        return Err(format!("HET file count {} below {}", r::r32(&h, 4)?, names.len()));
    }
    // the hash parts of both tables, as this library lays them out: the full name hash of each file in the BET table
    // (in block order), its low bits and the block index in one slot of the HET table on the probe path of the name
    let hashes = &ft[(n * entry).div_ceil(8)..];
    let (hb, ib) = (r::r32(&h, 12)? as usize, r::r32(&h, 24)? as usize);
    let slots = (2 * r::r32(&h, 4)? as usize).next_power_of_two();
    if w(16)? > 64 || hb + ib > 64 || hb == 0 {
        return Err(format!("name hashes of {} and {} bits, indices of {}", w(16)?, hb, ib));
    }
    let mask = |bits: usize| u64::MAX >> (64 - bits);
    let mut taken = vec![false; slots];
    let mut paths = vec![];
    for (name, loc, _) in names {
        let k = a.lookup(name, *loc).ok_or("name lost")?.block as usize;
        let j = super::p06::jenkins(name.as_bytes());
        let got = bits(hashes, k * w(16)?, w(16)?)?;
        if got != j & mask(w(16)?) {
            return Err(format!("{:?}: BET name hash {:#x}, expected {:#x}", name, got, j));
        }
        let want = j & mask(hb) | (k as u64) << hb;
        let start = j as usize & (slots - 1);
        let mut found = None;
        for p in 0..slots {
            let e = bits(&h[32..], (start + p) % slots * (hb + ib), hb + ib)?;
            // an entry of zeros (low bits and block 0) cannot be told from an unused slot: its place is the first one on its path
            if e == want && !taken[(start + p) % slots] {
                found = Some(p);
                break;
            }
        }
        let Some(p) = found else {
            return Err(format!("{:?}: no HET entry leads to block {}", name, k));
        };
        taken[(start + p) % slots] = true;
        paths.push((name, start, p));
    }
    for (name, start, p) in paths {
        if let Some(q) = (0..p).find(|q| !taken[(start + q) % slots]) {
            return Err(format!("{:?}: its HET entry lies {} slots behind its own, but slot {} on the way is free", name, p, q));
        }
    }
    Ok(())
}

/// Archives whose later files and tables lie beyond 4 GB (from sparse sources).
fn beyond(ctx: &'static Ctx) {
    const G: u64 = 1 << 30;
    ALLOC_CAP.store(16 << 30, std::sync::atomic::Ordering::Relaxed);
    for v in [FormatVersion::V3, FormatVersion::V4, FormatVersion::V2] {
        if v == FormatVersion::V2 && !ctx.deep {
            continue;
        }
        ctx.case(&format!("beyond/{:?}", v), || {
            let src = ctx.file("big");
            let big = G + G / 2 + 5;
            std::fs::File::create(&src).unwrap().set_len(big).unwrap();
            let dest = ctx.file("beyond.mpq");
            let smalls: Vec<(String, Vec<u8>)> = (0..6).map(|i| (format!("small{}", i), content("mix", 300 + i * 400, 512))).collect();
            let mut b = mopaq::ArchiveBuilder::new().version(v).block_size(11).default_compression(0);
            for i in 0..3 {
                b = b.add_file(&src, &format!("big{}", i));
                for (j, (n, d)) in smalls.iter().enumerate().skip(2 * i).take(2) {
                    b = if j % 2 == 0 { b.add_file_data_with_encryption(d.clone(), n, ZLIB, true, 0) } else { b.add_file_data_with_options(d.clone(), n, ZLIB, j % 4 == 1, 0) };
                }
            }
            let r = b.build(&dest);
            std::fs::remove_file(&src).ok();
            let out = (|| {
                r.map_err(|e| format!("not built: {}", e))?;
                let f = std::fs::File::open(&dest).unwrap();
                let len = f.metadata().unwrap().len() as usize;
                let m = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_SHARED, std::os::fd::AsRawFd::as_raw_fd(&f), 0) };
                assert!(m != libc::MAP_FAILED);
                let d = unsafe { std::slice::from_raw_parts(m as *const u8, len) };
                let out = (|| {
                    let a = RefArchive::parse(d)?;
                    if v >= FormatVersion::V3 && a.archive_size64 != len as u64 {
                        return Err(format!("64-bit archive size field {} of a {} byte file", a.archive_size64, len));
                    }
                    if a.hi_pos == 0 {
                        return Err("no hi-block table".into());
                    }
                    let mut names: Vec<(String, u16, Option<&F>)> = vec![("(listfile)".into(), 0, None)];
                    let mut regions = vec![(0, a.header_size as u64), (a.hash_pos, a.hash.len() as u64 * 16), (a.block_pos, a.block.len() as u64 * 16), (a.hi_pos, a.block.len() as u64 * 2)];
                    for i in 0..3 {
                        let n = format!("big{}", i);
                        let b = &a.block[a.lookup(&n, 0).ok_or(format!("{} not found", n))?.block as usize];
                        if b.fsize as u64 != big {
                            return Err(format!("{}: size {}", n, b.fsize));
                        }
                        regions.push((b.pos, b.csize as u64));
                        names.push((n, 0, None));
                    }
                    for (n, want) in &smalls {
                        let b = &a.block[a.lookup(n, 0).ok_or(format!("{} not found", n))?.block as usize];
                        let (stored, data) = a.extract(n, b).map_err(|m| format!("{}: {}", n, m))?;
                        diff(&data, want).map_err(|m| format!("{}: {}", n, m))?;
                        regions.push((b.pos, stored as u64));
                        names.push((n.clone(), 0, None));
                    }
                    let b = &a.block[a.lookup("(listfile)", 0).ok_or("list file not found")?.block as usize];
                    let (stored, data) = a.extract("(listfile)", b).map_err(|m| format!("list file: {}", m))?;
                    regions.push((b.pos, stored as u64));
                    let text = String::from_utf8_lossy(&data).into_owned();
                    let mut got: Vec<&str> = text.lines().collect();
                    let mut want: Vec<&str> = names.iter().map(|n| n.0.as_str()).collect();
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("list file {:?}", got));
                    }
                    if v >= FormatVersion::V3 {
                        let (hs, bs) = if v == FormatVersion::V4 { (a.sizes64[3], a.sizes64[4]) } else { (a.bet_pos - a.het_pos, a.hash_pos - a.bet_pos) };
                        regions.extend([(a.het_pos, hs), (a.bet_pos, bs)]);
                        het_bet(d, &a, hs, bs, &names)?;
                    }
                    if v == FormatVersion::V4 {
                        md5s(d, &a)?;
                    }
                    regions.sort();
                    if let Some(w) = regions.windows(2).find(|w| w[0].0 + w[0].1 > w[1].0) {
                        return Err(format!("regions {:?} overlap", w));
                    }
                    if regions.last().map(|x| x.0 + x.1 > len as u64) == Some(true) {
                        return Err("a region ends outside the file".into());
                    }
                    Ok(())
                })();
                unsafe { libc::munmap(m, len) };
                out
            })();
            std::fs::remove_file(&dest).ok();
            out?;
            ctx.distinct(&("beyond", v as u16));
            Ok(())
        });
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("every archive of the builder matrix parsed by an independent reader written from the format documentation: header fields, non-overlapping in-bounds regions, hash chains, block entries, stored bytes, checksums, HET/BET contents and V4 digests; non-trivial = distinct archives");
    let large = std::thread::spawn(move || beyond(ctx));
    let m = matrix(ctx.thorough);
    ctx.par(&m, |(k, c)| {
        ctx.case(k, || {
            check(ctx, c)?;
            ctx.distinct(k);
            Ok(())
        });
    });
    // single-file archives at every size around the sector boundaries
    let top = if ctx.deep { 8300 } else { 2100 };
    ctx.par_range(top, |n| {
        for (j, m) in LOSSLESS.iter().enumerate() {
            if *m == LZMA && n % 8 != 0 {
                continue;
            }
            let v = VERSIONS[(n + j) % 4];
            let k = format!("size/{:?}/{}/{}", v, mname(*m), n);
            ctx.case(&k, || {
                let mut c = Cfg::new(v, 0);
                c.crc = (n / 4) % 2 == 0;
                c.lf = if (n / 8) % 2 == 0 { Lf::Gen } else { Lf::None };
                c.files.push(F::with("one.bin", content(PATTERNS[(n + j) % 7], n, 512), *m, ENCS[(n / 2 + j) % 3]));
                check(ctx, &c)?;
                ctx.distinct(&k);
                Ok(())
            });
        }
    });
    for (v, n) in [(FormatVersion::V1, 1000usize), (FormatVersion::V4, 1000), (FormatVersion::V3, 513), (FormatVersion::V2, 511)] {
        let k = format!("many/{:?}/{}", v, n);
        ctx.case(&k, || {
            let mut c = Cfg::new(v, 0);
            for i in 0..n {
                c.files.push(F::with(&format!("d\\{}", i), vec![i as u8; i % 700], [ZLIB, 0][i % 2], ENCS[i % 3]));
            }
            check(ctx, &c)?;
            ctx.distinct(&k);
            Ok(())
        });
    }
    // positions and sizes that need more than 16, 20, 24 bits
    for v in VERSIONS {
        let k = format!("wide/{:?}", v);
        ctx.case(&k, || {
            let mut c = Cfg::new(v, 3);
            for (i, n) in [70_000usize, 1_100_000, 17_000_000, 5, 0, 4097].iter().enumerate() {
                c.files.push(F::with(&format!("w{}", i), content("mix", *n, 4096), [0, ZLIB][i % 2], ENCS[i % 3]));
            }
            check(ctx, &c)?;
            ctx.distinct(&k);
            Ok(())
        });
    }
    // every sector size; numbers of sectors that need more than 8 and 16 bits; names whose key wraps
    let mut more: Vec<(String, Cfg)> = vec![];
    for v in VERSIONS {
        for sh in 0..=12u16 {
            let s = 512usize << sh;
            for crc in [false, true] {
                let mut c = Cfg::new(v, sh);
                c.crc = crc;
                for (i, n) in [s - 1, s, s + 1, 2 * s, 2 * s + 1, 3 * s - 1].into_iter().enumerate() {
                    if n > 600_000 && !ctx.thorough && (i + v as usize) % 4 != 0 {
                        continue;
                    }
                    let m = [0, ZLIB, PKWARE, SPARSE, BZIP2][(i + sh as usize) % 5];
                    c.files.push(F::with(&format!("f{}", i), content(PATTERNS[(i + sh as usize) % 7], n, s), m, ENCS[(i + v as usize + crc as usize) % 3]));
                }
                more.push((format!("sector/{:?}/{}/crc{}", v, sh, crc as u8), c));
            }
        }
        for (i, k) in [255usize, 257, 1025, 65_535, 65_540].into_iter().enumerate() {
            for m in [0u8, ZLIB] {
                let mut c = Cfg::new(v, 0);
                c.crc = (i + v as usize) % 2 == 0;
                c.files.push(F::with("many.sectors", content("mix", k * 512 - 3, 512), m, ENCS[1 + (i + m as usize / 2) % 2]));
                more.push((format!("sectors/{:?}/{}/{}", v, k, mname(m)), c));
            }
        }
        for (i, base) in [0usize, 100, 250, 500, 1000, 4000, 65_500].into_iter().enumerate() {
            let mut c = Cfg::new(v, 0);
            c.crc = i % 2 == 0;
            c.tables = if i % 2 == 1 && v >= FormatVersion::V3 { Some(ZLIB) } else { None };
            for l in base + 1..base + 40 {
                let n: String = (0..l).map(|k| if k % 50 == 49 { '\\' } else { (b'a' + (k * 7 % 26) as u8) as char }).collect();
                c.files.push(F::with(&n, vec![l as u8; 5 + l % 40], [ZLIB, 0][l % 2], ENCS[l % 3]));
            }
            more.push((format!("long-names/{:?}/{}", v, base), c));
        }
        for (i, n) in super::p01::EDGE_KEY_NAMES.iter().enumerate() {
            for sz in [1usize, 3, 4, 5, 511, 512, 513, 1025, 2050] {
                for enc in [Enc::Plain, Enc::Fix] {
                    let mut c = Cfg::new(v, 0);
                    c.crc = (i + sz) % 2 == 0;
                    c.lf = Lf::None;
                    c.files.push(F::with(n, content(PATTERNS[(sz + i) % 7], sz, 512), [0, ZLIB][(i + sz / 2) % 2], enc));
                    more.push((format!("edgekey/{:?}/{:?}/{}/{}", v, enc, i, sz), c));
                }
            }
        }
    }
    more.sort_by_key(|(_, c)| std::cmp::Reverse(c.files.iter().map(|f| f.data.len()).sum::<usize>()));
    ctx.par(&more, |(k, c)| {
        ctx.case(k, || {
            check(ctx, c)?;
            ctx.distinct(k);
            Ok(())
        });
    });
    ctx.sample("matrix", || m[m.len() / 3].0.clone());
    large.join().ok();
    ctx.assume("the independent reader (harness/src/refmpq.rs) encodes docs/mopaq-format.md plus the library's own conventions listed in DESIGN.md");
}
