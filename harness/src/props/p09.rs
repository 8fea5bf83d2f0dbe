//! P09: files with checksums never read back altered: original bytes or an error.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{adler32, RefArchive, RefFile, RefWriter};
use mopaq::Archive;

/// Where the protected bytes of a stored file lie: (absolute offset, length, what)
pub fn protected(a: &RefArchive, name: &str, b: &crate::refmpq::BlockE) -> Vec<(usize, usize, &'static str)> {
    use crate::refmpq as r;
    let p = a.base + b.pos as usize;
    if b.flags & r::SINGLE != 0 {
        return vec![(p, b.csize as usize, "data"), (p + b.csize as usize, 4, "checksum")];
    }
    let n = (b.fsize as usize).div_ceil(a.sector());
    let (stored, _) = a.extract(name, b).expect("reference extract");
    vec![(p + 4 * (n + 1), 4 * n, "checksums"), (p + 8 * n + 4, stored - 8 * n - 4, "data")]
}

fn judge(bytes: &[u8], t: &Tmp, f: &F) -> Result<bool, String> {
    judge_sectors(bytes, t, f, 512)
}
fn judge_sectors(bytes: &[u8], t: &Tmp, f: &F, sector: usize) -> Result<bool, String> {
    std::fs::write(&t.0, bytes).unwrap();
    let Ok(mut a) = Archive::open(&t.0) else { return Ok(true) };
    match a.read_file(&f.name) {
        Err(_) => Ok(true),
        Ok(d) if d == f.data => Ok(false),
        // a collision of the 32-bit checksum cannot be noticed by any reader
        Ok(d) if d.len() == f.data.len() && d.chunks(sector).zip(f.data.chunks(sector)).all(|(x, y)| adler32(x) == adler32(y)) => Ok(false),
        Ok(d) => Err(format!("corruption not noticed: {}", diff(&d, &f.data).unwrap_err())),
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule("archives with sector checksums over version x sector layout x method x encryption x content; every byte of stored data and checksums x every single-bit flip and byte replacement, every zeroed/inverted range, every swap of adjacent sectors, every truncation point; non-trivial = distinct corruption that changes the stored bytes");
    let mut jobs = vec![];
    let versions: &[usize] = if ctx.thorough { &[0, 1, 2, 3] } else { &[0, 3] };
    for &v in versions {
        for m in LOSSLESS {
            for enc in ENCS {
                for (p, n) in [("text", 90usize), ("noise", 60), ("text", 1300), ("altsec", 1700), ("noise", 1100), ("zero", 1024), ("mix", 512), ("ramp", 1537)] {
                    if !ctx.thorough && v == 3 && (n < 600 || m == LZMA) {
                        continue;
                    }
                    jobs.push((v, m, enc, p, n));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, m, enc, p, n)| {
        let mut c = Cfg::new(VERSIONS[v], 0);
        c.crc = true;
        c.files.push(F::with("pre", content("text", 33, 512), ZLIB, Enc::No));
        c.files.push(F::with("Dir\\the file", content(p, n, 512), m, enc));
        let key = format!("v{}/{}/{:?}/{}-{}", v + 1, mname(m), enc, p, n);
        let Ok(t) = c.build(ctx) else {
            ctx.case(&format!("{}/build", key), || c.build(ctx).map(|_| ()));
            return;
        };
        let f = &c.files[1];
        let good = t.bytes();
        let regions = {
            let r = guarded(|| -> Result<_, String> {
                let a = RefArchive::parse(&good)?;
                let h = a.lookup(&f.name, 0).ok_or("lookup")?;
                let b = a.block[h.block as usize].clone();
                Ok(protected(&a, &f.name, &b))
            });
            match r {
                Ok(Ok(r)) => r,
                Ok(Err(m)) | Err(m) => {
                    ctx.case(&format!("{}/parse", key), || Err(m));
                    return;
                }
            }
        };
        ctx.case(&format!("{}/intact", key), || {
            let mut a = t.open()?;
            check_contents(&mut a, &c.files)
        });
        let s = Tmp(ctx.file("c.mpq"));
        let masks: Vec<u8> = if ctx.thorough { vec![1, 2, 4, 8, 16, 32, 64, 128, 255, 0x55] } else { vec![1, 8, 128, 255] };
        for (off, len, what) in &regions {
            let step = if ctx.thorough || *len < 400 { 1 } else { 1 + len / 400 };
            for i in 0..*len {
                let ms: &[u8] = if i % step == 0 { &masks } else { &masks[..1] };
                for &x in ms {
                    let mut b = good.clone();
                    b[off + i] ^= x;
                    ctx.case(&format!("{}/{}/{}^{:02x}", key, what, i, x), || {
                        if judge(&b, &s, f)? {
                            ctx.add("detected", 1);
                        } else {
                            ctx.add("harmless", 1);
                        }
                        ctx.distinct(&(&key, off + i, x));
                        Ok(())
                    });
                }
            }
            // ranges
            for w in [2usize, 3, 4, 8, 16, 64, 512] {
                for i in (0..*len).step_by(if ctx.thorough { 1 } else { 7 }) {
                    if i + w > *len {
                        break;
                    }
                    for fill in 0..3 {
                        let mut b = good.clone();
                        for k in 0..w {
                            b[off + i + k] = match fill {
                                0 => 0,
                                1 => 0xFF,
                                _ => !good[off + i + k],
                            };
                        }
                        if b == good {
                            continue;
                        }
                        ctx.case(&format!("{}/{}/{}+{}f{}", key, what, i, w, fill), || {
                            judge(&b, &s, f)?;
                            ctx.distinct(&(&key, off + i, w, fill));
                            Ok(())
                        });
                    }
                }
            }
            // swapped neighbours and rotated bytes
            for w in [1usize, 2, 4, 16, 512] {
                for i in 0..*len {
                    if i + 2 * w > *len {
                        break;
                    }
                    let mut b = good.clone();
                    for k in 0..w {
                        b.swap(off + i + k, off + i + w + k);
                    }
                    if b == good {
                        continue;
                    }
                    ctx.case(&format!("{}/{}/swap{}-{}", key, what, i, w), || {
                        judge(&b, &s, f)?;
                        ctx.distinct(&(&key, off + i, w, "swap"));
                        Ok(())
                    });
                }
            }
        }
        // a lost stretch that takes data and checksums with it
        let lo = regions.iter().map(|r| r.0).min().unwrap();
        let hi = regions.iter().map(|r| r.0 + r.1).max().unwrap();
        for cut in (lo..=hi).step_by(if ctx.thorough { 1 } else { 3 }) {
            for (a, z) in [(lo, cut), (cut, hi), (lo, hi.min(cut + 512)), (cut, hi.min(cut + 512))] {
                for fill in 0..3u8 {
                    let mut b = good.clone();
                    for k in a..z {
                        b[k] = match fill {
                            0 => 0,
                            1 => 0xFF,
                            _ => !good[k],
                        };
                    }
                    if b == good {
                        continue;
                    }
                    ctx.case(&format!("{}/stretch/{}-{}f{}", key, a - lo, z - lo, fill), || {
                        judge(&b, &s, f)?;
                        ctx.distinct(&(&key, a, z, fill, "stretch"));
                        Ok(())
                    });
                }
            }
        }
        ctx.sample(&format!("{}-{:?}", mname(m), enc), || format!("{} bytes of {}: protected regions {:?}", n, p, regions));
    });
    // larger files: more sectors, larger sectors, large single units; every checksum, bytes spread over all sectors,
    // and the sector offset table (as long as it leaves the checksum table in place)
    let mut jobs = vec![];
    for &v in versions {
        for (sh, n) in [(0u16, 9 * 512 + 1usize), (0, 70 * 512), (0, 300 * 512 - 7), (1, 5 * 1024 + 3), (3, 21 * 4096 - 1), (7, 3 * 65536 + 9), (8, 90_000), (12, 120_000)] {
            for m in LOSSLESS {
                if m == LZMA && n > 6000 && !ctx.thorough {
                    continue;
                }
                for enc in ENCS {
                    if !ctx.thorough && (v + n + enc as usize) % 2 == 1 && m != ZLIB {
                        continue;
                    }
                    jobs.push((v, sh, n, m, enc));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, sh, n, m, enc)| {
        let sector = 512usize << sh;
        let mut c = Cfg::new(VERSIONS[v], sh);
        c.crc = true;
        c.files.push(F::with("Dir\\the file", content("mix", n, 512), m, enc));
        let f = &c.files[0];
        let key = format!("large/v{}/s{}/{}/{:?}/{}", v + 1, sh, mname(m), enc, n);
        let mut points: Vec<(usize, u8, &str)> = vec![];
        let mut good = vec![];
        ctx.case(&format!("{}/intact", key), || {
            let t = c.build(ctx)?;
            check_contents(&mut t.open()?, &c.files)?;
            good = t.bytes();
            let a = RefArchive::parse(&good)?;
            let b = a.block[a.lookup(&f.name, 0).ok_or("lookup")?.block as usize].clone();
            for (off, len, what) in protected(&a, &f.name, &b) {
                let spread = if ctx.thorough { 600 } else { 120 };
                let step = if what.starts_with("checksum") && len < 1300 { 1 } else { (len / spread).max(1) };
                for i in (0..len).step_by(step).chain([len - 1]) {
                    points.push((off + i, [1u8, 0x80, 0x10, 0xFF][i % 4], what));
                }
            }
            if n > sector {
                let p = a.base + b.pos as usize;
                let k = n.div_ceil(sector);
                for i in 0..4 * (k + 1) {
                    for x in [1u8, 4, 0x80, 0xFF] {
                        // an offset of the first sector below the end of the checksum table says there is no such table
                        let first = (8 * k + 4) as u32;
                        if i >= 4 || first ^ (x as u32) << (8 * i) > first {
                            points.push((p + i, x, "offset"));
                        }
                    }
                }
            }
            Ok(())
        });
        let s = Tmp(ctx.file("c.mpq"));
        for (at, x, what) in points {
            ctx.case(&format!("{}/{}/{}^{:02x}", key, what, at, x), || {
                let mut b = good.clone();
                b[at] ^= x;
                if judge_sectors(&b, &s, f, if n <= sector { n } else { sector })? {
                    ctx.add("detected", 1);
                } else {
                    ctx.add("harmless", 1);
                }
                ctx.distinct(&(&key, at, x));
                Ok(())
            });
        }
    });
    // checksums written by another writer are honoured as well
    let mut jobs = vec![];
    for single in [true, false] {
        for m in LOSSLESS {
            for enc in ENCS {
                if !single && m == 0 {
                    continue;
                }
                for pad in if single { vec![0usize] } else { vec![0, 1, 4, 520] } {
                    jobs.push((single, m, enc, pad));
                }
            }
        }
    }
    ctx.par(&jobs, |&(single, m, enc, pad)| {
        let mut w = RefWriter::new(1, 0);
        let mut f = RefFile::new("foreign", content("mix", 1400, 512));
        f.single = single;
        f.method = m;
        f.crc = true;
        f.pad = pad;
        f.encrypt = enc != Enc::No;
        f.fix_key = enc == Enc::Fix;
        w.files.push(f.clone());
        let good = w.write();
        let a = RefArchive::parse(&good).expect("reference archive");
        let b = a.block[0].clone();
        let regions = if pad == 0 {
            protected(&a, "foreign", &b)
        } else {
            let (p, n) = (a.base + b.pos as usize, f.data.len().div_ceil(512));
            let end = p + w.encode_file(&f, b.pos).0.len();
            vec![(p + 4 * (n + 1), 4 * n, "checksums"), (p + 8 * n + 4 + pad, end - (p + 8 * n + 4 + pad), "data")]
        };
        let s = Tmp(ctx.file("c.mpq"));
        let ff = F::with("foreign", f.data.clone(), m, enc);
        for (off, len, what) in &regions {
            for i in 0..*len {
                for x in [1u8, 0x80] {
                    let mut b = good.clone();
                    b[off + i] ^= x;
                    ctx.case(&format!("foreign/{}{}/{:?}/pad{}/{}/{}^{:02x}", if single { "single-" } else { "" }, mname(m), enc, pad, what, i, x), || {
                        judge(&b, &s, &ff)?;
                        ctx.distinct(&("foreign", single, m, enc, pad, off + i, x));
                        Ok(())
                    });
                }
            }
        }
    });
    ctx.assume("an offset of the first sector that leaves no room for checksums says the file has none; such damage of the sector offset table is not judged");
}
