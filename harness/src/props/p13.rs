//! P13: file attributes are stored and read back per file, in the documented layout.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{RefArchive, RefFile, RefWriter};
use mopaq::special_files::{AttributeFlags, Attributes, FileAttributes};
use mopaq::{Archive, FormatVersion};

/// Attribute values of block i under a value scheme.
fn values(scheme: usize, i: usize, flags: u32) -> FileAttributes {
    let (crc, time, md5, patch) = match scheme {
        0 => (0, 0, [0; 16], false),
        1 => (u32::MAX, u64::MAX, [0xFF; 16], true),
        2 => {
            let mut m = [0u8; 16];
            m.copy_from_slice(&noise(i as u64 + 11, 16));
            (0x0100_0000u32.wrapping_mul(i as u32 + 1) | i as u32, (i as u64 + 1) << 40 | i as u64, m, i % 2 == 0)
        }
        3 => {
            let mut m = [0u8; 16];
            m[i % 16] = i as u8 | 1;
            (i as u32, i as u64, m, i % 3 == 1)
        }
        // exactly one patch bit set, at block (scheme - 4)
        s => (1 << (i % 32), 1 << (i % 64), [i as u8; 16], i == s - 4),
    };
    FileAttributes {
        crc32: (flags & 1 != 0).then_some(crc),
        filetime: (flags & 2 != 0).then_some(time),
        md5: (flags & 4 != 0).then_some(md5),
        is_patch: (flags & 8 != 0).then_some(patch),
    }
}

/// The documented layout, written independently.
fn layout(flags: u32, v: &[FileAttributes]) -> Vec<u8> {
    let mut d = vec![100, 0, 0, 0, flags as u8, 0, 0, 0];
    if flags & 1 != 0 {
        for x in v {
            d.extend(x.crc32.unwrap().to_le_bytes());
        }
    }
    if flags & 2 != 0 {
        for x in v {
            d.extend(x.filetime.unwrap().to_le_bytes());
        }
    }
    if flags & 4 != 0 {
        for x in v {
            d.extend(x.md5.unwrap());
        }
    }
    if flags & 8 != 0 {
        let mut b = vec![0u8; (v.len() + 7) / 8];
        for (i, x) in v.iter().enumerate() {
            if x.is_patch.unwrap() {
                b[i / 8] |= 1 << (i % 8);
            }
        }
        d.extend(b);
    }
    d
}

fn same(got: &Attributes, flags: u32, want: &[FileAttributes]) -> Result<(), String> {
    if got.version != 100 || got.flags.as_u32() != flags {
        return Err(format!("version {} flags {:#x}", got.version, got.flags.as_u32()));
    }
    if got.file_attributes.len() != want.len() {
        return Err(format!("{} entries for {} blocks", got.file_attributes.len(), want.len()));
    }
    for (i, w) in want.iter().enumerate() {
        if &got.file_attributes[i] != w || got.get_file_attributes(i) != Some(w) {
            return Err(format!("block {}: {:?} instead of {:?}", i, got.get_file_attributes(i), w));
        }
    }
    if got.get_file_attributes(want.len()).is_some() {
        return Err("attributes for a block that does not exist".into());
    }
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("all 16 attribute subsets x block counts x value schemes: encoded form equals the documented layout, decoding inverts it, every truncation is refused; archives of every version x storage of (attributes) x file count from the builder and the reference writer give each file its own values; non-trivial = distinct encoded attribute files");
    // a) codec
    let maxn = if ctx.deep { 1100 } else { 300 };
    let large = [255usize, 256, 257, 1000, 4096, 32_767, 65_535, 65_536, 65_543];
    ctx.par_range(16 * (maxn + 1 + large.len()), |j| {
        let (flags, n) = ((j % 16) as u32, j / 16);
        let n = if n > maxn { large[n - maxn - 1] } else { n };
        let schemes: Vec<usize> = match n {
            0..=20 => (0..4 + n).collect(),
            21..=999 => vec![0, 1, 2, 3, 4, 4 + n / 2, 4 + n - 1],
            _ => vec![3, 4 + n - 1],
        };
        for s in schemes {
            ctx.case(&format!("codec/f{}/n{}/s{}", flags, n, s), || {
                let v: Vec<FileAttributes> = (0..n).map(|i| values(s, i, flags)).collect();
                let want = layout(flags, &v);
                let a = Attributes { version: 100, flags: AttributeFlags::new(flags), file_attributes: v.clone() };
                let got = a.to_bytes().map_err(|e| format!("to_bytes: {}", e))?;
                diff(&got, &want).map_err(|m| format!("encoded: {}", m))?;
                let back = Attributes::parse(&want.clone().into(), n).map_err(|e| format!("parse: {}", e))?;
                same(&back, flags, &v)?;
                let f = &back.flags;
                if [f.has_crc32(), f.has_filetime(), f.has_md5(), f.has_patch_bit()] != [flags & 1 != 0, flags & 2 != 0, flags & 4 != 0, flags & 8 != 0] {
                    return Err("flag queries".into());
                }
                // extra bytes are tolerated, missing ones are not
                let mut more = want.clone();
                more.extend([1, 2, 3]);
                same(&Attributes::parse(&more.into(), n).map_err(|e| format!("parse with extra bytes: {}", e))?, flags, &v)?;
                for k in 0..want.len() {
                    if n > 20 && k % (want.len() / 50 + 1) != 0 && k + 20 < want.len() {
                        continue;
                    }
                    if Attributes::parse(&want[..k].to_vec().into(), n).is_ok() {
                        return Err(format!("{} of {} bytes accepted", k, want.len()));
                    }
                }
                for ver in [0u32, 1, 99, 101, 0x6400, 0x6401_0000, 356, u32::MAX] {
                    let mut w = want.clone();
                    w[..4].copy_from_slice(&ver.to_le_bytes());
                    if Attributes::parse(&w.into(), n).is_ok() {
                        return Err(format!("version {} accepted", ver));
                    }
                }
                ctx.distinct(&want);
                Ok(())
            });
        }
    });
    // values that are missing where the flags announce them are stored as zero
    ctx.par_range(16 * 40, |j| {
        let (flags, n) = ((j % 16) as u32, j / 16);
        ctx.case(&format!("partial/f{}/n{}", flags, n), || {
            for given in 0..16u32 {
                for k in 1..4usize {
                    let part: Vec<FileAttributes> = (0..n).map(|i| values(1, i, if i % k == 0 { flags & given } else { flags })).collect();
                    let want: Vec<FileAttributes> = part
                        .iter()
                        .map(|p| {
                            let z = values(0, 0, flags);
                            FileAttributes { crc32: p.crc32.or(z.crc32), filetime: p.filetime.or(z.filetime), md5: p.md5.or(z.md5), is_patch: p.is_patch.or(z.is_patch) }
                        })
                        .collect();
                    let got = Attributes { version: 100, flags: AttributeFlags::new(flags), file_attributes: part }.to_bytes().map_err(|e| e.to_string())?;
                    diff(&got, &layout(flags, &want)).map_err(|e| format!("given {:#x}, every {}: {}", given, k, e))?;
                    ctx.distinct(&("partial", flags, n, given, k));
                }
            }
            Ok(())
        });
    });
    // b) archives: (attributes) stored in every way
    let counts: &[usize] = if ctx.thorough { &[0, 1, 2, 5, 6, 7, 8, 13, 14, 15, 16, 30, 31, 62, 63, 64, 100] } else { &[0, 1, 6, 7, 8, 14, 15, 31, 64] };
    let mut jobs = vec![];
    for v in VERSIONS {
        for &n in counts {
            for flags in 0..16u32 {
                for m in LOSSLESS {
                    if m == LZMA && n > 8 && !ctx.thorough {
                        continue;
                    }
                    for enc in ENCS {
                        for crc in [false, true] {
                            for own in [false, true] {
                                jobs.push((v, n, flags, m, enc, crc, own));
                            }
                        }
                    }
                }
            }
        }
    }
    for v in VERSIONS {
        for (k, n) in [255usize, 256, 300, 1100].into_iter().enumerate() {
            for flags in [15u32, 7, 9] {
                jobs.push((v, n, flags, [ZLIB, 0, BZIP2][k % 3], ENCS[(k + flags as usize) % 3], k % 2 == 0, true));
                jobs.push((v, n, flags, [ZLIB, 0, BZIP2][(k + 1) % 3], ENCS[k % 3], false, false));
            }
        }
    }
    ctx.par(&jobs, |&(v, n, flags, m, enc, crc, own)| {
        ctx.case(&format!("arch/{:?}/n{}/f{}/{}/{:?}/crc{}/{}", v, n, flags, mname(m), enc, crc as u8, if own { "builder" } else { "ref" }), || {
            let lf = own && n % 2 == 0;
            // the reference writer also leaves dead blocks: they have attribute entries like any other
            let dead = if own { 0 } else { [0usize, 1, 7][(n + m as usize) % 3] };
            let blocks = n + 1 + lf as usize + dead;
            let vals: Vec<FileAttributes> = (0..blocks).map(|i| values(2 + (n + flags as usize) % 2, i, flags)).collect();
            let att = layout(flags, &vals);
            let t = if own {
                let mut c = Cfg::new(v, 0);
                c.crc = crc;
                c.lf = if lf { Lf::Gen } else { Lf::None };
                for i in 0..n {
                    c.files.push(F::with(&format!("f{}.txt", i), content(PATTERNS[i % 7], i * 40, 512), [ZLIB, 0][i % 2], ENCS[i % 3]));
                }
                c.files.insert(n / 2, F::with("(attributes)", att.clone(), m, enc));
                c.build(ctx)?
            } else {
                let mut w = RefWriter::new(v as u16, 0);
                w.hash_size = (2 * n).next_power_of_two().max(256);
                w.extra_dead_blocks = dead;
                for i in 0..n {
                    w.files.push(RefFile::new(&format!("f{}.txt", i), content(PATTERNS[i % 7], i * 40, 512)));
                }
                let mut f = RefFile::new("(attributes)", att.clone());
                f.method = m;
                f.encrypt = enc != Enc::No;
                f.fix_key = enc == Enc::Fix;
                f.crc = crc;
                f.single = n % 3 == 0;
                w.files.insert(n - n / 3, f);
                Tmp::of(ctx, &w.write())
            };
            let bytes = t.bytes();
            let ra = RefArchive::parse(&bytes).map_err(|e| format!("reference reader: {}", e))?;
            let mut a = t.open()?;
            judge(&mut a, &ra, n, &att, flags, &vals)?;
            // tables loaded later
            let mut a = mopaq::OpenOptions::new().load_tables(false).open(t.path()).map_err(|e| format!("lazy open: {}", e))?;
            a.load_tables().map_err(|e| format!("load_tables: {}", e))?;
            a.load_attributes().map_err(|e| format!("load_attributes: {}", e))?;
            judge(&mut a, &ra, n, &att, flags, &vals)?;
            ctx.distinct(&(v as u16, m, enc, crc, own, &att));
            ctx.sample(if own { "builder" } else { "ref" }, || format!("{:?}, {} files, attribute flags {:#x}, stored as {} {:?}", v, n, flags, mname(m), enc));
            Ok(())
        });
    });
    // attributes compressed once more inside their file, as some archives have them
    let mut jobs = vec![];
    for v in VERSIONS {
        for n in (0..20usize).chain([31, 64, 300, 1100]) {
            for flags in 0..16u32 {
                for inner in [ZLIB, PKWARE, LZMA] {
                    if inner == ZLIB || n < 40 {
                        jobs.push((v, n, flags, inner));
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, n, flags, inner)| {
        ctx.case(&format!("twice/{:?}/n{}/f{}/{}", v, n, flags, mname(inner)), || {
            let vals: Vec<FileAttributes> = (0..n + 1).map(|i| values(2 + (n + flags as usize) % 2, i, flags)).collect();
            let att = layout(flags, &vals);
            let packed = crate::refmpq::ref_compress(&att, inner);
            let mut w = RefWriter::new(v as u16, 0);
            w.hash_size = (2 * n).next_power_of_two().max(256);
            for i in 0..n {
                w.files.push(RefFile::new(&format!("f{}.txt", i), content(PATTERNS[i % 7], i * 40, 512)));
            }
            let mut f = RefFile::new("(attributes)", packed.clone());
            f.method = [0, ZLIB][n % 2];
            f.single = n % 3 == 0;
            w.files.insert(n - n / 3, f);
            let t = Tmp::of(ctx, &w.write());
            let bytes = t.bytes();
            let ra = RefArchive::parse(&bytes).map_err(|e| format!("reference reader: {}", e))?;
            judge(&mut t.open()?, &ra, n, &packed, flags, &vals)?;
            ctx.distinct(&("twice", v as u16, inner, &att));
            Ok(())
        });
    });
    // c) archives without attributes have none
    for v in VERSIONS {
        ctx.case(&format!("none/{:?}", v), || {
            let mut c = Cfg::new(v, 0);
            c.files.push(F::new("a", vec![1; 10]));
            let t = c.build(ctx)?;
            let mut a = t.open()?;
            a.load_attributes().map_err(|e| format!("load_attributes: {}", e))?;
            if a.attributes().is_some() || a.get_file_attributes(0).is_some() || a.get_info().map_err(|e| e.to_string())?.has_attributes {
                return Err("an archive without attributes reports some".into());
            }
            Ok(())
        });
    }
    let _ = FormatVersion::V1;
}

fn judge(a: &mut Archive, ra: &RefArchive, n: usize, att: &[u8], flags: u32, vals: &[FileAttributes]) -> Result<(), String> {
    let got = a.attributes().ok_or("attributes not loaded")?.clone();
    same(&got, flags, vals)?;
    diff(&a.read_file("(attributes)").map_err(|e| format!("reading (attributes): {}", e))?, att)?;
    if !a.get_info().map_err(|e| e.to_string())?.has_attributes {
        return Err("has_attributes is false".into());
    }
    for i in 0..n {
        let name = format!("f{}.txt", i);
        let want = ra.lookup(&name, 0).ok_or("reference lookup")?.block as usize;
        let fi = a.find_file(&name).map_err(|e| e.to_string())?.ok_or(format!("{} not found", name))?;
        if a.get_file_attributes(fi.block_index) != Some(&vals[want]) {
            return Err(format!("{}: {:?} instead of {:?}", name, a.get_file_attributes(fi.block_index), vals[want]));
        }
    }
    Ok(())
}
