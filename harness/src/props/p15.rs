//! P15: an archive reads the same wherever it lies in its file.
use super::common::*;
use super::p08;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use mopaq::{FormatVersion, SignatureStatus};

fn filler(kind: &str, n: usize) -> Vec<u8> {
    match kind {
        "zero" => vec![0; n],
        "noise" => noise(n as u64, n).iter().map(|b| b | 0x80).collect(),
        // the magic everywhere except at 512-byte boundaries
        "decoy" => {
            let mut v: Vec<u8> = b"MPQ\x1a\x20\0\0\0".iter().cycle().take(n).copied().collect();
            for i in (0..n).step_by(512) {
                v[i] = b'X';
            }
            v
        }
        _ => panic!(),
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("every builder configuration of the matrix and reference archives, behind every prefix length (multiples of 512, filler zero/noise/decoy magic) and behind user data headers, with and without trailing data; all observations (contents, listings, info, MD5 and signature status) must equal those of the bare archive");
    // a) builder archives
    let mut m = matrix(ctx.thorough);
    if !ctx.thorough {
        m.retain(|(k, _)| !k.contains("/s3/") && !k.ends_with("/131") && !k.ends_with("/40"));
    }
    let pres: Vec<(usize, &str)> = if ctx.thorough {
        vec![(512, "zero"), (512, "noise"), (512, "decoy"), (1024, "decoy"), (1536, "noise"), (2048, "zero"), (4096, "decoy"), (65536, "noise"), (1 << 20, "decoy")]
    } else {
        vec![(512, "decoy"), (1024, "noise"), (4096, "zero"), (66048, "decoy")]
    };
    ctx.par(&m, |(k, c)| {
        let Ok(t) = c.build(ctx) else {
            ctx.case(&format!("build/{}", k), || c.build(ctx).map(|_| ()));
            return;
        };
        let bare = t.bytes();
        let want = match guarded(|| observe(t.path(), c)) {
            Ok(Ok(w)) => w,
            Ok(Err(m)) | Err(m) => {
                ctx.case(&format!("bare/{}", k), || Err(m));
                return;
            }
        };
        let go = |tag: String, bytes: Vec<u8>, base: usize, archive_len: usize| {
            ctx.case(&format!("{}/{}", tag, k), || {
                let t = Tmp::of(ctx, &bytes);
                let got = observe(t.path(), c)?;
                for (a, b) in got.iter().zip(&want) {
                    if a != b {
                        return Err(format!("observation changed: {} instead of {}", a, b));
                    }
                }
                if got.len() != want.len() {
                    return Err("observations missing".into());
                }
                let a = t.open()?;
                if a.archive_offset() != base as u64 {
                    return Err(format!("archive offset {} instead of {}", a.archive_offset(), base));
                }
                let want_user = tag.strip_prefix("user-").map(|x| (16u32, x.split_once('-').unwrap().1.parse::<u32>().unwrap() - 16));
                let mut a = a;
                let i = a.get_info().map_err(|e| e.to_string())?;
                let got_user = i.user_data_info.as_ref().map(|u| (u.header_size, u.data_size));
                if got_user != want_user {
                    return Err(format!("user data reported as {:?} instead of {:?}", got_user, want_user));
                }
                if i.file_size != bytes.len() as u64 || i.archive_offset != base as u64 {
                    return Err(format!("info: file size {}, archive offset {}", i.file_size, i.archive_offset));
                }
                let _ = archive_len;
                ctx.distinct(&(&tag, k));
                Ok(())
            });
        };
        for &(n, kind) in &pres {
            let mut b = filler(kind, n);
            b.extend(&bare);
            go(format!("prefix-{}-{}", n, kind), b, n, bare.len());
        }
        // user data: header at 0 or 512, archive at +512 or +1536
        for at in [0usize, 512] {
            for off in [512u32, 1536] {
                let mut b = filler("noise", at);
                b.extend(0x1B51504Du32.to_le_bytes());
                b.extend((off - 16).to_le_bytes());
                b.extend(off.to_le_bytes());
                b.extend(16u32.to_le_bytes());
                b.extend(filler("decoy", off as usize).iter().skip(16));
                let base = b.len();
                b.extend(&bare);
                go(format!("user-{}-{}", at, off), b, base, bare.len());
            }
        }
        // trailing data
        let mut b = bare.clone();
        b.extend(filler("noise", 700));
        go("tail".into(), b, 0, bare.len());
        let mut b = filler("noise", 1024);
        b.extend(&bare);
        b.extend(filler("decoy", 1300));
        go("both".into(), b, 1024, bare.len());
    });
    // b) reference archives; the reference reader confirms the reference writer
    let mut jobs = vec![];
    for v in 0..4u16 {
        for (n, kind) in &pres {
            for user in [None, Some(512u32), Some(1024), Some(2560), Some(16), Some(100), Some(513), Some(1535)] {
                for enc in ENCS {
                    jobs.push((v, *n, *kind, user, enc));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, n, kind, user, enc)| {
        let mut w = RefWriter::new(v, 0);
        w.prefix = filler(kind, n);
        w.user_data = user;
        w.hi_block = v > 0 && n % 1024 == 0;
        for (i, (single, m, implode)) in p08::encodings().into_iter().enumerate() {
            let mut f = RefFile::new(&format!("u\\{}", i), content(PATTERNS[i % 7], 300 + 150 * i, 512));
            f.single = single;
            f.method = m;
            f.implode = implode;
            f.encrypt = enc != Enc::No;
            f.fix_key = enc == Enc::Fix;
            w.files.push(f);
        }
        w.hash_size = 64;
        ctx.case(&format!("ref/v{}/{}-{}/user{:?}/{:?}", v + 1, n, kind, user, enc), || {
            let b = w.write();
            if n <= 4096 {
                let ra = RefArchive::parse(&b).map_err(|m| format!("reference reader on reference archive: {}", m))?;
                for f in &w.files {
                    if f.implode {
                        continue;
                    }
                    let h = ra.lookup(&f.name, 0).ok_or("reference lookup")?;
                    let (_, d) = ra.extract(&f.name, &ra.block[h.block as usize]).map_err(|m| format!("reference reader on reference archive: {}", m))?;
                    assert!(d == f.data, "reference writer and reader disagree");
                }
            }
            let t = Tmp::of(ctx, &b);
            let mut a = t.open()?;
            p08::judge(&mut a, &w.files)?;
            ctx.distinct(&("ref", v, n, kind, user, enc));
            Ok(())
        });
    });
    let _ = r::adler32;
    far(ctx);
}

/// Far away: prefixes of many megabytes, user data headers that point up to 4 GB ahead, files longer than 4 GB.
fn far(ctx: &'static Ctx) {
    use super::p16::{apply, Op};
    use std::io::{Seek, SeekFrom, Write};
    // (data before, at which positions; archive position; length of the whole file, 0 = as it comes)
    let mut places: Vec<(String, Option<u64>, u64, u64)> = vec![];
    let mut prefixes = vec![1u64 << 20, (16 << 20) + 512, 128 << 20, (128 << 20) + 512];
    if ctx.deep {
        prefixes.extend([1 << 30, (4 << 30) + 512]);
    }
    for p in prefixes {
        places.push((format!("prefix-{}", p), None, p, 0));
    }
    for at in [0u64, 512, 1024] {
        for off in [0x10_0000u64, 0x7FFF_FE00, 0x8000_0000, 0xFFFF_FE00] {
            places.push((format!("user-{}-{:x}", at, off), Some(at), at + off, 0));
        }
    }
    for len in [1u64 << 32, (1 << 32) + 512, (1 << 32) + 77, 5 << 30] {
        places.push((format!("tail-{:x}", len), None, 0, len));
    }
    let set = super::p22::set(ctx);
    let mut jobs = vec![];
    for (i, (name, d, _)) in set.iter().enumerate() {
        let Ok(a) = RefArchive::parse(d) else { continue };
        if a.base != 0 {
            continue;
        }
        for (j, p) in places.iter().enumerate() {
            // scanning many gigabytes takes a while: only for a few archives
            if p.0.starts_with("prefix") && p.2 > 300 << 20 && i % 4 != 0 {
                continue;
            }
            if p.3 > 0 && name == "strong" {
                continue;
            }
            jobs.push((i, j));
        }
    }
    let look = |p: &std::path::Path, names: &[String]| -> Result<(u64, Vec<String>), String> {
        let mut a = mopaq::Archive::open(p).map_err(|e| format!("open: {}", e))?;
        let base = a.archive_offset();
        let mut o = vec![];
        let mut ops = vec![Op::Verify, Op::List, Op::ListAll, Op::ListAllHashes, Op::LoadAttributes, Op::Attr(0), Op::Attr(2)];
        ops.extend(names.iter().map(|n| Op::Read(n.clone())));
        ops.extend([Op::Read("(listfile)".into()), Op::Read("nope".into())]);
        for op in ops {
            o.push(format!("{:?}: {}", op, apply(&mut a, &op)));
        }
        for n in names {
            let f = a.find_file(n).map_err(|e| e.to_string())?.ok_or(format!("{:?} not found", n))?;
            o.push(format!("{:?}", (f.file_pos as i128 - base as i128, f.file_size, f.compressed_size, f.flags, f.locale, f.block_index, f.hash_index)));
        }
        let i = a.get_info().map_err(|e| format!("get_info: {}", e))?;
        if i.archive_offset != base || i.file_size != std::fs::metadata(p).unwrap().len() {
            return Err(format!("info: archive offset {}, file size {}", i.archive_offset, i.file_size));
        }
        o.push(format!("{:?}", (i.format_version, i.file_count, i.max_file_count, i.sector_size, i.is_encrypted, i.has_signature, i.signature_status)));
        o.push(format!("{:?}", (i.hash_table_info, i.block_table_info, i.het_table_info, i.bet_table_info, i.hi_block_table_info)));
        o.push(format!("{:?}", (i.has_attributes, i.has_listfile, i.md5_status)));
        Ok((base, o))
    };
    ctx.par(&jobs, |&(i, j)| {
        let (name, d, names) = &set[i];
        let (tag, user, pos, len) = &places[j];
        ctx.case(&format!("far/{}/{}", name, tag), || {
            let bare = Tmp::of(ctx, d);
            let (_, want) = look(bare.path(), names)?;
            let t = Tmp(ctx.file("far.mpq"));
            let mut o = std::fs::File::create(t.path()).map_err(|e| e.to_string())?;
            if let Some(at) = user {
                let mut h = b"MPQ\x1b".to_vec();
                h.extend(480u32.to_le_bytes());
                h.extend(((pos - at) as u32).to_le_bytes());
                h.extend(16u32.to_le_bytes());
                o.seek(SeekFrom::Start(*at)).map_err(|e| e.to_string())?;
                o.write_all(&h).map_err(|e| e.to_string())?;
            }
            o.seek(SeekFrom::Start(*pos)).map_err(|e| e.to_string())?;
            o.write_all(d).map_err(|e| e.to_string())?;
            if *len > 0 {
                o.set_len(*len).map_err(|e| e.to_string())?;
            }
            drop(o);
            let (base, got) = look(t.path(), names)?;
            if base != *pos {
                return Err(format!("archive offset {} instead of {}", base, pos));
            }
            for (g, w) in got.iter().zip(&want) {
                if g != w {
                    return Err(format!("observation changed: {:.300} instead of {:.300}", g, w));
                }
            }
            ctx.distinct(&(name, tag));
            Ok(())
        });
    });
}

/// Everything a user can see of an archive, independent of where it lies.
pub fn observe(p: &std::path::Path, c: &Cfg) -> Result<Vec<String>, String> {
    let mut a = mopaq::Archive::open(p).map_err(|e| format!("open: {}", e))?;
    let base = a.archive_offset();
    let mut o = vec![];
    for f in &c.files {
        let d = a.read_file(&f.name).map_err(|e| format!("reading {:?}: {}", f.name, e))?;
        diff(&d, &f.data).map_err(|m| format!("{:?}: {}", f.name, m))?;
        let i = a.find_file(&f.name).map_err(|e| e.to_string())?.ok_or("not found")?;
        o.push(format!("{:?} pos {} csize {} size {} flags {:x} block {}", f.name, i.file_pos as i64 - base as i64, i.compressed_size, i.file_size, i.flags, i.block_index));
    }
    let mut l: Vec<String> = match a.list() {
        Ok(l) => l.into_iter().map(|e| format!("list {} {} {} {:x}", e.name, e.size, e.compressed_size, e.flags)).collect(),
        Err(e) => vec![format!("list: {}", e)],
    };
    l.sort();
    o.extend(l);
    match a.list_all() {
        Ok(l) => o.extend(l.into_iter().map(|e| format!("all {} {} {} {:x}", e.name, e.size, e.compressed_size, e.flags))),
        Err(e) => o.push(format!("list_all: {}", e)),
    }
    let i = a.get_info().map_err(|e| format!("get_info: {}", e))?;
    o.push(format!("files {} max {} version {:?} sector {} encrypted {} sig {:?}", i.file_count, i.max_file_count, i.format_version, i.sector_size, i.is_encrypted, i.signature_status));
    if !matches!(i.signature_status, SignatureStatus::None) {
        return Err(format!("unsigned archive reports {:?}", i.signature_status));
    }
    if c.version >= FormatVersion::V4 {
        let m = i.md5_status.ok_or("no MD5 status")?;
        o.push(format!("md5 {:?}", (m.header_valid, m.hash_table_valid, m.block_table_valid, m.hi_block_table_valid, m.het_table_valid, m.bet_table_valid)));
    }
    Ok(o)
}
