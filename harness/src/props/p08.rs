//! P08: archives written by another conforming writer read back exactly.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefFile, RefWriter};
use mopaq::Archive;
use std::io::{Seek, SeekFrom, Write};

/// (single, method, implode)
pub fn encodings() -> Vec<(bool, u8, bool)> {
    let mut v = vec![];
    for single in [true, false] {
        for m in LOSSLESS {
            v.push((single, m, false));
        }
        v.push((single, PKWARE, true));
    }
    v
}

pub fn judge(a: &mut Archive, files: &[RefFile]) -> Result<(), String> {
    for f in files {
        let i = a
            .find_file(&f.name)
            .map_err(|e| format!("find_file({:?}): {}", f.name, e))?
            .ok_or(format!("{:?} not found", f.name))?;
        if i.file_size != f.data.len() as u64 {
            return Err(format!("{:?}: reported size {} of {}", f.name, i.file_size, f.data.len()));
        }
        if i.is_encrypted() != f.encrypt || i.has_fix_key() != (f.encrypt && f.fix_key) || i.is_single_unit() != f.single {
            return Err(format!("{:?}: reported flags {:#x}", f.name, i.flags));
        }
        let got = a.read_file(&f.name).map_err(|e| format!("reading {:?} ({} bytes): {}", f.name, f.data.len(), e))?;
        diff(&got, &f.data).map_err(|m| format!("{:?}: {}", f.name, m))?;
    }
    match a.find_file("no such\\file") {
        Ok(None) => Ok(()),
        x => Err(format!("absent name: {:?}", x.map(|i| i.map(|i| i.block_index)))),
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("archives written by the reference writer: version x sector size x table placement x hash table size x dead blocks/tombstones x storage form x method x encryption x checksum x boundary size x content; files and tables beyond 4 GB; non-trivial = distinct (encoding, size, content)");
    // a) storage forms at every boundary size
    let mut jobs = vec![];
    for v in 0..4u16 {
        for shift in if ctx.thorough { vec![0u16, 1, 3, 5] } else { vec![0, 3] } {
            for e in encodings() {
                for enc in ENCS {
                    for crc in [false, true] {
                        jobs.push((v, shift, e, enc, crc));
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, shift, (single, m, implode), enc, crc)| {
        if crc && !single && m == 0 {
            return; // checksums need a sector table
        }
        let ss = 512usize << shift;
        let mut sizes = edge_sizes(ss);
        if !ctx.thorough {
            sizes.retain(|s| *s < 20 || (s % ss <= 1 || s % ss == ss - 1 || s % 7 == 0));
            if v == 1 || v == 2 {
                sizes.retain(|s| s % 3 == 0 || *s <= 4 || s % ss <= 1);
            }
        }
        for (p, keep) in [("text", false), ("noise", false), ("altsec", false), ("zero", false), ("noise", true), ("text", true)] {
            if keep && m == 0 {
                continue; // not announced as compressed
            }
            let mut w = RefWriter::new(v, shift);
            w.tables_first = keep;
            for &n in &sizes {
                // a PKWARE unit larger than 4 KB may be refused by the reader (see P04)
                if m == PKWARE && (if single { n } else { ss.min(n) }) > 4096 {
                    continue;
                }
                let mut f = RefFile::new(&format!("Dir{}\\file {}.bin", n % 3, n), content(p, n, ss));
                f.single = single;
                f.method = if n == 0 && !keep { 0 } else { m };
                f.implode = implode && (n > 0 || keep);
                f.keep = keep;
                f.encrypt = enc != Enc::No;
                f.fix_key = enc == Enc::Fix;
                f.crc = crc && (single || n > 0);
                w.files.push(f);
            }
            if keep {
                w.files.reverse(); // the empty file last, at the very end of the archive
            }
            w.hash_size = (w.files.len() * 2).next_power_of_two();
            let key = format!("form/v{}/s{}/{}{}{}/{:?}/crc{}/{}{}", v + 1, shift, if single { "single-" } else { "" }, mname(m), if implode { "-bare" } else { "" }, enc, crc as u8, p, if keep { "-kept" } else { "" });
            ctx.case(&key, || {
                let t = Tmp::of(ctx, &w.write());
                let mut a = t.open()?;
                judge(&mut a, &w.files)?;
                for f in &w.files {
                    ctx.distinct(&(single, m, implode, enc, crc, f.data.len(), p, shift, keep));
                }
                ctx.add("files_read", w.files.len() as u64);
                ctx.sample(&format!("{}-{:?}", mname(m), enc), || key.clone());
                Ok(())
            });
        }
    });
    // a2) large sectors; keys at the edges of their range
    let mut jobs = vec![];
    for v in [0u16, 3] {
        for shift in if ctx.thorough { vec![6u16, 7, 8, 9, 10, 12] } else { vec![7, 8, 9] } {
            for e in encodings() {
                for enc in ENCS {
                    jobs.push((v, shift, e, enc));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, shift, (single, m, implode), enc)| {
        if m == PKWARE || m == LZMA {
            return;
        }
        let ss = 512usize << shift;
        let mut w = RefWriter::new(v, shift);
        for (i, n) in [ss - 1, ss, ss + 3, 2 * ss + 1, 65535, 65536, 65537].into_iter().enumerate() {
            let mut f = RefFile::new(&format!("big {} {}.bin", i, n), content(["mix", "noise", "text"][i % 3], n, ss));
            f.single = single;
            f.method = m;
            f.implode = implode;
            f.encrypt = enc != Enc::No;
            f.fix_key = enc == Enc::Fix;
            f.crc = i % 2 == 1 && (single || m != 0);
            w.files.push(f);
        }
        w.hash_size = 32;
        ctx.case(&format!("large/v{}/s{}/{}{}/{:?}", v + 1, shift, if single { "single-" } else { "" }, mname(m), enc), || {
            let t = Tmp::of(ctx, &w.write());
            judge(&mut t.open()?, &w.files)?;
            ctx.distinct(&("large", v, shift, single, m, enc));
            Ok(())
        });
    });
    let mut jobs = vec![];
    for v in 0..4u16 {
        for e in encodings() {
            for fix in [false, true] {
                for name in super::p01::EDGE_KEY_NAMES {
                    jobs.push((v, e, fix, name));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, (single, m, implode), fix, name)| {
        if m == LZMA && v > 0 {
            return;
        }
        let hs = [32usize, 44, 68, 208][v as usize];
        let mut sizes = vec![1usize, 3, 4, 6, 9, 513, 1026, 2051];
        if fix {
            sizes.extend([hs - 3, hs - 2, hs - 1, hs, hs + 1, hs + 2, hs + 3]);
        }
        for n in sizes {
            for crc in [false, true] {
                if crc && !single && m == 0 {
                    continue;
                }
                ctx.case(&format!("edgekey/v{}/{}{}{}/fix{}/{}/{}/crc{}", v + 1, if single { "single-" } else { "" }, mname(m), if implode { "-bare" } else { "" }, fix as u8, name, n, crc as u8), || {
                    let mut w = RefWriter::new(v, 0);
                    let mut f = RefFile::new(name, content(["text", "noise"][n % 2], n, 512));
                    f.single = single;
                    f.method = m;
                    f.implode = implode;
                    f.encrypt = true;
                    f.fix_key = fix;
                    f.crc = crc;
                    w.files.push(f);
                    let t = Tmp::of(ctx, &w.write());
                    judge(&mut t.open()?, &w.files)?;
                    ctx.distinct(&("edgekey", v, single, m, implode, fix, name, n, crc));
                    Ok(())
                });
            }
        }
    });
    // a4) every sector compressed in its own way, sectors not directly behind their table
    let ms: Vec<Vec<u8>> = (0..216usize).map(|k| vec![LOSSLESS[k % 6], LOSSLESS[k / 6 % 6], LOSSLESS[k / 36]]).collect();
    ctx.par(&ms, |ms| {
        for enc in ENCS {
            for crc in [false, true] {
                for pad in if ctx.thorough { vec![0usize, 1, 4, 600] } else { vec![0, 5] } {
                    let v = (ms[0] as u16 + pad as u16) % 4;
                    ctx.case(&format!("mixed/v{}/{:?}/{:?}/crc{}/pad{}", v + 1, ms, enc, crc as u8, pad), || {
                        let mut w = RefWriter::new(v, 0);
                        for (i, p) in ["text", "altsec", "zero"].into_iter().enumerate() {
                            let mut f = RefFile::new(&format!("mixed {}", p), content(p, [1400, 1536, 1025][i], 512));
                            f.method = ZLIB;
                            f.methods = ms.clone();
                            f.pad = pad;
                            f.encrypt = enc != Enc::No;
                            f.fix_key = enc == Enc::Fix;
                            f.crc = crc;
                            w.files.push(f);
                        }
                        let t = Tmp::of(ctx, &w.write());
                        judge(&mut t.open()?, &w.files)?;
                        ctx.distinct(&("mixed", ms, enc, crc, pad));
                        Ok(())
                    });
                }
            }
        }
    });
    // a3) more sectors than 8 and 16 bits count
    let mut jobs = vec![];
    for v in 0..4u16 {
        for k in [255usize, 257, 65_535, 65_540] {
            for m in [0u8, ZLIB] {
                for crc in [false, true] {
                    if (m != 0 || !crc) && (ctx.thorough || k < 60_000 || (v as usize + k) % 2 == 0) {
                        jobs.push((v, k, m, crc));
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, k, m, crc)| {
        ctx.case(&format!("sectors/v{}/{}/{}/crc{}", v + 1, k, mname(m), crc as u8), || {
            let mut w = RefWriter::new(v, 0);
            let mut f = RefFile::new("many.sectors", content("mix", k * 512 - 5, 512));
            f.method = m;
            f.encrypt = true;
            f.fix_key = crc || v % 2 == 1;
            f.crc = crc;
            w.files.push(f);
            let t = Tmp::of(ctx, &w.write());
            judge(&mut t.open()?, &w.files)?;
            ctx.distinct(&("sectors", v, k, m, crc));
            Ok(())
        });
    });
    // b) table placement
    let mut jobs = vec![];
    for v in 0..4u16 {
        for tables_first in [false, true] {
            for block_before_hash in [false, true] {
                for hi in [false, true] {
                    if hi && v == 0 {
                        continue;
                    }
                    for gap in [0usize, 1, 3, 512] {
                        for dead in [0usize, 1, 5] {
                            for hs in [8usize, 16, 64, 1024] {
                                for tomb in [0usize, 1, 3] {
                                    if !ctx.thorough && (gap == 1 || (dead == 1 && hs > 16) || hs == 1024 && tomb != 0) {
                                        continue;
                                    }
                                    jobs.push((v, tables_first, block_before_hash, hi, gap, dead, hs, tomb));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, tables_first, block_before_hash, hi, gap, dead, hs, tomb)| {
        let mut w = RefWriter::new(v, 0);
        w.tables_first = tables_first;
        w.block_before_hash = block_before_hash;
        w.hi_block = hi;
        w.gap = gap;
        w.extra_dead_blocks = dead;
        w.hash_size = hs;
        w.deleted_slots = (0..tomb).map(|k| k * 5 + 2).collect();
        for (i, (single, m, implode)) in encodings().into_iter().enumerate().filter(|(i, _)| (i + gap + dead) % 4 == 0) {
            let n = [700usize, 1537, 40, 2048][i % 4];
            let mut f = RefFile::new(&format!("T\\{}", i), content(PATTERNS[i % 7], n, 512));
            f.single = single;
            f.method = m;
            f.implode = implode;
            f.encrypt = i % 3 > 0;
            f.fix_key = i % 3 == 2;
            f.locale = if i % 5 == 4 { 0x407 } else { 0 };
            w.files.push(f);
        }
        w.files.truncate(hs - tomb - 1);
        let key = format!("tables/v{}/{}{}{}/gap{}/dead{}/hash{}/del{}", v + 1, if tables_first { "first" } else { "last" }, if block_before_hash { "-swapped" } else { "" }, if hi { "-hi" } else { "" }, gap, dead, hs, tomb);
        ctx.case(&key, || {
            let t = Tmp::of(ctx, &w.write());
            let mut a = t.open()?;
            judge(&mut a, &w.files)?;
            // every live file is enumerated exactly once, dead blocks are not
            let l = a.list_all().map_err(|e| format!("list_all: {}", e))?;
            if l.len() != w.files.len() {
                return Err(format!("list_all gives {} entries for {} files", l.len(), w.files.len()));
            }
            ctx.distinct(&key);
            Ok(())
        });
    });
    // c) beyond 4 GB
    let far: Vec<u64> = vec![0xFFFF_FE00, 0xFFFF_FF00, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0200, 0x1_8000_0000, 0x2_0000_0000, 0x3_FFFF_FF80, 0x80_0000_0200, 0x101_0000_0400, 0x8001_0000_0000, 0xFFFE_FFFF_0000];
    let mut jobs = vec![];
    for v in 1..=2u16 {
        for &dp in &far {
            for tp in [0x400u64, 0xFFFF_F800, 0x1_0000_1000, 0x4_0000_0000, 0x102_0000_0000, 0x7F00_8000_0000] {
                if tp == 0xFFFF_F800 && dp < 0x1_0000_0400 {
                    continue;
                }
                for prefix in [0u64, 512, 0x1_0000_0000] {
                    if prefix > 512 && (!ctx.thorough || dp != 0x1_0000_0200) {
                        continue; // the header search walks the whole prefix
                    }
                    jobs.push((v, dp, tp, prefix));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, dp, tp, prefix)| {
        let mut w = RefWriter::new(v, 0);
        w.gap = 0x40;
        for (i, enc) in ENCS.iter().enumerate() {
            for (j, (single, m)) in [(true, 0u8), (true, ZLIB), (false, 0), (false, ZLIB)].into_iter().enumerate() {
                let mut f = RefFile::new(&format!("far\\{}{}", i, j), content(["text", "noise"][j % 2], 1300 + i, 512));
                f.single = single;
                f.method = m;
                f.encrypt = *enc != Enc::No;
                f.fix_key = *enc == Enc::Fix;
                w.files.push(f);
            }
        }
        w.hash_size = 32;
        ctx.case(&format!("far/v{}/data{:x}/tables{:x}/at{:x}", v + 1, dp, tp, prefix), || {
            // tables at 1 MB beyond the data when they would overlap it
            let tp = if tp > dp && tp < dp + 0x10000 { dp + 0x100000 } else { tp };
            let t = Tmp(ctx.file("far.mpq"));
            let mut o = std::fs::File::create(&t.0).map_err(|e| e.to_string())?;
            for (pos, b) in w.write_far(dp, tp) {
                o.seek(SeekFrom::Start(prefix + pos)).unwrap();
                if o.write_all(&b).is_err() && pos > 1 << 40 {
                    ctx.add("skipped_by_file_system", 1);
                    return Ok(());
                }
            }
            drop(o);
            let mut a = t.open()?;
            judge(&mut a, &w.files)?;
            ctx.distinct(&("far", v, dp, tp, prefix));
            Ok(())
        });
    });
    ctx.assume("the reference writer follows docs/mopaq-format.md and the conventions of this implementation (see DESIGN.md); its output is read back by the reference reader in the same run of P15");
    let _ = r::adler32;
}
