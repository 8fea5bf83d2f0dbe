//! P10: the MD5 status of a version 4 archive tells exactly which region is damaged.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{RefFile, RefWriter};
use mopaq::{Archive, FormatVersion};

const NAMES: [&str; 6] = ["header", "hash table", "block table", "hi-block table", "HET table", "BET table"];

fn status(p: &std::path::Path) -> Result<Option<[bool; 6]>, String> {
    let mut a = Archive::open(p).map_err(|e| format!("open: {}", e))?;
    let i = a.get_info().map_err(|e| format!("get_info: {}", e))?;
    Ok(i.md5_status.map(|m| [m.header_valid, m.hash_table_valid, m.block_table_valid, m.hi_block_table_valid, m.het_table_valid, m.bet_table_valid]))
}
fn r64(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn r32(d: &[u8], o: usize) -> u64 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule("version 4 archives over file count x table codec x encryption x offset in file; every byte of header and tables x bit flips, every byte of file data x one flip; the status must name the damaged region, only that region, and stay true for undamaged archives");
    let mut archives: Vec<(String, Vec<u8>, usize)> = vec![];
    for n in if ctx.deep { vec![0usize, 1, 2, 5, 7, 20, 40, 100, 150] } else { vec![0usize, 1, 5, 20, 40] } {
        for tab in [None, Some(ZLIB), Some(BZIP2), Some(SPARSE), Some(LZMA)] {
            for lf in [Lf::Gen, Lf::None] {
                if !ctx.thorough && tab == Some(LZMA) && n > 1 {
                    continue;
                }
                let mut c = Cfg::new(FormatVersion::V4, 0);
                c.tables = tab;
                c.lf = lf;
                for i in 0..n {
                    c.files.push(F::with(&format!("D\\f{}", i), content(PATTERNS[i % 7], 20 + i * 37, 512), [ZLIB, 0][i % 2], ENCS[i % 3]));
                }
                let key = format!("built-{}/{:?}/{:?}", n, tab, lf);
                ctx.case(&format!("{}/build", key), || c.build(ctx).map(|_| ()));
                if let Ok(Ok(t)) = guarded(|| c.build(ctx)) {
                    archives.push((key.clone(), t.bytes(), 0));
                    if n == 1 && lf == Lf::Gen {
                        let mut b = vec![0x11; 1024];
                        b.extend(t.bytes());
                        archives.push((format!("{}/at1024", key), b, 1024));
                    }
                }
            }
        }
    }
    // tables of many kilobytes: bytes spread over them, all positions around block boundaries
    for n in if ctx.thorough { vec![300usize, 5000, 20_000] } else { vec![300, 5000] } {
        for tab in [None, Some(ZLIB)] {
            let key = format!("large-{}/{:?}/Gen", n, tab);
            ctx.case(&format!("{}/build", key), || {
                let mut c = Cfg::new(FormatVersion::V4, 0);
                c.tables = tab;
                for i in 0..n {
                    c.files.push(F::with(&format!("D\\f{}", i), vec![i as u8; i % 9], [ZLIB, 0][i % 2], ENCS[i % 3]));
                }
                archives.push((key.clone(), c.build(ctx)?.bytes(), 0));
                Ok(())
            });
        }
    }
    for hi in [false, true] {
        for first in [false, true] {
            let mut w = RefWriter::new(3, 0);
            w.hi_block = hi;
            w.tables_first = first;
            for i in 0..3 {
                w.files.push(RefFile::new(&format!("r{}", i), content("text", 50 + i, 512)));
            }
            archives.push((format!("reference/hi{}/first{}", hi as u8, first as u8), w.write(), 0));
        }
    }
    // the smallest tables there are
    for n in [1usize, 2, 4] {
        for hi in [false, true] {
            for ext in [false, true] {
                let mut w = RefWriter::new(3, 0);
                w.hi_block = hi;
                w.hash_size = n;
                w.ext = ext.then_some(crate::refmpq::Ext { order: [0, 1, 2, 3], wider: [0; 4], unknown: (0, false), odd_flags: false, codec: 0 });
                for i in 0..n {
                    w.files.push(RefFile::new(&format!("r{}", i), content("text", 20 + i, 512)));
                }
                archives.push((format!("reference/least{}/hi{}/ext{}", n, hi as u8, ext as u8), w.write(), 0));
            }
        }
    }
    // tables of megabytes
    for (hash, dead, hi) in [(1usize << 17, 0usize, false), (64, 70_000, false), (64, 600_000, true)] {
        if hi && !ctx.deep {
            continue;
        }
        let mut w = RefWriter::new(3, 0);
        w.hash_size = hash;
        w.extra_dead_blocks = dead;
        w.hi_block = hi;
        w.files.push(RefFile::new("r0", content("text", 50, 512)));
        archives.push((format!("large-reference/{}/{}", hash, dead), w.write(), 0));
    }
    ctx.par(&archives, |(key, good, base)| {
        let base = *base;
        ctx.case(&format!("{}/intact", key), || {
            let t = Tmp::of(ctx, good);
            match status(t.path())? {
                Some(s) if s == [true; 6] => Ok(()),
                s => Err(format!("intact archive reports {:?}", s)),
            }
        });
        let h = &good[base..];
        let pos = |lo: usize, hi: usize| r32(h, lo) | (u16::from_le_bytes([h[hi], h[hi + 1]]) as u64) << 32;
        // regions from the header
        let mut regs: Vec<(usize, u64, u64)> = vec![(0, 0, 208)];
        regs.push((1, pos(0x10, 0x28), r64(h, 0x44)));
        regs.push((2, pos(0x14, 0x2A), r64(h, 0x4C)));
        if r64(h, 0x20) != 0 {
            regs.push((3, r64(h, 0x20), r64(h, 0x54)));
        }
        if r64(h, 0x3C) != 0 {
            regs.push((4, r64(h, 0x3C), r64(h, 0x5C)));
        }
        if r64(h, 0x34) != 0 {
            regs.push((5, r64(h, 0x34), r64(h, 0x64)));
        }
        let region_of = |o: usize| -> Option<usize> {
            regs.iter().find(|(_, p, l)| o as u64 >= base as u64 + p && (o as u64) < base as u64 + p + l).map(|x| x.0)
        };
        // the stored digests inside the header: digest i of table i
        let digest_of = |o: usize| -> Option<usize> {
            let o = o.checked_sub(base)?;
            match o {
                0x70..=0x7F => Some(2),
                0x80..=0x8F => Some(1),
                0x90..=0x9F => Some(3),
                0xA0..=0xAF => Some(5),
                0xB0..=0xBF => Some(4),
                _ => None,
            }
        };
        let t = Tmp(ctx.file("m.mpq"));
        let mut offsets: Vec<usize> = (base..good.len()).collect();
        if key.starts_with("large") {
            offsets = (0..208).step_by(7).chain((208..good.len()).step_by(good.len() / 40)).collect();
            for &(_, p, l) in &regs[1..] {
                let l = l as usize;
                let mut q: Vec<usize> = (0..l).step_by((l / 40).max(1)).chain([0, 1, 11, 12, 13, l - 1, l - 2, l - 4]).collect();
                for b in [512usize, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 18, 1 << 19, 1 << 20] {
                    q.extend([b - 1, b, b + 1]);
                }
                offsets.extend(q.into_iter().filter(|x| *x < l).map(|x| p as usize + x));
            }
            offsets.sort();
            offsets.dedup();
        }
        for o in offsets {
            let reg = region_of(o);
            let masks: &[u8] = if reg.is_none() {
                &[1]
            } else if key.starts_with("large") {
                &[1]
            } else if ctx.thorough || reg == Some(0) {
                &[1, 2, 4, 8, 16, 32, 64, 128, 255]
            } else {
                &[1, 0x20, 0xFF]
            };
            for &x in masks {
                ctx.case(&format!("{}/{}@{}^{:02x}", key, reg.map(|r| NAMES[r]).unwrap_or("data"), o - base, x), || {
                    let mut b = good.clone();
                    b[o] ^= x;
                    std::fs::write(&t.0, &b).unwrap();
                    let st = status(&t.0);
                    ctx.distinct(&(key, o, x));
                    match (reg, st) {
                        // refusing a damaged archive is a correct answer
                        (Some(_), Err(_)) => {
                            ctx.add("refused", 1);
                            Ok(())
                        }
                        (Some(0), Ok(None)) => Ok(()), // no longer announces itself as version 4
                        (Some(0), Ok(Some(s))) => {
                            if s[0] {
                                return Err(format!("damaged header reported valid: {:?}", s));
                            }
                            if let Some(d) = digest_of(o) {
                                let present = regs.iter().any(|r| r.0 == d && r.2 > 0);
                                if present && s[d] {
                                    return Err(format!("{} reported valid against a damaged digest: {:?}", NAMES[d], s));
                                }
                                for k in 1..6 {
                                    if k != d && !s[k] {
                                        return Err(format!("{} reported damaged by its neighbour's digest: {:?}", NAMES[k], s));
                                    }
                                }
                            }
                            ctx.add("reported", 1);
                            Ok(())
                        }
                        (Some(r), Ok(Some(s))) => {
                            if s[r] {
                                return Err(format!("damaged {} reported valid: {:?}", NAMES[r], s));
                            }
                            for k in 0..6 {
                                if k != r && !s[k] {
                                    return Err(format!("damage in the {} reported against the {}: {:?}", NAMES[r], NAMES[k], s));
                                }
                            }
                            ctx.add("reported", 1);
                            Ok(())
                        }
                        (Some(_), Ok(None)) => Err("MD5 status vanished".into()),
                        (None, Err(e)) => {
                            // damaged file data must not make the archive unusable, except through the special files
                            if key.contains("/Gen") { Ok(()) } else { Err(format!("file data damage: {}", e)) }
                        }
                        (None, Ok(Some(s))) if s == [true; 6] => Ok(()),
                        (None, Ok(s)) => Err(format!("damage in file data reported as {:?}", s)),
                    }
                });
            }
        }
        // fills (a lost or overwritten stretch) and damage in several places at once
        let dig: [(usize, usize); 6] = [(0, 0xC0), (2, 0x70), (1, 0x80), (3, 0x90), (5, 0xA0), (4, 0xB0)];
        let mut multi: Vec<(String, Vec<u8>, Vec<usize>)> = vec![]; // damaged archive, regions that may not be called valid
        let present = |d: usize| regs.iter().any(|r| r.0 == d && r.2 > 0);
        for f in [0u8, 0xFF] {
            for (d, o) in dig {
                let mut b = good.clone();
                b[base + o..base + o + 16].fill(f);
                multi.push((format!("digest{}-fill{:02x}", d, f), b, if present(d) { vec![0, d] } else { vec![0] }));
            }
            let mut b = good.clone();
            b[base + 0x70..base + 0xD0].fill(f);
            multi.push((format!("digests-fill{:02x}", f), b, (0..6).filter(|d| present(*d)).collect()));
            let mut b = good.clone();
            b[base + 0x70..base + 0xC0].fill(f);
            multi.push((format!("table-digests-fill{:02x}", f), b, (0..6).filter(|d| present(*d)).collect()));
            for &(r, p, l) in &regs[1..] {
                let (p, l) = (base + p as usize, l as usize);
                for (q, n) in [(0usize, l), (0, l / 2), (l / 2, l - l / 2), (l.saturating_sub(16), l.min(16)), (l.saturating_sub(4), l.min(4)), (0, l.min(12))] {
                    let mut b = good.clone();
                    b[p + q..p + q + n].fill(f);
                    if b != *good {
                        multi.push((format!("{}-fill{:02x}@{}+{}", NAMES[r], f, q, n), b.clone(), vec![r]));
                        // its digest lost with it
                        let o = dig.iter().find(|x| x.0 == r).unwrap().1;
                        b[base + o..base + o + 16].fill(f);
                        multi.push((format!("{}-and-digest-fill{:02x}@{}+{}", NAMES[r], f, q, n), b, vec![0, r]));
                    }
                }
            }
        }
        for (i, &(r1, p1, l1)) in regs[1..].iter().enumerate() {
            for &(r2, p2, l2) in &regs[i + 2..] {
                if l1 == 0 || l2 == 0 {
                    continue;
                }
                for (q1, q2) in [(l1 - 1, l2 - 1), (0, 0), (l1 / 2, l2 / 2)] {
                    let mut b = good.clone();
                    b[base + (p1 + q1) as usize] ^= 1;
                    b[base + (p2 + q2) as usize] ^= 0x40;
                    multi.push((format!("{}@{}+{}@{}", NAMES[r1], q1, NAMES[r2], q2), b, vec![r1, r2]));
                }
            }
        }
        for (i, (d1, o1)) in dig.iter().enumerate().skip(1) {
            for (d2, o2) in &dig[i + 1..] {
                let mut b = good.clone();
                for k in 0..16 {
                    b.swap(base + o1 + k, base + o2 + k);
                }
                if b != *good {
                    multi.push((format!("digests {} and {} exchanged", d1, d2), b, [0, *d1, *d2].into_iter().filter(|d| present(*d)).collect()));
                }
            }
        }
        for (what, b, regions) in multi {
            ctx.case(&format!("{}/{}", key, what), || {
                if b == *good {
                    return Ok(());
                }
                std::fs::write(&t.0, &b).unwrap();
                ctx.distinct(&(key, &what));
                match status(&t.0) {
                    Err(_) => ctx.add("refused", 1),
                    Ok(None) => return Err("MD5 status vanished".into()),
                    Ok(Some(s)) => {
                        for k in 0..6 {
                            if s[k] == regions.contains(&k) && (s[k] || present(k)) {
                                return Err(format!("{} is {}, but the status is {:?}", NAMES[k], if s[k] { "damaged" } else { "intact" }, s));
                            }
                        }
                        ctx.add("reported", 1);
                    }
                }
                Ok(())
            });
        }
        ctx.sample(key, || format!("regions {:?}", regs));
    });
}
