//! P11: no input makes the library panic, abort, hang or allocate without bound.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefFile, RefWriter};
use mopaq::{Archive, FormatVersion, OpenOptions};

/// Call everything a user could call; errors are fine.
pub fn touch(p: &std::path::Path, names: &[String]) {
    let Ok(mut a) = Archive::open(p) else {
        if let Ok(mut a) = OpenOptions::new().load_tables(false).open(p) {
            let _ = a.header().sector_size();
            let _ = a.get_info();
            let _ = a.list();
            let _ = a.verify_signature();
        }
        return;
    };
    let _ = a.get_info();
    let _ = a.list();
    let _ = a.list_all();
    let _ = a.list_with_hashes();
    let _ = a.list_all_with_hashes();
    for n in names {
        let _ = a.find_file(n);
        let _ = a.read_file(n);
    }
    let _ = a.load_attributes();
    let n = a.block_table().map(|b| b.size()).unwrap_or(0).min(64);
    for i in 0..=n {
        let _ = a.get_file_attributes(i).map(|x| x.crc32);
    }
    if let Some(b) = a.bet_table() {
        for i in [0u32, 1, 2, b.header.file_count.wrapping_sub(1), b.header.file_count, u32::MAX] {
            let _ = b.get_file_info(i);
        }
    }
    if let Some(h) = a.het_table() {
        for n in names {
            let _ = h.find_file(n);
        }
    }
    let _ = a.verify_signature();
}

fn w32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn g64(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

struct Seed {
    key: String,
    bytes: Vec<u8>,
    names: Vec<String>,
}

fn attributes_bytes(n: usize) -> Vec<u8> {
    let mut v = vec![];
    v.extend(100u32.to_le_bytes());
    v.extend(0xFu32.to_le_bytes());
    for i in 0..n {
        v.extend((i as u32 * 7).to_le_bytes());
    }
    for i in 0..n {
        v.extend((i as u64 * 9).to_le_bytes());
    }
    v.extend(vec![3u8; 16 * n]);
    v.extend(vec![0x55u8; n.div_ceil(8)]);
    v
}

fn seeds(ctx: &Ctx) -> Vec<Seed> {
    let mut out = vec![];
    for (vi, v) in VERSIONS.iter().enumerate() {
        for variant in 0..4usize {
            if *v < FormatVersion::V3 && variant == 3 {
                continue;
            }
            let mut c = Cfg::new(*v, 0);
            c.crc = variant != 1;
            c.lf = if variant == 1 { Lf::None } else { Lf::Gen };
            if variant >= 2 {
                c.tables = Some([ZLIB, SPARSE][variant - 2]);
            }
            c.files.push(F::with("a", content("text", 40, 512), ZLIB, Enc::No));
            c.files.push(F::with("big", content("mix", 1300, 512), [ZLIB, BZIP2, SPARSE, PKWARE][variant], [Enc::Fix, Enc::No, Enc::Plain, Enc::No][variant]));
            c.files.push(F::with("st", content("noise", 700, 512), 0, Enc::Plain));
            c.files.push(F::with("snd", content("ramp", 200, 512), [MONO, STEREO, LZMA, MONO | ZLIB][variant], Enc::No));
            c.files.push(F::with("(attributes)", attributes_bytes(5 + (c.lf == Lf::Gen) as usize), 0, Enc::No));
            if variant == 0 {
                c.files.push(F::with("(signature)", (0..72).map(|i| if i < 8 { 0 } else { i as u8 }).collect(), 0, Enc::No));
            }
            if let Ok(Ok(t)) = guarded(|| c.build(ctx)) {
                let mut names: Vec<String> = c.files.iter().map(|f| f.name.clone()).collect();
                names.push("(listfile)".into());
                names.push("absent".into());
                out.push(Seed { key: format!("v{}-{}", vi + 1, variant), bytes: t.bytes(), names });
            }
        }
        let mut w = RefWriter::new(vi as u16, 0);
        w.hash_size = 8;
        w.hi_block = vi > 0;
        w.tables_first = true;
        w.extra_dead_blocks = 1;
        for (i, (single, m, implode)) in [(false, PKWARE, true), (true, PKWARE, true), (false, 0, false)].into_iter().enumerate() {
            let mut f = RefFile::new(&format!("r{}", i), content("text", 900, 512));
            f.single = single;
            f.method = m;
            f.implode = implode;
            w.files.push(f);
        }
        w.user_data = if vi == 2 { Some(512) } else { None };
        out.push(Seed { key: format!("ref-v{}", vi + 1), bytes: w.write(), names: vec!["r0".into(), "r1".into(), "r2".into(), "zz".into()] });
    }
    out
}

const EXT32: [u32; 16] = [0, 1, 2, 3, 4, 8, 31, 32, 512, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFF0, 0xFFFF_FFFE, 0xFFFF_FFFF];

pub fn run(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.set_case_timeout(60);
    ctx.rule("seed archives of every version and storage form: every truncation, every byte x bit flips, every header field x extreme values (singly and in pairs), every decrypted table and sector-table field x extreme values, with all API calls made on each result; every short input and every mutated stream to every decoder and parser; non-trivial = distinct mutated input");
    let sd = seeds(ctx);
    ctx.note("seed_archives", sd.len() as u64);
    if sd.len() < 15 {
        ctx.case("seeds", || Err("the seed archives could not be built".into()));
    }
    let run1 = |key: String, t: &Tmp, b: &[u8], s: &Seed| {
        ctx.case(&key, || {
            std::fs::write(&t.0, b).unwrap();
            touch(&t.0, &s.names);
            ctx.distinct(b);
            Ok(())
        });
    };
    let bs = base_of;
    // a) truncations and flips
    let jobs: Vec<(usize, usize)> = (0..sd.len()).flat_map(|i| (0..8).map(move |k| (i, k))).collect();
    ctx.par(&jobs, |&(si, part)| {
        let s = &sd[si];
        let t = Tmp(ctx.file("p11.mpq"));
        for n in 0..s.bytes.len() {
            if n % 8 != part {
                continue;
            }
            run1(format!("{}/cut{}", s.key, n), &t, &s.bytes[..n], s);
            let masks: &[u8] = if ctx.thorough { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 0x80, 0xFF] };
            for &x in masks {
                let mut b = s.bytes.clone();
                b[n] ^= x;
                run1(format!("{}/flip{}^{:02x}", s.key, n, x), &t, &b, s);
            }
        }
    });
    // b) header fields: 2-byte aligned windows x extreme values, singly and in pairs
    let mut jobs = vec![];
    for (si, s) in sd.iter().enumerate() {
        let base = bs(&s.bytes);
        let hs = g32(&s.bytes, base + 4) as usize;
        for a in (4..hs.min(0x70)).step_by(4) {
            jobs.push((si, a));
        }
    }
    ctx.par(&jobs, |&(si, a)| {
        let s = &sd[si];
        let base = bs(&s.bytes);
        let hs = g32(&s.bytes, base + 4) as usize;
        let t = Tmp(ctx.file("p11.mpq"));
        let len = s.bytes.len() as u32;
        let ext: Vec<u32> = EXT32.iter().copied().chain([len, len - 1, len + 1, len / 2, g32(&s.bytes, base + a).wrapping_add(1), g32(&s.bytes, base + a).wrapping_sub(1), g32(&s.bytes, base + a).wrapping_mul(2), 0x0003_0000, 0x001F_0000, 0x0020_0000, 0xFFFF_0003, 0x003F_0002]).collect();
        for &x in &ext {
            let mut b = s.bytes.clone();
            w32(&mut b, base + a, x);
            run1(format!("{}/h{:x}={:x}", s.key, a, x), &t, &b, s);
            let pairs: &[u32] = if ctx.thorough { &EXT32 } else { &[0, 1, 0x20, 0x7FFF_FFFF, 0xFFFF_FFFF] };
            for c in (a + 4..hs.min(0x70)).step_by(4) {
                for &y in pairs {
                    let mut b = b.clone();
                    w32(&mut b, base + c, y);
                    run1(format!("{}/h{:x}={:x},h{:x}={:x}", s.key, a, x, c, y), &t, &b, s);
                }
            }
        }
    });
    // c) decrypted tables: fields x extreme values
    let mut jobs = vec![];
    for (si, s) in sd.iter().enumerate() {
        for tab in 0..5usize {
            jobs.push((si, tab));
        }
        let _ = s;
    }
    ctx.par(&jobs, |&(si, tab)| {
        let s = &sd[si];
        let base = bs(&s.bytes);
        let h = &s.bytes[base..];
        let ver = u16::from_le_bytes([h[12], h[13]]);
        let (pos, len, key, skip) = match tab {
            0 => (g32(h, 16) as usize, g32(h, 24) as usize * 16, r::hash(b"(hash table)", 3), 0),
            1 => (g32(h, 20) as usize, g32(h, 28) as usize * 16, r::hash(b"(block table)", 3), 0),
            2 if ver >= 1 && g64(h, 0x20) != 0 => (g64(h, 0x20) as usize, g32(h, 28) as usize * 2, 0, 0),
            3 | 4 if ver >= 2 => {
                let p = g64(h, if tab == 3 { 0x3C } else { 0x34 }) as usize;
                if p == 0 {
                    return;
                }
                // the length: up to the next structure
                let mut nexts: Vec<usize> = vec![g32(h, 16) as usize, g32(h, 20) as usize, g64(h, 0x34) as usize, g64(h, 0x3C) as usize, h.len()];
                nexts.retain(|x| *x > p);
                let l = *nexts.iter().min().unwrap() - p;
                (p, l, r::hash(if tab == 3 { b"(hash table)".as_slice() } else { b"(block table)".as_slice() }, 3), 12)
            }
            _ => return,
        };
        if base + pos + len > s.bytes.len() || len == 0 {
            return;
        }
        let t = Tmp(ctx.file("p11.mpq"));
        let mut plain = s.bytes[base + pos..base + pos + len].to_vec();
        r::decrypt_bytes(&mut plain[skip..], key);
        let step = if tab == 2 { 2 } else if skip > 0 { 1 } else { 4 };
        let limit = if skip > 0 { plain.len().min(12 + 90) } else { plain.len() };
        for o in (0..limit).step_by(step) {
            let w = step.min(4).max(if skip > 0 { 4 } else { step });
            if o + w > plain.len() {
                break;
            }
            let cur = if w == 4 { g32(&plain, o) } else { 0 };
            let mut vals: Vec<u32> = EXT32.to_vec();
            vals.extend([s.bytes.len() as u32, cur ^ 1, cur.wrapping_add(1), cur.wrapping_sub(1), cur ^ 0x100, cur ^ 0x200, cur ^ 0x10000, cur ^ 0x20000, cur ^ 0x0100_0000, cur ^ 0x0400_0000, cur ^ 0x0300, cur ^ 0x0100_0200, 64, 65, 33, 24]);
            for x in vals {
                let mut p = plain.clone();
                if w == 4 {
                    w32(&mut p, o, x);
                } else {
                    p[o..o + 2].copy_from_slice(&(x as u16).to_le_bytes());
                }
                r::encrypt_bytes(&mut p[skip..], key);
                let mut b = s.bytes.clone();
                b[base + pos..base + pos + len].copy_from_slice(&p);
                run1(format!("{}/t{}+{:x}={:x}", s.key, tab, o, x), &t, &b, s);
                // the same field of the next entry as well
                if tab == 1 && ctx.thorough && o + 4 < plain.len() {
                    for y in EXT32 {
                        let mut p = plain.clone();
                        w32(&mut p, o, x);
                        w32(&mut p, o + 4, y);
                        r::encrypt_bytes(&mut p, key);
                        let mut b = s.bytes.clone();
                        b[base + pos..base + pos + len].copy_from_slice(&p);
                        run1(format!("{}/t{}+{:x}={:x},{:x}", s.key, tab, o, x, y), &t, &b, s);
                    }
                }
            }
        }
        // d) sector offset tables of every multi-sector file (decrypted), and the flags they are read under
        if tab == 1 {
            let ra = match r::RefArchive::parse(&s.bytes) {
                Ok(a) => a,
                Err(_) => return,
            };
            for name in &s.names {
                let Some(he) = ra.lookup(name, 0) else { continue };
                let be = ra.block[he.block as usize].clone();
                if be.flags & r::SINGLE != 0 || be.flags & (r::COMPRESS | r::IMPLODE) == 0 {
                    continue;
                }
                let n = (be.fsize as usize).div_ceil(512);
                let p0 = base + be.pos as usize;
                let fk = if be.flags & r::ENCRYPTED != 0 { r::file_key(name, be.pos, be.fsize, be.flags).wrapping_sub(1) } else { 0 };
                let mut tabl = s.bytes[p0..p0 + 4 * (n + 1)].to_vec();
                r::decrypt_bytes(&mut tabl, fk);
                for i in 0..=n {
                    let cur = g32(&tabl, 4 * i);
                    for x in EXT32.iter().copied().chain([cur - 1, cur + 1, cur ^ 4, cur + 512, cur.wrapping_sub(512), s.bytes.len() as u32]) {
                        for j in i..=n {
                            let mut tb = tabl.clone();
                            w32(&mut tb, 4 * i, x);
                            if j > i {
                                w32(&mut tb, 4 * j, x.wrapping_add(1));
                            }
                            r::encrypt_bytes(&mut tb, fk);
                            let mut b = s.bytes.clone();
                            b[p0..p0 + 4 * (n + 1)].copy_from_slice(&tb);
                            run1(format!("{}/sect-{}[{},{}]={:x}", s.key, name, i, j, x), &t, &b, s);
                        }
                    }
                }
            }
        }
    });
    decoders(ctx);
    parsers(ctx);
    ctx.assume("a request for more than 1 GB at once counts as unbounded allocation; genuine decompression bombs (output really encoded in the stream) are not in scope");
}

fn base_of(b: &[u8]) -> usize {
    (0..b.len()).step_by(512).find(|&i| b.get(i..i + 4) == Some(b"MPQ\x1a")).unwrap_or(0)
}

fn decoders(ctx: &'static Ctx) {
    use mopaq::compression::{compress, decompress};
    let methods: Vec<u8> = (0..=255).collect();
    ctx.par(&methods, |&m| {
        for size in [0usize, 1, 2, 4, 5, 16, 600, 4096, 0x7FFF_FFFF, 0xFFFF_FFFF, usize::MAX / 2, usize::MAX] {
            ctx.case(&format!("dec/{:02x}/{:x}/short", m, size), || {
                let _ = decompress(&[], m, size);
                for a in 0..=255u8 {
                    let _ = decompress(&[a], m, size);
                }
                Ok(())
            });
            let full = matches!(m, 1 | 2 | 4 | 8 | 0x10 | 0x12 | 0x20 | 0x40 | 0x80);
            ctx.case(&format!("dec/{:02x}/{:x}/two", m, size), || {
                for a in 0..=255u8 {
                    for b in (0..=255u8).step_by(if full { 1 } else { 5 }) {
                        let _ = decompress(&[a, b], m, size);
                    }
                }
                ctx.add("decoder_inputs", 65536);
                Ok(())
            });
            // longer: all strings over an alphabet of critical bytes
            let alpha = [0u8, 1, 2, 4, 5, 6, 0x78, 0x80, 0x9C, 0xFF];
            for first in 0..alpha.len() {
                ctx.case(&format!("dec/{:02x}/{:x}/alpha{}", m, size, first), || {
                    let l = if full { if ctx.thorough { 6 } else { 5 } } else { 3 };
                    let mut v = vec![alpha[first]; l];
                    let tot = alpha.len().pow(l as u32 - 1);
                    for mut x in 0..tot {
                        for k in 1..l {
                            v[k] = alpha[x % alpha.len()];
                            x /= alpha.len();
                        }
                        let _ = decompress(&v, m, size);
                    }
                    ctx.add("decoder_inputs", tot as u64);
                    Ok(())
                });
            }
        }
    });
    // mutated valid streams
    let mut jobs = vec![];
    for m in [ZLIB, PKWARE, BZIP2, SPARSE, LZMA, MONO, STEREO, MONO | ZLIB, STEREO | BZIP2, STEREO | PKWARE, MONO | SPARSE] {
        for p in ["text", "mix", "ramp", "zero"] {
            for n in [30usize, 200, 700] {
                jobs.push((m, p, n));
            }
        }
    }
    ctx.par(&jobs, |&(m, p, n)| {
        let d = content(p, n, 64);
        let Ok(c) = compress(&d, m) else { return };
        if c == d || c.len() < 2 {
            return;
        }
        let (tag, body) = (c[0], &c[1..]);
        for i in 0..=body.len() {
            ctx.case(&format!("mut/{:02x}/{}-{}/@{}", m, p, n, i), || {
                let _ = decompress(&body[..i], tag, n);
                if i < body.len() {
                    let mut b = body.to_vec();
                    for x in 1..=255u8 {
                        b[i] = body[i] ^ x;
                        let _ = decompress(&b, tag, n);
                        if x % 16 == 1 {
                            let _ = decompress(&b, tag, n * 3 + 1);
                            let _ = decompress(&b, tag, 1);
                        }
                    }
                    ctx.add("decoder_inputs", 255);
                }
                ctx.distinct(&(m, p, n, i));
                Ok(())
            });
        }
    });
}

fn parsers(ctx: &'static Ctx) {
    use mopaq::special_files::{parse_listfile, Attributes};
    // attributes: every length x flag combination x block count
    let jobs: Vec<u32> = (0..32).chain([0x80000000, 0xFFFFFFFF]).collect();
    ctx.par(&jobs, |&fl| {
        for n in [0usize, 1, 2, 3, 7, 8, 9, 17, 4096] {
            ctx.case(&format!("attr/{:x}/{}", fl, n), || {
                let mut full = vec![];
                full.extend(100u32.to_le_bytes());
                full.extend(fl.to_le_bytes());
                full.extend(noise(4, 700));
                for l in 0..full.len() {
                    let _ = Attributes::parse(&full[..l].to_vec().into(), n);
                }
                for v in [0u32, 99, 101, u32::MAX] {
                    let mut b = full.clone();
                    w32(&mut b, 0, v);
                    let _ = Attributes::parse(&b.into(), n);
                }
                ctx.distinct(&("attr", fl, n));
                Ok(())
            });
        }
    });
    // listfiles: all strings up to length 5 over critical bytes
    let alpha = [b'a', b';', b'#', b'\n', b'\r', b' ', 0u8, 0xFF, 0xC3, 0xEF];
    ctx.par_range(alpha.len(), |first| {
        ctx.case(&format!("list/{}", first), || {
            for l in 0..=4u32 {
                for mut x in 0..alpha.len().pow(l) {
                    let mut v = vec![alpha[first]];
                    for _ in 0..l {
                        v.push(alpha[x % alpha.len()]);
                        x /= alpha.len();
                    }
                    let _ = parse_listfile(&v);
                }
            }
            Ok(())
        });
    });
    // short files and lone headers
    ctx.par_range(5, |v| {
        for magic in [&b"MPQ\x1a"[..], b"MPQ\x1b", b"MPQ", b"xxxx"] {
            for n in 0..300usize {
                for fill in [0u8, 1, 0xFF] {
                    ctx.case(&format!("short/{}/{:?}/{}/{}", v, magic, n, fill), || {
                        let mut b = magic.to_vec();
                        b.resize(n.max(1), fill);
                        if b.len() >= 16 {
                            b[12] = v as u8;
                            b[13] = 0;
                            if fill == 1 {
                                b[14] = 3;
                                b[15] = 0;
                            }
                        }
                        let t = Tmp::of(ctx, &b);
                        touch(&t.0, &["a".into()]);
                        Ok(())
                    });
                }
            }
        }
    });
    // user data headers: every offset value class
    ctx.case("userdata", || {
        for off in EXT32 {
            for sz in EXT32 {
                let mut b = vec![0u8; 1600];
                b[..4].copy_from_slice(b"MPQ\x1b");
                w32(&mut b, 4, sz);
                w32(&mut b, 8, off);
                w32(&mut b, 12, sz);
                let t = Tmp::of(ctx, &b);
                touch(&t.0, &["a".into()]);
            }
        }
        Ok(())
    });
}
