//! P04: every lossless codec is lossless, and its streams are readable by an independent decoder.
use super::common::*;
use crate::engine::*;
use crate::refmpq as r;
use mopaq::compression::{compress, decompress};

/// The contract of compress(): either the input unchanged, or method byte + stream shorter than the input.
pub fn check(data: &[u8], m: u8) -> Result<bool, String> {
    let c = compress(data, m).map_err(|e| format!("compress failed: {}", e))?;
    if c == data {
        return Ok(false);
    }
    if c.len() >= data.len() {
        return Err(format!("compress returned {} bytes for {} input bytes without returning the input itself", c.len(), data.len()));
    }
    if c[0] != m {
        return Err(format!("method byte is {:#x}", c[0]));
    }
    let d = decompress(&c[1..], m, data.len()).map_err(|e| format!("decompress failed: {}", e))?;
    diff(&d, data)?;
    let i = r::ref_decompress(&c, data.len()).map_err(|e| format!("independent decoder: {}", e))?;
    diff(&i, data).map_err(|e| format!("independent decoder: {}", e))?;
    Ok(true)
}

/// Streams written by an independent encoder must be decoded.
fn check_foreign(data: &[u8], m: u8) -> Result<(), String> {
    if m == PKWARE {
        return check_foreign_pkware(data);
    }
    let c = r::ref_compress(data, m);
    let d = decompress(&c[1..], m, data.len()).map_err(|e| format!("decompress of an independent stream failed: {}", e))?;
    diff(&d, data)
}

/// Streams of every literal mode and dictionary size: decoded exactly; streams beyond one 4 KB unit may be refused.
fn check_foreign_pkware(data: &[u8]) -> Result<(), String> {
    for ascii in [false, true] {
        for dict in 4..=6 {
            let c = r::implode(data, ascii, dict);
            match r::explode(&c, data.len()) {
                Ok(x) if x == data => {}
                x => panic!("reference PKWARE encoder is wrong: {:?}", x.map(|v| v.len())),
            }
            match decompress(&c, PKWARE, data.len()) {
                Ok(d) => diff(&d, data).map_err(|m| format!("ascii={} dictionary={}: {}", ascii, dict, m))?,
                Err(e) if data.len() <= 4096 => return Err(format!("ascii={} dictionary={}: independent stream refused: {}", ascii, dict, e)),
                Err(_) => {}
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("all strings up to a bounded length over 2-4 symbol alphabets, all zero-run/literal-run length pairs up to 300, all lengths 0..N of 7 content patterns; non-trivial = distinct input for which a real compressed stream was produced and decoded");
    let methods: Vec<u8> = LOSSLESS.iter().copied().filter(|m| *m != 0).collect();
    let mut jobs: Vec<(u8, u32)> = vec![];
    for &m in &methods {
        for part in 0..8 {
            jobs.push((m, part));
        }
    }
    ctx.par(&jobs, |&(m, part)| {
        let nm = mname(m);
        // a) all strings over {0, A} up to length L
        let l = if ctx.thorough { 14 } else { 11 };
        for len in 0..=l {
            for bits in 0..(1u32 << len) {
                if bits % 8 != part {
                    continue;
                }
                let d: Vec<u8> = (0..len).map(|i| if bits >> i & 1 == 1 { b'A' } else { 0 }).collect();
                ctx.case(&format!("{}/bin/{}:{:x}", nm, len, bits), || {
                    if check(&d, m)? {
                        ctx.distinct(&(m, &d));
                    }
                    if !d.is_empty() {
                        check_foreign(&d, m)?;
                    }
                    Ok(())
                });
            }
        }
        // b) runs: z zeros, then k literals, then z2 zeros
        let zs: Vec<usize> = (0..=300usize).collect();
        for (i, &z) in zs.iter().enumerate() {
            if i as u32 % 8 != part {
                continue;
            }
            let ks: Vec<usize> = if ctx.thorough || m == SPARSE { (0..=300).step_by(if m == SPARSE { 1 } else { 3 }).collect() } else { vec![0, 1, 2, 63, 125, 126, 127, 128, 129, 252, 253, 254, 255, 256, 257] };
            for k in ks {
                let mut d = vec![0u8; z];
                d.extend((0..k).map(|i| (i % 255) as u8 + 1));
                d.extend(vec![0u8; z % 5]);
                ctx.case(&format!("{}/run/{}-{}", nm, z, k), || {
                    if check(&d, m)? {
                        ctx.distinct(&(m, &d));
                    }
                    Ok(())
                });
            }
        }
        // c) every length of every pattern
        let top = if ctx.thorough { 3000 } else { 700 };
        for n in 0..=top {
            if n as u32 % 8 != part {
                continue;
            }
            for p in PATTERNS {
                let d = content(p, n, 64);
                ctx.case(&format!("{}/{}/{}", nm, p, n), || {
                    if check(&d, m)? {
                        ctx.distinct(&(m, &d));
                        ctx.sample(&format!("{}-{}", nm, p), || format!("{} bytes", n));
                    }
                    if n > 0 && n % 5 == 0 {
                        check_foreign(&d, m)?;
                    }
                    Ok(())
                });
            }
        }
        // d) all three-symbol strings of length up to L behind a long repeat (match finders)
        let l3 = if ctx.thorough { 8 } else { 6 };
        for len in 1..=l3u(l3) {
            let tot = 3u32.pow(len as u32);
            for x in 0..tot {
                if x % 8 != part {
                    continue;
                }
                let mut y = x;
                let mut unit = vec![];
                for _ in 0..len {
                    unit.push([b'a', 0, 0xFF][(y % 3) as usize]);
                    y /= 3;
                }
                let mut d = unit.clone();
                d.extend_from_slice(b"<sep>");
                for _ in 0..6 {
                    d.extend_from_slice(&unit);
                }
                ctx.case(&format!("{}/tri/{}:{}", nm, len, x), || {
                    if check(&d, m)? {
                        ctx.distinct(&(m, &d));
                    }
                    Ok(())
                });
            }
        }
        // e) larger blocks
        let big: &[usize] = if ctx.thorough { &[4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 262143, 262144, 262145, 524_287, 524_288, 524_289, 1 << 20, 1_048_577, 2_097_153] } else { &[4095, 4096, 4097, 8192, 16384, 65536, 131072, 262_145, 524_289, 1_048_577] };
        for (i, &n) in big.iter().enumerate() {
            if i as u32 % 8 != part {
                continue;
            }
            for p in PATTERNS {
                if !ctx.thorough && n > 131072 && (m == LZMA || p == "noise" || p == "ramp" || p == "ff") {
                    continue;
                }
                let d = content(p, n, 512);
                ctx.case(&format!("{}/big-{}/{}", nm, p, n), || {
                    if check(&d, m)? {
                        ctx.distinct(&(m, &d));
                    }
                    if m != LZMA || n <= 65536 {
                        check_foreign(&d, m)?;
                    }
                    Ok(())
                });
            }
        }
        // f) distances beyond every window: a block repeated after a gap
        if part == 0 {
            for gap in [0usize, 1, 62, 63, 64, 65, 500, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8192] {
                for rl in [2usize, 3, 4, 5, 16, 60, 255, 256, 300, 515, 516, 517, 518, 519, 520, 521, 600, 1100] {
                    let unit = noise(3, rl);
                    let mut d = unit.clone();
                    d.extend(noise(4, gap).iter().map(|b| b | 1));
                    d.extend(&unit);
                    d.extend(vec![7u8; 40]);
                    ctx.case(&format!("{}/gap/{}-{}", nm, gap, rl), || {
                        if check(&d, m)? {
                            ctx.distinct(&(m, &d));
                        }
                        check_foreign(&d, m)
                    });
                }
            }
        }
    });
    // g) Huffman (decode only): different streams cannot all decode to the same contents
    for t in 0..16u8 {
        ctx.case(&format!("huffman/type{}", t), || {
            let mut outs = std::collections::HashSet::new();
            for tail in 0..=0xFFFFu16 {
                let mut d = vec![t];
                d.extend(tail.to_le_bytes());
                d.extend([0x5A, 0xC3]);
                outs.insert(decompress(&d, 0x01, 12).ok());
            }
            if outs.len() == 1 && !outs.contains(&None) {
                return Err(format!("all 65536 streams of type {} decode to the same 12 bytes {:02x?}", t, outs.iter().next().unwrap().as_ref().unwrap()));
            }
            Ok(())
        });
    }
    // h) two lossless codecs in one unit, applied by the writer in the format's order (sparse, then
    // zlib, then PKWARE, then bzip2): decoded exactly or refused, never anything else
    let order = [SPARSE, ZLIB, PKWARE, BZIP2];
    for i in 0..4 {
        for j in i + 1..4 {
            let m = order[i] | order[j];
            if m == LZMA {
                continue;
            }
            for p in PATTERNS {
                for n in [1usize, 16, 64, 200, 511, 512, 513, 1024, 2000, 4096] {
                    let d = content(p, n, 64);
                    ctx.case(&format!("pair/{:02x}/{}/{}", m, p, n), || {
                        let inner = r::ref_compress(&d, order[i])[1..].to_vec();
                        if inner.len() > 4096 && order[j] == PKWARE {
                            return Ok(());
                        }
                        let c = r::ref_compress(&inner, order[j])[1..].to_vec();
                        match decompress(&c, m, n) {
                            Err(_) => Ok(()),
                            Ok(x) => diff(&x, &d).map_err(|e| format!("unit written with {} then {}: {}", mname(order[i]), mname(order[j]), e)),
                        }
                    });
                }
            }
        }
    }
    // i) in an archive: a unit decodes as the codec its first byte names does, or not at all, for every first byte
    let jobs: Vec<(u8, bool)> = LOSSLESS.iter().flat_map(|&m| [(m, false), (m, true)]).filter(|x| x.0 != 0).collect();
    ctx.par(&jobs, |&(m, single)| {
        let d = content("text", 900, 512);
        let mut w = r::RefWriter::new(0, 0);
        let mut f = r::RefFile::new("labelled", d.clone());
        f.method = m;
        f.single = single;
        w.files.push(f);
        let b = w.write();
        // header, then the one file: its offset table (unless a single unit), then the units
        let units: Vec<(usize, usize, usize)> = if single {
            let ra = match r::RefArchive::parse(&b) {
                Ok(x) => x,
                Err(e) => return ctx.case(&format!("label/{:02x}/parse", m), || Err(e)),
            };
            vec![(32, 32 + ra.block[0].csize as usize, 900)]
        } else {
            let o: Vec<usize> = (0..3).map(|i| u32::from_le_bytes(b[32 + 4 * i..36 + 4 * i].try_into().unwrap()) as usize).collect();
            vec![(32 + o[0], 32 + o[1], 512), (32 + o[1], 32 + o[2], 388)]
        };
        for (u, &(lo, hi, n)) in units.iter().enumerate() {
            if hi - lo >= n {
                continue;
            }
            for label in 0..=255u8 {
                ctx.case(&format!("label/{:02x}/{}/{}/{:02x}", m, single, u, label), || {
                    let mut x = b.clone();
                    x[lo] = label;
                    let t = Tmp::of(ctx, &x);
                    let got = t.open()?.read_file("labelled").ok();
                    let want = decompress(&x[lo + 1..hi], label, n).ok().map(|y| {
                        let mut all = d.clone();
                        let at: usize = units[..u].iter().map(|k| k.2).sum();
                        all.splice(at..at + n, y);
                        all
                    });
                    if let Some(g) = got {
                        match want {
                            Some(w) if w == g => {}
                            _ => return Err(format!("a unit labelled {:#04x} reads as {} bytes, but does not decode to that", label, g.len())),
                        }
                    } else if let Some(w) = want {
                        if w.len() == d.len() {
                            return Err(format!("a unit labelled {:#04x} decodes, but its file does not read", label));
                        }
                    }
                    ctx.distinct(&("label", m, single, u, label));
                    Ok(())
                });
            }
        }
    });
    ctx.assume("the third-party codec crates (flate2, bzip2, lzma-rs) are trusted as independent decoders; the PKWARE and sparse decoders are written from the format descriptions");
}
fn l3u(x: usize) -> usize {
    x
}
