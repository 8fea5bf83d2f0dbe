//! P05: ADPCM (alone or with a second stage) keeps every sample, in order, within the quantiser bound.
use super::common::*;
use crate::engine::*;
use crate::refmpq as r;
use mopaq::compression::{compress, decompress};

fn pcm(s: &[i16]) -> Vec<u8> {
    s.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn bound(data: &[u8], out: &[u8], steps: Option<&[i32]>, ch: usize) -> Result<(), String> {
    if out.len() != data.len() {
        return Err(format!("decoded {} bytes for {} bytes of samples", out.len(), data.len()));
    }
    for i in 0..data.len() / 2 {
        let a = i16::from_le_bytes([data[2 * i], data[2 * i + 1]]) as i32;
        let b = i16::from_le_bytes([out[2 * i], out[2 * i + 1]]) as i32;
        if i < ch && a != b {
            return Err(format!("first sample of channel {} is {} instead of {}", i, b, a));
        }
        let lim = match steps {
            Some(s) => s[i] / 8 + 8,
            None => 4104,
        };
        if (a - b).abs() > lim {
            return Err(format!("sample {} is {} instead of {} (allowed error {})", i, b, a, lim));
        }
    }
    Ok(())
}

/// Returns whether a compressed stream was produced.
fn check(data: &[u8], m: u8) -> Result<bool, String> {
    let c = compress(data, m).map_err(|e| format!("compress failed: {}", e))?;
    if c == data {
        return Ok(false);
    }
    if c.len() >= data.len() {
        return Err(format!("{} bytes for {} input bytes", c.len(), data.len()));
    }
    if c[0] != m {
        return Err(format!("method byte {:#x}", c[0]));
    }
    let d = decompress(&c[1..], m, data.len()).map_err(|e| format!("decompress failed: {}", e))?;
    let i = r::ref_decompress(&c, data.len()).map_err(|e| format!("independent decoder: {}", e))?;
    diff(&d, &i).map_err(|e| format!("library and independent decoder disagree: {}", e))?;
    let ch = if m & 0x80 != 0 { 2 } else { 1 };
    if m & 0x3F == 0 {
        let (_, steps) = r::adpcm_decode_steps(&c[1..], data.len(), ch)?;
        bound(data, &d, Some(&steps), ch)?;
    } else {
        bound(data, &d, None, ch)?;
    }
    Ok(true)
}

const METHODS: [u8; 15] = [
    MONO, STEREO, MONO | ZLIB, STEREO | ZLIB, MONO | BZIP2, STEREO | BZIP2, MONO | SPARSE, STEREO | SPARSE, MONO | PKWARE,
    STEREO | PKWARE, MONO | STEREO, MONO | STEREO | ZLIB, MONO | STEREO | BZIP2, MONO | STEREO | SPARSE, MONO | STEREO | PKWARE,
];

fn waves(n: usize) -> Vec<(&'static str, Vec<i16>)> {
    let z = noise(31, n * 2);
    vec![
        ("silence", vec![0; n]),
        ("const", vec![-12345; n]),
        ("max", vec![32767; n]),
        ("min", vec![-32768; n]),
        ("square", (0..n).map(|i| if (i / 9) % 2 == 0 { 32767 } else { -32768 }).collect()),
        ("alt", (0..n).map(|i| if i % 2 == 0 { 32767 } else { -32768 }).collect()),
        ("ramp", (0..n).map(|i| (i as i64 * 37 - 3000) as i16).collect()),
        ("saw", (0..n).map(|i| ((i * 1021) as u16) as i16).collect()),
        ("sine", (0..n).map(|i| ((i as f64 * 0.05).sin() * 20000.0) as i16).collect()),
        ("lr", (0..n).map(|i| if i % 2 == 0 { 5000 + (i % 50) as i16 } else { -9000 }).collect()),
        ("noise", (0..n).map(|i| i16::from_le_bytes([z[2 * i], z[2 * i + 1]])).collect()),
        ("impulse", (0..n).map(|i| if i % 97 == 50 { 30000 } else { 3 }).collect()),
    ]
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("all sample sequences up to a bounded length over an extreme-value alphabet; every second sample value 0..65535 after each of 9 first samples; every even length of 12 waveforms; mono, stereo, both flags and every second stage; whole archives; non-trivial = distinct sample sequence for which a compressed stream was produced, decoded by the library and by the independent decoder, and bounded");
    let al: [i16; 9] = [-32768, -32767, -1000, -1, 0, 1, 1000, 20000, 32767];
    let depth = if ctx.thorough { 6 } else { 5 };
    ctx.par_range(81, |head| {
        // a) all sequences starting with (head/9, head%9); padded so that a stream is worth storing
        let mut idx = vec![0usize; depth - 2];
        loop {
            let mut s: Vec<i16> = vec![al[head / 9], al[head % 9]];
            s.extend(idx.iter().map(|&i| al[i]));
            let mut k = s.clone();
            // constant tail: keeps the stream shorter than the samples
            let last = *s.last().unwrap();
            k.resize(s.len() + 24 + s.len() % 2, last);
            if k.len() % 2 == 1 {
                k.push(last);
            }
            for m in [MONO, STEREO] {
                ctx.case(&format!("seq/{:02x}/{}-{:?}", m, head, idx), || {
                    if check(&pcm(&k), m)? {
                        ctx.distinct(&(m, &k));
                    }
                    Ok(())
                });
            }
            let mut j = 0;
            while j < idx.len() {
                idx[j] += 1;
                if idx[j] < al.len() {
                    break;
                }
                idx[j] = 0;
                j += 1;
            }
            if j == idx.len() {
                break;
            }
        }
    });
    ctx.par_range(64, |blk| {
        // b) every jump from 9 start values
        let step = if ctx.thorough { 1 } else { 3 };
        for v in (blk * 1024..(blk + 1) * 1024).step_by(step) {
            for &a in &al {
                let x = v as u16 as i16;
                let mut k = vec![a, x];
                k.extend(vec![x; 14]);
                for m in [MONO, STEREO] {
                    ctx.case(&format!("jump/{:02x}/{}-{}", m, a, x), || {
                        if check(&pcm(&k), m)? {
                            ctx.distinct(&(m, &k));
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    // c) lengths x waveforms x every combination
    let top = if ctx.thorough { 1200 } else { 200 };
    ctx.par_range(top, |n| {
        for (w, s) in waves(n) {
            for m in METHODS {
                let ch = if m & 0x80 != 0 { 2 } else { 1 };
                if n % ch != 0 {
                    // a sample count that does not fill the channels is refused, never mangled
                    ctx.case(&format!("odd/{:02x}/{}/{}", m, w, n), || match compress(&pcm(&s), m) {
                        Err(_) => Ok(()),
                        Ok(c) if c == pcm(&s) => Ok(()),
                        Ok(c) => bound(&pcm(&s), &decompress(&c[1..], m, 2 * n).map_err(|e| e.to_string())?, None, 1),
                    });
                    continue;
                }
                ctx.case(&format!("wave/{:02x}/{}/{}", m, w, n), || {
                    if check(&pcm(&s), m)? {
                        ctx.distinct(&(m, &s));
                        ctx.sample(&format!("{:02x}-{}", m, w), || format!("{} samples", n));
                    }
                    Ok(())
                });
            }
        }
        // odd byte counts are refused
        if n > 0 {
            for m in [MONO, STEREO, MONO | ZLIB] {
                ctx.case(&format!("unaligned/{:02x}/{}", m, n), || match compress(&vec![1u8; 2 * n - 1], m) {
                    Err(_) => Ok(()),
                    Ok(c) if c == vec![1u8; 2 * n - 1] => Ok(()),
                    Ok(_) => Err("an odd number of bytes was ADPCM-compressed".into()),
                });
            }
        }
    });
    // d) long inputs (intermediate stages beyond every codec's unit size) and whole archives
    let longs: &[usize] = if ctx.thorough { &[2046, 2048, 4094, 4096, 5000, 8192, 16384, 40000] } else { &[2046, 4094, 4098, 8192, 16384] };
    let mut jobs = vec![];
    for &n in longs {
        for m in METHODS {
            jobs.push((n, m));
        }
    }
    ctx.par(&jobs, |&(n, m)| {
        for (w, s) in waves(n) {
            ctx.case(&format!("long/{:02x}/{}/{}", m, w, n), || {
                if check(&pcm(&s), m)? {
                    ctx.distinct(&(m, &s));
                }
                Ok(())
            });
        }
        let ch = if m & 0x80 != 0 { 2 } else { 1 };
        for v in VERSIONS {
            for enc in [Enc::No, Enc::Fix] {
                for crc in [false, true] {
                    let mut c = Cfg::new(v, if n > 5000 { 3 } else { 0 });
                    c.crc = crc;
                    for (w, s) in waves(n) {
                        c.files.push(F::with(w, pcm(&s), m, enc));
                    }
                    ctx.case(&format!("archive/{:?}/{:02x}/{}/{:?}/{}", v, m, n, enc, crc), || {
                        let t = c.build(ctx)?;
                        let mut a = t.open()?;
                        for f in &c.files {
                            let got = a.read_file(&f.name).map_err(|e| {
                                format!("{}: {}", f.name, e)
                            });
                            bound(&f.data, &got?, None, ch).map_err(|e| format!("{}: {}", f.name, e))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    foreign(ctx);
    ctx.assume("compression level is the builder's fixed default");
}

/// Streams of other encoders: every quantiser index x every code, all short code sequences, against the independent
/// decoder.
fn foreign(ctx: &'static Ctx) {
    let decode = |m: u8, shift: u8, first: &[i16], codes: &[u8]| -> Result<(), String> {
        let ch = if m == STEREO { 2 } else { 1 };
        let mut d = vec![0, shift];
        for c in 0..ch {
            d.extend(first[c % first.len()].to_le_bytes());
        }
        d.extend(codes);
        let want = r::adpcm_decode(&d, usize::MAX, ch)?;
        let got = decompress(&d, m, want.len()).map_err(|e| format!("shift {}, first {:?}, codes {:02x?}: {}", shift, first, codes, e))?;
        diff(&got, &want).map_err(|e| format!("shift {}, first {:?}, codes {:02x?}: {}", shift, first, codes, e))
    };
    let firsts: [&[i16]; 5] = [&[0, 100], &[32767, -32768], &[-32768, 0], &[32000, -5], &[-1234, 4321]];
    // every quantiser index of the first channel, reached from the initial one (44) by the codes that change
    // only the index: 0x81 raises it by 8, 0x80 repeats the sample and lowers it by 1
    let lead = |ix: usize, ch: usize| -> Vec<u8> {
        let up = ix.saturating_sub(44).div_ceil(8);
        let down = (44 + 8 * up).min(88) - ix;
        let mut out = vec![0x81u8; up];
        out.extend(vec![0x80u8; down * ch]);
        out
    };
    let idx: Vec<usize> = (0..=88).collect();
    ctx.par(&idx, |&ix| {
        for m in [MONO, STEREO] {
            for shift in [0u8, 1, 2, 3, 4, 5, 6, 7, 15, 31] {
                ctx.case(&format!("foreign/index/{:02x}/{}/{}", m, ix, shift), || {
                    let pre = lead(ix, if m == STEREO { 2 } else { 1 });
                    for f in firsts {
                        for code in 0..=255u8 {
                            let mut c = pre.clone();
                            c.extend([code, 0x01, 0x41]);
                            decode(m, shift, f, &c)?;
                        }
                    }
                    ctx.add("foreign_streams", 5 * 256);
                    ctx.distinct(&("index", m, ix, shift));
                    Ok(())
                });
            }
        }
    });
    let all: Vec<u8> = (0..=255).collect();
    ctx.par(&all, |&a| {
        for m in [MONO, STEREO] {
            ctx.case(&format!("foreign/pairs/{:02x}/{:02x}", m, a), || {
                for b in 0..=255u8 {
                    for (i, f) in firsts.iter().enumerate() {
                        decode(m, [4u8, 5, 3, 1, 6][i], f, &[a, b])?;
                        decode(m, [4u8, 5, 3, 1, 6][i], f, &[a, b, a, b, b])?;
                    }
                }
                ctx.add("foreign_streams", 2560);
                ctx.distinct(&("pairs", m, a));
                Ok(())
            });
        }
    });
    let crit = [0x80u8, 0x81, 0x00, 0x40, 0x3F, 0x7F, 0x1F, 0x10, 0x60, 0x08, 0x82, 0xFF];
    let len = if ctx.thorough { 6 } else { 5 };
    let heads: Vec<usize> = (0..crit.len() * crit.len()).collect();
    ctx.par(&heads, |&h| {
        for m in [MONO, STEREO] {
            ctx.case(&format!("foreign/sequence/{:02x}/{}", m, h), || {
                for rest in 0..crit.len().pow(len - 2) {
                    let mut c = vec![crit[h % 12], crit[h / 12]];
                    let mut x = rest;
                    for _ in 2..len {
                        c.push(crit[x % 12]);
                        x /= 12;
                    }
                    decode(m, 4, firsts[rest % 5], &c)?;
                }
                ctx.add("foreign_streams", crit.len().pow(len - 2) as u64);
                ctx.distinct(&("sequence", m, h));
                Ok(())
            });
        }
    });
}
