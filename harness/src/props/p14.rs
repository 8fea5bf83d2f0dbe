//! P14: signatures tell genuine archives from altered ones.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use mopaq::{Archive, SignatureStatus};
use num_bigint::BigUint;
use std::io::{Read, Seek, SeekFrom};

const N: &str = "92627704BFB882CC0523B90CB1AC0459272175968D025EDA47DD7C49371BF8FAEB0E0A92167557AD51B78CCB68C5426290EE9FB14BC118E430349EA4ED6AD837";
const D: &str = "36d8b3b550cc261da11358633c32b2526109f54fda3778289ae28e8db41b43f6d659c33f59f85254798faadaa1fdb408d945c5af4ae75e781eb5e6472ebfdbf1";

/// The published weak key signs a digest: 64 bytes, little-endian.
pub fn sign(digest: &[u8; 16]) -> Vec<u8> {
    let mut em = vec![0u8, 1];
    em.extend([0xFF; 64 - 3 - 18 - 16]);
    em.push(0);
    em.extend([0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10]);
    em.extend(digest);
    raw(&em)
}
fn raw(em: &[u8]) -> Vec<u8> {
    use num_traits::Num;
    let n = BigUint::from_str_radix(N, 16).unwrap();
    let d = BigUint::from_str_radix(D, 16).unwrap();
    let mut s = BigUint::from_bytes_be(em).modpow(&d, &n).to_bytes_le();
    s.resize(64, 0);
    s
}

/// Where the signature file lies: absolute position.
fn sigpos(b: &[u8]) -> Result<usize, String> {
    let a = RefArchive::parse(b)?;
    let h = a.lookup("(signature)", 0).ok_or("no signature file")?;
    let e = &a.block[h.block as usize];
    if e.csize != 72 {
        return Err("signature not stored plainly".into());
    }
    Ok(a.base + e.pos as usize)
}
/// Signs the archive at `base` of `b`, in place. Returns the signature's position.
pub fn sign_archive(b: &mut [u8]) -> Result<usize, String> {
    let p = sigpos(b)?;
    let a = RefArchive::parse(b)?;
    let (base, size) = (a.base, a.archive_size as usize);
    let mut z = b[base..base + size].to_vec();
    z[p - base..p - base + 72].fill(0);
    let s = sign(&r::md5(&z));
    b[p + 8..p + 72].copy_from_slice(&s);
    Ok(p)
}

fn status(t: &Tmp) -> Result<SignatureStatus, String> {
    let mut a = Archive::open(t.path()).map_err(|e| format!("open: {}", e))?;
    let s = a.verify_signature().map_err(|e| format!("verify_signature: {}", e))?;
    let i = a.get_info().map_err(|e| format!("get_info: {}", e))?;
    if i.signature_status != s {
        return Err(format!("DISAGREE: verify_signature {:?}, archive information {:?}", s, i.signature_status));
    }
    let s2 = a.verify_signature().map_err(|e| format!("verify_signature again: {}", e))?;
    if s2 != s {
        return Err(format!("DISAGREE: {:?}, then {:?}", s, s2));
    }
    Ok(s)
}
fn expect(t: &Tmp, want: SignatureStatus, what: &str) -> Result<(), String> {
    match status(t)? {
        s if s == want => Ok(()),
        s => Err(format!("{}: {:?} instead of {:?}", what, s, want)),
    }
}
/// An altered archive may be refused, but never counts as signed.
fn not_valid(t: &Tmp, what: &str) -> Result<(), String> {
    match status(t) {
        Err(m) if m.starts_with("DISAGREE") => Err(format!("{}: {}", what, m)),
        Err(_) => Ok(()),
        Ok(SignatureStatus::WeakValid | SignatureStatus::StrongValid) => Err(format!("{}: reported as validly signed", what)),
        Ok(_) => Ok(()),
    }
}

/// Archive with its signature file at index `at` of the file list.
fn archive(ctx: &Ctx, v: usize, n: usize, at: usize, big: usize, own: bool, lf: bool, prefix: usize) -> Result<Vec<u8>, String> {
    let mut sig = vec![0u8; 8];
    sig.extend([1; 64]);
    if own {
        let mut c = Cfg::new(VERSIONS[v], 0);
        c.lf = if lf { Lf::Gen } else { Lf::None };
        for i in 0..n {
            let size = if i == 0 { big } else { 30 * i };
            c.files.push(F::with(&format!("f{}", i), content(PATTERNS[(i + 2) % 7], size, 512), if i == 0 { 0 } else { ZLIB }, ENCS[i % 3]));
        }
        c.files.insert(at.min(n), F::with("(signature)", sig, 0, Enc::No));
        let t = c.build(ctx)?;
        let mut b = noise(5, prefix).iter().map(|x| x | 0x80).collect::<Vec<u8>>();
        b.extend(t.bytes());
        Ok(b)
    } else {
        let mut w = RefWriter::new(v as u16, 0);
        w.prefix = vec![0xEE; prefix];
        w.tables_first = lf;
        for i in 0..n {
            let size = if i == 0 { big } else { 30 * i };
            let mut f = RefFile::new(&format!("f{}", i), content(PATTERNS[(i + 2) % 7], size, 512));
            f.single = i % 2 == 0;
            w.files.push(f);
        }
        let mut f = RefFile::new("(signature)", sig);
        f.single = true;
        w.files.insert(at.min(n), f);
        Ok(w.write())
    }
}

/// A reader that returns at most `max` bytes at a time.
struct Slow<'a> {
    d: &'a [u8],
    p: u64,
    max: usize,
}
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let s = (self.p as usize).min(self.d.len());
        let n = b.len().min(self.max).min(self.d.len() - s);
        b[..n].copy_from_slice(&self.d[s..s + n]);
        self.p += n as u64;
        Ok(n)
    }
}
impl Seek for Slow<'_> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.p = match s {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(x) => (self.p as i64 + x) as u64,
            SeekFrom::End(x) => (self.d.len() as i64 + x) as u64,
        };
        Ok(self.p)
    }
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule("archives signed with the published weak key over version x layout x position of the signature x offset in file: genuine ones verify; every byte of the archive altered (one flip per byte; all 8 in small archives), every truncation and trailer must not verify; every position of the signature around the 64 KB digest unit; non-trivial = distinct altered archives");
    // a) genuine archives; the signature anywhere
    let mut jobs = vec![];
    for own in [true, false] {
        for v in 0..4 {
            for n in [0usize, 1, 2, 5] {
                for at in 0..=n {
                    for lf in [false, true] {
                        for prefix in [0usize, 512, 1536, 66048] {
                            jobs.push((own, v, n, at, lf, prefix));
                        }
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(own, v, n, at, lf, prefix)| {
        ctx.case(&format!("valid/{}/v{}/n{}/at{}/lf{}/pre{}", if own { "builder" } else { "ref" }, v + 1, n, at, lf as u8, prefix), || {
            let mut b = archive(ctx, v, n, at, 700, own, lf, prefix)?;
            let unsigned = Tmp::of(ctx, &b);
            expect(&unsigned, SignatureStatus::WeakInvalid, "not yet signed")?;
            let p = sign_archive(&mut b)?;
            let t = Tmp::of(ctx, &b);
            expect(&t, SignatureStatus::WeakValid, "genuine")?;
            // the 8 bytes before the signature proper are not part of anything
            for k in 0..8 {
                let mut x = b.clone();
                x[p + k] ^= 0x55;
                expect(&Tmp::of(ctx, &x), SignatureStatus::WeakValid, "header of the signature file changed")?;
            }
            for k in 8..72 {
                for bit in 0..8 {
                    let mut x = b.clone();
                    x[p + k] ^= 1 << bit;
                    expect(&Tmp::of(ctx, &x), SignatureStatus::WeakInvalid, &format!("signature byte {} bit {}", k - 8, bit))?;
                }
                ctx.add("alterations", 8);
            }
            // wiped signature: none
            let mut x = b.clone();
            x[p + 8..p + 72].fill(0);
            expect(&Tmp::of(ctx, &x), SignatureStatus::None, "wiped signature")?;
            // leading data does not matter
            if prefix > 0 {
                for k in [1, 100, prefix - 1] {
                    let mut x = b.clone();
                    x[k] ^= 0x0F;
                    expect(&Tmp::of(ctx, &x), SignatureStatus::WeakValid, "leading data changed")?;
                }
            }
            // trailing data: only a strong signature trailer matters
            for (tail, want) in trailers() {
                let mut x = b.clone();
                x.extend(&tail);
                expect(&Tmp::of(ctx, &x), want, &format!("trailer of {} bytes {:02x?}", tail.len(), &tail[..tail.len().min(6)]))?;
            }
            ctx.distinct(&b);
            ctx.sample("genuine", || format!("{} bytes, signature at {}", b.len(), p));
            Ok(())
        });
    });
    // b) every byte of the archive altered
    let mut arch = vec![];
    for own in [true, false] {
        for v in 0..4 {
            for (n, at, lf, prefix, big) in [(1usize, 0usize, false, 0usize, 100usize), (3, 1, true, 512, 1300), (3, 3, true, 0, 40)] {
                let b = archive(ctx, v, n, at, big, own, lf, prefix);
                let Ok(mut b) = b else {
                    ctx.violation("alter/build", &b.unwrap_err());
                    return;
                };
                match sign_archive(&mut b) {
                    Ok(p) => arch.push((format!("{}/v{}/n{}/at{}", if own { "builder" } else { "ref" }, v + 1, n, at), b, p, prefix)),
                    Err(m) => ctx.violation("alter/sign", &m),
                }
            }
        }
    }
    for (k, b, p, prefix) in &arch {
        ctx.par_range(b.len() - prefix, |i| {
            let i = i + prefix;
            if (*p..*p + 72).contains(&i) {
                return;
            }
            ctx.case(&format!("alter/{}/byte{}", k, i), || {
                for bit in 0..8 {
                    let mut x = b.clone();
                    x[i] ^= 1 << bit;
                    not_valid(&Tmp::of(ctx, &x), &format!("byte {} bit {} altered", i, bit))?;
                    ctx.distinct(&(k, i, bit));
                }
                ctx.add("alterations", 8);
                not_valid(&Tmp::of(ctx, &b[..i]), &format!("truncated to {}", i))?;
                let mut x = b.clone();
                x.remove(i);
                not_valid(&Tmp::of(ctx, &x), &format!("byte {} removed", i))?;
                Ok(())
            });
        });
    }
    // c) the signature at every position around the digest unit boundary
    let mut jobs = vec![];
    for v in [0usize, 3] {
        for unit in if ctx.thorough { vec![1usize, 2, 3] } else { vec![1, 2] } {
            for d in -80i64..=8 {
                for prefix in [0usize, 1024] {
                    jobs.push((v, (unit as i64 * 65536 + d) as usize, prefix));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, pos, prefix)| {
        ctx.case(&format!("unit/v{}/pos{}/pre{}", v + 1, pos, prefix), || {
            let hs = [32usize, 44, 68, 208][v];
            let mut w = RefWriter::new(v as u16, 0);
            w.prefix = vec![0xEE; prefix];
            let mut f = RefFile::new("f0", content("noise", pos - hs, 512));
            f.single = true;
            w.files.push(f);
            let mut f = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
            f.single = true;
            w.files.push(f);
            let mut b = w.write();
            let p = sign_archive(&mut b)?;
            if p != prefix + pos {
                return Err(format!("harness: signature at {} instead of {}", p, prefix + pos));
            }
            expect(&Tmp::of(ctx, &b), SignatureStatus::WeakValid, "genuine")?;
            let mut spots = vec![prefix + hs + 1, p - 1, p - 2, p + 72, p + 73, b.len() - 1];
            for u in [65536usize, 131072, 196608] {
                spots.extend([prefix + u - 1, prefix + u, prefix + u + 1]);
            }
            for s in spots {
                if s >= b.len() || (p..p + 72).contains(&s) {
                    continue;
                }
                let mut x = b.clone();
                x[s] ^= 0x10;
                not_valid(&Tmp::of(ctx, &x), &format!("byte {} altered", s))?;
                ctx.distinct(&(v, pos, prefix, s));
            }
            Ok(())
        });
    });
    // d) every byte of a large archive altered
    {
        let mut w = RefWriter::new(0, 0);
        let mut f = RefFile::new("f0", content("ramp", 66000, 512));
        f.single = true;
        w.files.push(f);
        let mut f = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
        f.single = true;
        w.files.push(f);
        let mut b = w.write();
        let p = sign_archive(&mut b).expect("sign");
        let step = if ctx.thorough { 1 } else { 7 };
        let per = 512 * step;
        ctx.par_range(b.len().div_ceil(per), |k| {
            ctx.case(&format!("large/block{}", k), || {
                let mut x = b.clone();
                for i in (k * per..((k + 1) * per).min(b.len())).step_by(step) {
                    if (p..p + 72).contains(&i) {
                        continue;
                    }
                    x[i] ^= 0x80;
                    not_valid(&Tmp::of(ctx, &x), &format!("byte {} altered", i))?;
                    x[i] ^= 0x80;
                    ctx.distinct(&("large", i));
                }
                Ok(())
            });
        });
    }
    // archives of many megabytes, altered around every megabyte
    let mut jobs = vec![];
    for mb in if ctx.thorough { vec![1usize, 2, 4, 5, 9, 17, 33, 65] } else { vec![1, 2, 5, 17] } {
        for v in [0usize, 3] {
            for first in [false, true] {
                jobs.push((mb, v, first));
            }
        }
    }
    for (mb, v, first) in jobs {
        let mut w = RefWriter::new(v as u16, 0);
        let mut f = RefFile::new("f0", content("noise", (mb << 20) + 12345, 512));
        f.single = true;
        w.files.push(f);
        let mut f = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
        f.single = true;
        w.files.insert(!first as usize, f);
        let mut b = w.write();
        let p = sign_archive(&mut b).expect("sign");
        let mut spots: Vec<Option<usize>> = vec![None];
        spots.extend((1..=mb).flat_map(|m| [(m << 20) - 1, m << 20]).chain([b.len() - 1]).filter(|s| !(p..p + 72).contains(s)).map(Some));
        ctx.par(&spots, |s| {
            ctx.case(&format!("scale/v{}/{}mb/first{}/{:?}", v + 1, mb, first as u8, s), || {
                let t = Tmp::of(ctx, &b);
                if let Some(s) = s {
                    use std::os::unix::fs::FileExt;
                    let f = std::fs::OpenOptions::new().write(true).open(t.path()).map_err(|e| e.to_string())?;
                    f.write_all_at(&[b[*s] ^ 0x10], *s as u64).map_err(|e| e.to_string())?;
                    ctx.distinct(&("scale", mb, v, first, *s));
                    not_valid(&t, &format!("byte {} altered", s))
                } else {
                    expect(&t, SignatureStatus::WeakValid, "genuine")
                }
            });
        });
    }
    // archives whose only signature is the trailer
    for v in 0..4 {
        for prefix in [0usize, 512] {
            for (k, (tail, want)) in trailers().into_iter().enumerate() {
                ctx.case(&format!("trailer/v{}/pre{}/{}", v + 1, prefix, k), || {
                    let mut w = RefWriter::new(v as u16, 0);
                    w.prefix = vec![0xEE; prefix];
                    w.files.push(RefFile::new("f0", content("text", 300, 512)));
                    let mut b = w.write();
                    expect(&Tmp::of(ctx, &b), SignatureStatus::None, "unsigned")?;
                    b.extend(&tail);
                    let want = if want == SignatureStatus::WeakValid { SignatureStatus::None } else { want };
                    let t = Tmp::of(ctx, &b);
                    expect(&t, want.clone(), "trailer only")?;
                    let i = t.open()?.get_info().map_err(|e| e.to_string())?;
                    if i.has_signature != (want != SignatureStatus::None) {
                        return Err(format!("has_signature {} with status {:?}", i.has_signature, want));
                    }
                    Ok(())
                });
            }
        }
    }
    // e) forged paddings and digests under the genuine key
    forged(ctx);
    // f) the digest functions on their own: every excluded range and every read size
    ctx.par_range(12, |k| {
        ctx.case(&format!("digest/{}", k), || {
            let len = [0usize, 1, 5, 40, 40, 40, 40, 100, 65535, 65536, 65537, 131080][k];
            let d = noise(k as u64, len + 16);
            let step = (len / 20).max(1);
            for begin in [0usize, 3, 8] {
                for x in (0..=len).step_by(step) {
                    for y in (x..=len).step_by(step) {
                        let mut z = d[begin..begin + len].to_vec();
                        z[x..y].fill(0);
                        let want = r::md5(&z);
                        let info = mopaq::crypto::SignatureInfo::new_weak(begin as u64, len as u64, (begin + x) as u64, (y - x) as u64, vec![0; 64]);
                        let max = [usize::MAX, 1, 7, 65536, 3][k % 5].max(len / 500);
                        let got = mopaq::crypto::calculate_mpq_hash_md5(Slow { d: &d, p: 3, max }, &info).map_err(|e| e.to_string())?;
                        if got != want {
                            return Err(format!("digest of {} bytes at {} without [{}, {}) is wrong", len, begin, x, y));
                        }
                        ctx.distinct(&("digest", k, begin, x, y));
                    }
                }
            }
            // whole-stream verification
            let s = sign(&r::md5(&d[..len]));
            for max in [1usize << 20, 64, 5] {
                let max = max.max(len / 500);
                let ok = |s: &[u8], n: u64| mopaq::crypto::verify_weak_signature(Slow { d: &d, p: 0, max }, s, n).map_err(|e| e.to_string());
                if !ok(&s, len as u64)? {
                    return Err(format!("genuine signature of {} bytes refused", len));
                }
                if ok(&s, len as u64 + 1)? || (len > 0 && ok(&s, len as u64 - 1)?) {
                    return Err(format!("signature of {} bytes accepted for other data", len));
                }
            }
            Ok(())
        });
    });
    ctx.assume("no genuine strong signature can be made (the private key is not public); strong signatures are explored only as invalid or absent ones");
}

fn trailers() -> Vec<(Vec<u8>, SignatureStatus)> {
    let mut v = vec![(vec![0u8; 260], SignatureStatus::WeakValid), (noise(3, 1000), SignatureStatus::WeakValid), (b"NGIS".to_vec(), SignatureStatus::WeakValid)];
    let mut z = b"NGIS".to_vec();
    z.extend(vec![0; 256]);
    v.push((z, SignatureStatus::WeakValid));
    let mut g = b"NGIS".to_vec();
    g.extend(noise(4, 255));
    v.push((g.clone(), SignatureStatus::WeakValid)); // one byte short
    g.push(1);
    v.push((g.clone(), SignatureStatus::StrongInvalid));
    g.extend([7; 100]);
    v.push((g, SignatureStatus::StrongInvalid));
    let mut s = b"SIGN".to_vec();
    s.extend(noise(4, 256));
    v.push((s, SignatureStatus::WeakValid));
    v
}

/// Signatures made with the genuine key over something else than the digest of this archive.
fn forged(ctx: &'static Ctx) {
    let mut b = archive(ctx, 0, 2, 1, 300, true, true, 0).expect("build");
    let p = sign_archive(&mut b).expect("sign");
    let mut z = b.clone();
    z[p..p + 72].fill(0);
    let dg = r::md5(&z);
    let info = [0x30u8, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10];
    let block = |ps: usize, extra: &[u8]| {
        // a block with `ps` padding bytes and something after the digest
        let mut em = vec![0u8, 1];
        em.extend(vec![0xFF; ps]);
        em.push(0);
        em.extend(info);
        em.extend(dg);
        em.extend(extra);
        em.resize(64, 0x5A);
        em
    };
    let mut forms: Vec<(String, Vec<u8>)> = vec![];
    // the genuine block with each byte changed in each bit
    let good = block(27, &[]);
    for i in 0..64 {
        for bit in 0..8 {
            let mut e = good.clone();
            e[i] ^= 1 << bit;
            forms.push((format!("block byte {} bit {}", i, bit), e));
        }
    }
    // shorter padding, garbage after the digest
    for ps in 0..27 {
        forms.push((format!("padding of {} bytes", ps), block(ps, &[])));
    }
    // byte-reversed digest, digest of the archive with its signature, of nothing, zero
    for (what, d2) in [
        ("reversed digest", dg.iter().rev().copied().collect::<Vec<u8>>()),
        ("digest including the signature", r::md5(&b).to_vec()),
        ("digest of nothing", r::md5(&[]).to_vec()),
        ("zero digest", vec![0; 16]),
    ] {
        let mut e = good.clone();
        e[48..].copy_from_slice(&d2);
        forms.push((what.into(), e));
    }
    ctx.par(&forms, |(what, em)| {
        ctx.case(&format!("forged/{}", what), || {
            let mut x = b.clone();
            if BigUint::from_bytes_be(em) >= BigUint::parse_bytes(N.as_bytes(), 16).unwrap() {
                return Ok(());
            }
            x[p + 8..p + 72].copy_from_slice(&raw(em));
            ctx.distinct(&(what, em));
            not_valid(&Tmp::of(ctx, &x), what)
        });
    });
    ctx.case("forged/none", || {
        let mut x = b.clone();
        x[p + 8..p + 72].copy_from_slice(&raw(&good));
        expect(&Tmp::of(ctx, &x), SignatureStatus::WeakValid, "genuine block")
    });
}
