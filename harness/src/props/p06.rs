//! P06: the cipher and the name hashes are the published MPQ algorithms; encrypt/decrypt are inverse.
use crate::engine::*;
use crate::refmpq as r;
use mopaq::crypto;

pub fn run(ctx: &'static Ctx) {
    ctx.level("exploration");
    ctx.rule("full product of keys (all 8/16-bit low parts and every single-bit key) x block lengths 0..=64 words x data patterns, all names up to length 4 over a 9-byte alphabet x 5 hash types; non-trivial = distinct (key, plaintext) or (name, type) pair whose result was compared with the independent algorithm");
    // 1. table
    ctx.case("table", || {
        for (i, w) in r::crypt_table().iter().enumerate() {
            if crypto::ENCRYPTION_TABLE[i] != *w {
                return Err(format!("encryption table entry {:#x} is {:#x}, published value {:#x}", i, crypto::ENCRYPTION_TABLE[i], w));
            }
        }
        Ok(())
    });
    // 2. cipher
    let mut keys: Vec<u32> = vec![];
    for i in 0..32 {
        keys.push(1 << i);
        keys.push(!(1u32 << i));
    }
    let step = if ctx.thorough { 1 } else { 7 };
    for lo in (0..0x10000u32).step_by(step) {
        keys.push(lo | 0xC3AF_0000);
    }
    for lo in 0..0x100u32 {
        keys.push(lo);
        keys.push(lo << 8);
        keys.push(lo << 16);
        keys.push(lo << 24);
    }
    keys.extend([0xFFFFFFFF, 0xFFFFFFFE, 0xC3AF3770, 0xEC83B3A3, 0x80000000]);
    keys.sort();
    keys.dedup();
    let lens: Vec<usize> = if ctx.thorough { (0..=64).chain([127, 128, 129, 1024]).collect() } else { (0..=20).chain([63, 64, 65, 128]).collect() };
    ctx.par(&keys, |&key| {
        ctx.case(&format!("cipher/key={:08x}", key), || {
            for &n in &lens {
                for pat in 0..3 {
                    let plain: Vec<u32> = (0..n)
                        .map(|i| match pat {
                            0 => 0,
                            1 => u32::MAX,
                            _ => hash64(&(i as u64, key)) as u32,
                        })
                        .collect();
                    let mut e = plain.clone();
                    crypto::encrypt_block(&mut e, key);
                    let mut re = plain.clone();
                    if key != 0 {
                        r::encrypt_words(&mut re, key);
                    }
                    if e != re {
                        return Err(format!("encrypt_block({} words, pattern {}) differs from the published cipher", n, pat));
                    }
                    let mut d = e.clone();
                    crypto::decrypt_block(&mut d, key);
                    if d != plain {
                        return Err(format!("decrypt_block does not invert encrypt_block ({} words, pattern {})", n, pat));
                    }
                    let mut d = plain.clone();
                    let mut rd = plain.clone();
                    crypto::decrypt_block(&mut d, key);
                    if key != 0 {
                        r::decrypt_words(&mut rd, key);
                    }
                    if d != rd {
                        return Err(format!("decrypt_block({} words, pattern {}) differs from the published cipher", n, pat));
                    }
                    if n == 1 {
                        if crypto::decrypt_dword(plain[0], key) != d[0] {
                            return Err(format!("decrypt_dword differs from decrypt_block of one word, value {:#x}", plain[0]));
                        }
                    }
                }
            }
            ctx.distinct(&("k", key));
            Ok(())
        });
    });
    ctx.add("cipher_blocks_compared", (keys.len() * lens.len() * 3) as u64);
    // long blocks: lengths around every power of two
    let mut long = vec![];
    for sh in 8..=if ctx.thorough { 23 } else { 20 } {
        for d in [-1i64, 0, 1, 17] {
            long.push(((1i64 << sh) + d) as usize);
        }
    }
    ctx.par(&long, |&n| {
        ctx.case(&format!("long/{}", n), || {
            for key in [1u32, 0xC3AF3770, 0xFFFF_FFFF] {
                let plain: Vec<u32> = (0..n).map(|i| hash64(&(i as u64, key)) as u32).collect();
                let mut e = plain.clone();
                crypto::encrypt_block(&mut e, key);
                let mut re = plain.clone();
                r::encrypt_words(&mut re, key);
                if e != re {
                    return Err(format!("encrypt_block({} words, key {:08x}) differs from the published cipher", n, key));
                }
                crypto::decrypt_block(&mut e, key);
                if e != plain {
                    return Err(format!("decrypt_block({} words, key {:08x}) does not invert encrypt_block", n, key));
                }
                if key == 1 {
                    let bytes = noise(n as u64, 4 * n - 1);
                    let (mut x, mut y) = (bytes.clone(), bytes);
                    mopaq::ArchiveBuilder::new().encrypt_data(&mut x, key);
                    r::encrypt_bytes(&mut y, key);
                    if x != y {
                        return Err(format!("encrypt_data({} bytes) differs from the reference", x.len()));
                    }
                }
            }
            ctx.distinct(&("long", n));
            Ok(())
        });
    });
    // 2b. byte-level encryption through the builder's public entry point, every length
    let b = mopaq::ArchiveBuilder::new();
    for key in [1u32, 0xC3AF3770, 0xFFFFFFFF, 0xFFFFFFF0, 0x12345678, 0] {
        for n in 0..=if ctx.thorough { 600 } else { 140 } {
            ctx.case(&format!("bytes/key={:08x}/n={}", key, n), || {
                let plain = noise(n as u64, n);
                let mut e = plain.clone();
                b.encrypt_data(&mut e, key);
                let mut re = plain.clone();
                r::encrypt_bytes(&mut re, key);
                if e != re {
                    return Err("encrypt_data differs from the reference".into());
                }
                r::decrypt_bytes(&mut re, key);
                if re != plain {
                    return Err("reference self-check".into());
                }
                ctx.distinct(&("b", key, n));
                Ok(())
            });
        }
    }
    // 3. hashes
    let alpha: Vec<&str> = vec!["a", "Z", "\\", "/", "0", "[", "{", "\u{e9}", "@"];
    let maxlen = if ctx.thorough { 5 } else { 4 };
    let mut names: Vec<String> = vec![String::new()];
    let mut cur = vec![String::new()];
    for _ in 0..maxlen {
        let mut nx = vec![];
        for c in &cur {
            for a in &alpha {
                nx.push(format!("{}{}", c, a));
            }
        }
        names.extend(nx.iter().cloned());
        cur = nx;
    }
    // every single character, including all bytes that occur in UTF-8
    for c in 0..0x250u32 {
        if let Some(ch) = char::from_u32(c) {
            names.push(format!("x{}y", ch));
        }
    }
    for c in ["\u{ffff}", "\u{10ffff}", "\u{4e2d}\u{6587}"] {
        names.push(c.into());
    }
    for n in ["(listfile)", "(hash table)", "(block table)", "(attributes)", "(signature)", "arr\\units.dat", "unit\\neutral\\acritter.grp"] {
        names.push(n.into());
    }
    for l in [100usize, 255, 256, 1000, 5000] {
        names.push("Dir/".repeat(l / 4));
    }
    // every length up to 1100, and around the powers of two beyond
    for l in (5..1100usize).chain((11..=17).flat_map(|s| [(1usize << s) - 1, 1 << s, (1 << s) + 1])) {
        names.push((0..l).map(|i| b"aBc/dE1_\\.xY"[i * 7 % 11 ^ (i / 50) % 2] as char).collect());
    }
    let chunks: Vec<&[String]> = names.chunks(512).collect();
    ctx.par(&chunks, |ch| {
        for n in ch.iter() {
            ctx.case(&format!("hash/{:?}", n), || {
                for ty in 0..=4 {
                    let (g, w) = (crypto::hash_string(n, ty), r::hash(n.as_bytes(), ty));
                    if g != w {
                        return Err(format!("hash_string(type {}) = {:#010x}, published algorithm gives {:#010x}", ty, g, w));
                    }
                }
                let variants = [n.to_ascii_uppercase(), n.to_ascii_lowercase(), n.replace('/', "\\"), n.replace('\\', "/")];
                for v in &variants {
                    for ty in 0..=4 {
                        if crypto::hash_string(v, ty) != crypto::hash_string(n, ty) {
                            return Err(format!("spelling {:?} hashes differently (type {})", v, ty));
                        }
                    }
                    if crypto::jenkins_hash(v) != crypto::jenkins_hash(n) {
                        return Err(format!("spelling {:?} has a different 64-bit hash", v));
                    }
                }
                if crypto::jenkins_hash(n) != jenkins(n.as_bytes()) {
                    return Err("jenkins_hash differs from one-at-a-time hash of the lowercase name".into());
                }
                ctx.distinct(&("h", n.as_str()));
                Ok(())
            });
        }
    });
    ctx.sample("cipher", || "key 0xC3AF3770, 20 words of pattern 2: encrypt, compare, decrypt, compare".into());
    ctx.sample("hash", || format!("{:?} x types 0..4 x 4 spellings", names[names.len() / 2]));
    ctx.assume("block lengths and keys outside the listed ranges are covered only by the cipher's word-at-a-time structure");
}

pub fn jenkins(n: &[u8]) -> u64 {
    let mut h = 0u64;
    for &b in n {
        let c = if b == b'/' { b'\\' } else { b.to_ascii_lowercase() };
        h = h.wrapping_add(c as u64);
        h = h.wrapping_add(h << 10);
        h ^= h >> 6;
    }
    h = h.wrapping_add(h << 3);
    h ^= h >> 11;
    h.wrapping_add(h << 15)
}
