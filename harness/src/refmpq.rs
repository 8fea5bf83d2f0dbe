//! Independent reference model of the MPQ format (as documented in /repo/docs/mopaq-format.md
//! plus the two on-disk conventions of this implementation that the document leaves open:
//! trailing bytes of an encrypted unit, and the placement of sector checksums).
//! Nothing here calls into the code under test.

use std::collections::BTreeMap;
use std::io::{Read, Write};

pub const IMPLODE: u32 = 0x100;
pub const COMPRESS: u32 = 0x200;
pub const ENCRYPTED: u32 = 0x10000;
pub const FIX_KEY: u32 = 0x20000;
pub const SINGLE: u32 = 0x0100_0000;
pub const CRC: u32 = 0x0400_0000;
pub const EXISTS: u32 = 0x8000_0000;

pub fn crypt_table() -> &'static [u32; 0x500] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 0x500]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed: u32 = 0x0010_0001;
        for i in 0..0x100usize {
            for j in 0..5usize {
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let a = (seed & 0xFFFF) << 16;
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let b = seed & 0xFFFF;
                t[i + j * 0x100] = a | b;
            }
        }
        t
    })
}

pub fn norm_upper(b: u8) -> u8 {
    match b {
        b'/' => b'\\',
        b'a'..=b'z' => b - 32,
        x => x,
    }
}

pub fn hash(name: &[u8], ty: u32) -> u32 {
    let t = crypt_table();
    let (mut s1, mut s2) = (0x7FED7FEDu32, 0xEEEEEEEEu32);
    for &b in name {
        let c = norm_upper(b) as u32;
        s1 = t[(ty * 0x100 + c) as usize] ^ s1.wrapping_add(s2);
        s2 = c
            .wrapping_add(s1)
            .wrapping_add(s2)
            .wrapping_add(s2 << 5)
            .wrapping_add(3);
    }
    s1
}

pub fn encrypt_words(d: &mut [u32], mut key: u32) {
    if key == 0 {
        return; // key 0 means "not encrypted" in this implementation
    }
    let t = crypt_table();
    let mut seed: u32 = 0xEEEEEEEE;
    for w in d.iter_mut() {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        let plain = *w;
        *w = plain ^ key.wrapping_add(seed);
        key = ((!key << 0x15).wrapping_add(0x11111111)) | (key >> 0x0B);
        seed = plain.wrapping_add(seed).wrapping_add(seed << 5).wrapping_add(3);
    }
}

pub fn decrypt_words(d: &mut [u32], mut key: u32) {
    if key == 0 {
        return; // key 0 means "not encrypted" in this implementation
    }
    let t = crypt_table();
    let mut seed: u32 = 0xEEEEEEEE;
    for w in d.iter_mut() {
        seed = seed.wrapping_add(t[0x400 + (key & 0xFF) as usize]);
        let plain = *w ^ key.wrapping_add(seed);
        *w = plain;
        key = ((!key << 0x15).wrapping_add(0x11111111)) | (key >> 0x0B);
        seed = plain.wrapping_add(seed).wrapping_add(seed << 5).wrapping_add(3);
    }
}

fn crypt_bytes(d: &mut [u8], key: u32, f: fn(&mut [u32], u32)) {
    // A zero key means "not encrypted" in this implementation.
    if key == 0 {
        return;
    }
    let n = d.len() / 4;
    let mut w: Vec<u32> = (0..n)
        .map(|i| u32::from_le_bytes(d[i * 4..i * 4 + 4].try_into().unwrap()))
        .collect();
    f(&mut w, key);
    for (i, x) in w.iter().enumerate() {
        d[i * 4..i * 4 + 4].copy_from_slice(&x.to_le_bytes());
    }
    // Trailing 1..3 bytes: one more word, keyed with key + word count.
    let r = d.len() % 4;
    if r != 0 {
        let mut last = [0u8; 4];
        last[..r].copy_from_slice(&d[n * 4..]);
        let mut x = [u32::from_le_bytes(last)];
        f(&mut x, key.wrapping_add(n as u32));
        d[n * 4..].copy_from_slice(&x[0].to_le_bytes()[..r]);
    }
}
pub fn encrypt_bytes(d: &mut [u8], key: u32) {
    crypt_bytes(d, key, encrypt_words)
}
pub fn decrypt_bytes(d: &mut [u8], key: u32) {
    crypt_bytes(d, key, decrypt_words)
}

pub fn file_key(name: &str, pos: u64, size: u32, flags: u32) -> u32 {
    let k = hash(name.as_bytes(), 3);
    if flags & FIX_KEY != 0 {
        k.wrapping_add(pos as u32) ^ size
    } else {
        k
    }
}

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in d {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16) | a
}

pub fn md5(d: &[u8]) -> [u8; 16] {
    use md5::{Digest, Md5};
    Md5::digest(d).into()
}

// ---------------------------------------------------------------- codecs

const LITLEN: [u8; 98] = [
    11, 124, 8, 7, 28, 7, 188, 13, 76, 4, 10, 8, 12, 10, 12, 10, 8, 23, 8, 9, 7, 6, 7, 8, 7, 6,
    55, 8, 23, 24, 12, 11, 7, 9, 11, 12, 6, 7, 22, 5, 7, 24, 6, 11, 9, 6, 7, 22, 7, 11, 38, 7,
    9, 8, 25, 11, 8, 11, 9, 12, 8, 12, 5, 38, 5, 38, 5, 11, 7, 5, 6, 21, 6, 10, 53, 8, 7, 24,
    10, 27, 44, 253, 253, 253, 252, 252, 252, 13, 12, 45, 12, 45, 12, 61, 12, 45, 44, 173,
];
const LENLEN: [u8; 6] = [2, 35, 36, 53, 38, 23];
const DISTLEN: [u8; 7] = [2, 20, 53, 230, 247, 151, 248];
const BASE: [u32; 16] = [3, 2, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 40, 72, 136, 264];
const EXTRA: [u32; 16] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8];
struct Huff {
    count: [u16; 16],
    symbol: Vec<u16>,
}
fn construct(rep: &[u8]) -> Huff {
    let mut length = vec![];
    for &r in rep {
        let n = (r >> 4) + 1;
        for _ in 0..n {
            length.push(r & 15);
        }
    }
    let mut count = [0u16; 16];
    for &l in &length {
        count[l as usize] += 1;
    }
    let mut offs = [0u16; 16];
    for l in 1..15 {
        offs[l + 1] = offs[l] + count[l];
    }
    let mut symbol = vec![0u16; length.len()];
    for (s, &l) in length.iter().enumerate() {
        if l != 0 {
            symbol[offs[l as usize] as usize] = s as u16;
            offs[l as usize] += 1;
        }
    }
    Huff { count, symbol }
}
/// PKWARE DCL "explode" (after Mark Adler's blast.c description of the format).
pub fn explode(input: &[u8], max: usize) -> Result<Vec<u8>, String> {
    struct Bits<'a> {
        d: &'a [u8],
        p: usize,
        buf: u32,
        cnt: u32,
    }
    impl Bits<'_> {
        fn bits(&mut self, n: u32) -> Result<u32, String> {
            while self.cnt < n {
                if self.p >= self.d.len() {
                    return Err("explode: out of input".into());
                }
                self.buf |= (self.d[self.p] as u32) << self.cnt;
                self.p += 1;
                self.cnt += 8;
            }
            let v = self.buf & ((1u32 << n) - 1);
            self.buf >>= n;
            self.cnt -= n;
            Ok(v)
        }
    }
    fn decode(b: &mut Bits, h: &Huff) -> Result<u32, String> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..=13 {
            code |= (b.bits(1)? ^ 1) as i32;
            let count = h.count[len] as i32;
            if code < first + count {
                return Ok(h.symbol[(index + (code - first)) as usize] as u32);
            }
            index += count;
            first = (first + count) << 1;
            code <<= 1;
        }
        Err("explode: bad code".into())
    }
    let litcode = construct(&LITLEN);
    let lencode = construct(&LENLEN);
    let distcode = construct(&DISTLEN);
    let mut b = Bits { d: input, p: 0, buf: 0, cnt: 0 };
    let lit = b.bits(8)?;
    if lit > 1 {
        return Err("explode: bad literal flag".into());
    }
    let dict = b.bits(8)?;
    if !(4..=6).contains(&dict) {
        return Err("explode: bad dictionary".into());
    }
    let mut out: Vec<u8> = vec![];
    loop {
        if out.len() > max {
            return Err("explode: output too long".into());
        }
        if b.bits(1)? == 1 {
            let s = decode(&mut b, &lencode)? as usize;
            let len = BASE[s] + b.bits(EXTRA[s])?;
            if len == 519 {
                break;
            }
            let sh = if len == 2 { 2 } else { dict };
            let dist = (decode(&mut b, &distcode)? << sh) + b.bits(sh)? + 1;
            if dist as usize > out.len() {
                return Err("explode: distance too far".into());
            }
            for _ in 0..len {
                let c = out[out.len() - dist as usize];
                out.push(c);
            }
        } else {
            let c = if lit == 1 { decode(&mut b, &litcode)? } else { b.bits(8)? };
            out.push(c as u8);
        }
    }
    Ok(out)
}

/// Minimal PKWARE DCL encoder: binary or ASCII literals, no matches or run matches.
pub fn implode_literals(data: &[u8], dict: u8) -> Vec<u8> {
    struct W {
        out: Vec<u8>,
        acc: u64,
        n: u32,
    }
    impl W {
        fn put(&mut self, v: u32, bits: u32) {
            self.acc |= (v as u64) << self.n;
            self.n += bits;
            while self.n >= 8 {
                self.out.push(self.acc as u8);
                self.acc >>= 8;
                self.n -= 8;
            }
        }
    }
    let mut w = W { out: vec![], acc: 0, n: 0 };
    w.put(0, 8);
    w.put(dict as u32, 8);
    for &b in data {
        w.put(0, 1);
        w.put(b as u32, 8);
    }
    // end code: length 519 = symbol 15 (7 bits, code 0000000 sent inverted order), extra 0xFF
    w.put(1, 1);
    w.put(0, 7); // symbol 15 has the all-zero 7-bit code as stored
    w.put(0xFF, 8);
    w.put(0, 7);
    w.out
}

/// (code as sent, LSB first; length) per symbol.
fn codes(rep: &[u8]) -> Vec<(u32, u32)> {
    let h = construct(rep);
    let n = h.symbol.len();
    let mut out = vec![(0, 0); n];
    let (mut first, mut index) = (0u32, 0usize);
    for len in 1..=13u32 {
        let count = h.count[len as usize] as usize;
        for k in 0..count {
            let code = first + k as u32;
            // bits are sent most significant first and inverted
            let mut v = 0;
            for i in 0..len {
                v |= (((code >> (len - 1 - i)) & 1) ^ 1) << i;
            }
            out[h.symbol[index + k] as usize] = (v, len);
        }
        index += count;
        first = (first + count as u32) << 1;
    }
    out
}

/// PKWARE DCL encoder: greedy matching, binary or ASCII literals, dictionary bits 4..=6.
pub fn implode(data: &[u8], ascii: bool, dict: u32) -> Vec<u8> {
    let lit = codes(&LITLEN);
    let len_c = codes(&LENLEN);
    let dist_c = codes(&DISTLEN);
    let mut out = vec![ascii as u8, dict as u8];
    let (mut acc, mut nb) = (0u64, 0u32);
    let mut put = |v: u32, n: u32, out: &mut Vec<u8>| {
        acc |= (v as u64) << nb;
        nb += n;
        while nb >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            nb -= 8;
        }
    };
    let length = |l: u32| -> (usize, u32, u32) {
        let s = (0..16).rev().filter(|s| *s != 0 || l == 3).find(|&s| if s == 0 { l == 3 } else { BASE[s] <= l && l < BASE[s] + (1 << EXTRA[s]) }).unwrap();
        (s, l - BASE[s], EXTRA[s])
    };
    let window = 64usize << dict;
    let mut p = 0;
    while p < data.len() {
        let (mut best, mut dist) = (0usize, 0usize);
        for d in 1..=p.min(window) {
            let mut l = 0;
            while l < 518 && p + l < data.len() && data[p + l - d] == data[p + l] {
                l += 1;
            }
            if l > best {
                best = l;
                dist = d;
            }
            if l == 518 || p + l == data.len() {
                break;
            }
        }
        if best >= 3 || (best == 2 && dist <= 256) {
            put(1, 1, &mut out);
            let (s, x, xn) = length(best as u32);
            put(len_c[s].0, len_c[s].1, &mut out);
            put(x, xn, &mut out);
            let sh = if best == 2 { 2 } else { dict };
            let d = dist as u32 - 1;
            let c = dist_c[(d >> sh) as usize];
            put(c.0, c.1, &mut out);
            put(d & ((1 << sh) - 1), sh, &mut out);
            p += best;
        } else {
            put(0, 1, &mut out);
            if ascii {
                let c = lit[data[p] as usize];
                put(c.0, c.1, &mut out);
            } else {
                put(data[p] as u32, 8, &mut out);
            }
            p += 1;
        }
    }
    put(1, 1, &mut out);
    let (s, x, xn) = length(519);
    put(len_c[s].0, len_c[s].1, &mut out);
    put(x, xn, &mut out);
    put(0, 7, &mut out);
    out
}

pub fn ref_compress(data: &[u8], method: u8) -> Vec<u8> {
    let mut out = vec![method];
    match method {
        0x02 => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(9));
            e.write_all(data).unwrap();
            out.extend(e.finish().unwrap());
        }
        0x10 => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(9));
            e.write_all(data).unwrap();
            out.extend(e.finish().unwrap());
        }
        0x12 => {
            let mut o = vec![];
            lzma_rs::lzma_compress(&mut std::io::Cursor::new(data), &mut o).unwrap();
            out.extend(o);
        }
        0x08 => out.extend(implode(data, false, 6)),
        0x20 => out.extend(sparse_compress(data)),
        _ => panic!("ref_compress: method {:#x}", method),
    }
    out
}

pub fn sparse_compress(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < d.len() {
        let z = d[i] == 0;
        let mut j = i;
        while j < d.len() && (d[j] == 0) == z && j - i < 0x7E {
            j += 1;
        }
        if z {
            o.push(0x80 | (j - i) as u8);
        } else {
            o.push((j - i) as u8);
            o.extend_from_slice(&d[i..j]);
        }
        i = j;
    }
    o.push(0xFF);
    o
}

pub fn sparse_decompress(d: &[u8], size: usize) -> Result<Vec<u8>, String> {
    let o = sparse_any(d)?;
    if o.len() != size {
        return Err(format!("sparse: got {} want {}", o.len(), size));
    }
    Ok(o)
}

pub fn sparse_any(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut i = 0;
    loop {
        if i >= d.len() {
            return Err("sparse: missing end marker".into());
        }
        let c = d[i];
        i += 1;
        if c == 0xFF {
            break;
        }
        let n = (c & 0x7F) as usize;
        if c & 0x80 != 0 {
            o.resize(o.len() + n, 0);
        } else {
            if i + n > d.len() {
                return Err("sparse: short".into());
            }
            o.extend_from_slice(&d[i..i + n]);
            i += n;
        }
    }
    Ok(o)
}

/// Strict: the stream must decode to exactly `size` bytes.
pub fn ref_decompress(d: &[u8], size: usize) -> Result<Vec<u8>, String> {
    if d.is_empty() {
        return Err("empty compressed unit".into());
    }
    let (m, body) = (d[0], &d[1..]);
    let out = match m {
        0x02 => {
            let mut o = vec![];
            flate2::read::ZlibDecoder::new(body).read_to_end(&mut o).map_err(|e| e.to_string())?;
            o
        }
        0x10 => {
            let mut o = vec![];
            bzip2::read::BzDecoder::new(body).read_to_end(&mut o).map_err(|e| e.to_string())?;
            o
        }
        0x12 => {
            let mut o = vec![];
            lzma_rs::lzma_decompress(&mut std::io::Cursor::new(body), &mut o).map_err(|e| format!("{:?}", e))?;
            o
        }
        0x08 => explode(body, size + 600)?,
        0x20 => sparse_decompress(body, size)?,
        0x40 => adpcm_decode(body, size, 1)?,
        0x80 | 0xC0 => adpcm_decode(body, size, 2)?,
        x if x & 0xC0 != 0 && (x & 0x3F).count_ones() == 1 => {
            let mid = match x & 0x3F {
                0x02 => {
                    let mut o = vec![];
                    flate2::read::ZlibDecoder::new(body).read_to_end(&mut o).map_err(|e| e.to_string())?;
                    o
                }
                0x10 => {
                    let mut o = vec![];
                    bzip2::read::BzDecoder::new(body).read_to_end(&mut o).map_err(|e| e.to_string())?;
                    o
                }
                0x08 => explode(body, size * 16 + 600)?,
                0x20 => sparse_any(body)?,
                y => return Err(format!("unknown stage {:#x}", y)),
            };
            adpcm_decode(&mid, size, if x & 0x80 != 0 { 2 } else { 1 })?
        }
        x => return Err(format!("unknown method {:#x}", x)),
    };
    if out.len() != size {
        return Err(format!("decoded {} bytes, expected {}", out.len(), size));
    }
    Ok(out)
}

pub const STEP: [i32; 89] = [
    7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73,
    80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494,
    544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499,
    2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487,
    12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767,
];
pub const NEXT: [i32; 32] = [
    -1, 0, -1, 4, -1, 2, -1, 6, -1, 1, -1, 5, -1, 3, -1, 7, -1, 1, -1, 5, -1, 3, -1, 7, -1, 2, -1, 4,
    -1, 6, -1, 8,
];

/// StormLib's ADPCM decoder.
pub fn adpcm_decode(d: &[u8], size: usize, ch: usize) -> Result<Vec<u8>, String> {
    Ok(adpcm_decode_steps(d, size, ch)?.0)
}
/// Also returns the quantiser step in force for each sample (0 for the verbatim first samples).
pub fn adpcm_decode_steps(d: &[u8], size: usize, ch: usize) -> Result<(Vec<u8>, Vec<i32>), String> {
    let mut steps = vec![0i32; ch];
    if d.len() < 2 + 2 * ch {
        return Err("adpcm: short".into());
    }
    let shift = d[1];
    let mut pred = [0i32; 2];
    let mut idx = [0x2Ci32; 2];
    let mut out = vec![];
    let mut p = 2;
    for c in 0..ch {
        pred[c] = i16::from_le_bytes([d[p], d[p + 1]]) as i32;
        out.extend_from_slice(&(pred[c] as i16).to_le_bytes());
        p += 2;
    }
    let mut c = ch - 1;
    while p < d.len() && out.len() < size {
        let e = d[p];
        p += 1;
        c = (c + 1) % ch;
        match e {
            0x80 => {
                steps.push(STEP[idx[c] as usize]);
                if idx[c] != 0 {
                    idx[c] -= 1;
                }
                out.extend_from_slice(&(pred[c] as i16).to_le_bytes());
            }
            0x81 => {
                idx[c] = (idx[c] + 8).min(0x58);
                c = (c + ch - 1) % ch;
            }
            _ => {
                let s = STEP[idx[c] as usize];
                steps.push(s);
                let mut diff = if shift < 32 { s >> shift } else { 0 };
                for b in 0..6 {
                    if e & (1 << b) != 0 {
                        diff += s >> b;
                    }
                }
                pred[c] = if e & 0x40 != 0 {
                    (pred[c] - diff).max(-32768)
                } else {
                    (pred[c] + diff).min(32767)
                };
                out.extend_from_slice(&(pred[c] as i16).to_le_bytes());
                idx[c] = (idx[c] + NEXT[(e & 0x1F) as usize]).clamp(0, 88);
            }
        }
    }
    Ok((out, steps))
}

// ---------------------------------------------------------------- reader

pub fn r16(d: &[u8], o: usize) -> Result<u16, String> {
    d.get(o..o + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap())).ok_or_else(|| format!("short read at {}", o))
}
pub fn r32(d: &[u8], o: usize) -> Result<u32, String> {
    d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or_else(|| format!("short read at {}", o))
}
pub fn r64(d: &[u8], o: usize) -> Result<u64, String> {
    d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or_else(|| format!("short read at {}", o))
}

#[derive(Clone, Debug)]
pub struct HashE {
    pub a: u32,
    pub b: u32,
    pub locale: u16,
    pub platform: u16,
    pub block: u32,
}
#[derive(Clone, Debug)]
pub struct BlockE {
    pub pos: u64,
    pub csize: u32,
    pub fsize: u32,
    pub flags: u32,
}

pub struct RefArchive<'a> {
    pub d: &'a [u8],
    pub base: usize,
    pub header_size: u32,
    pub archive_size: u32,
    pub archive_size64: u64,
    pub version: u16,
    pub shift: u16,
    pub hash_pos: u64,
    pub block_pos: u64,
    pub hi_pos: u64,
    pub het_pos: u64,
    pub bet_pos: u64,
    pub sizes64: [u64; 5],
    pub hash_count: u32,
    pub block_count: u32,
    pub hash: Vec<HashE>,
    pub block: Vec<BlockE>,
}

pub fn table_words(d: &[u8], key: u32) -> Vec<u32> {
    let mut w: Vec<u32> = d.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    decrypt_words(&mut w, key);
    w
}

impl<'a> RefArchive<'a> {
    /// Strict parser: any inconsistency is an error.
    pub fn parse(d: &'a [u8]) -> Result<RefArchive<'a>, String> {
        let mut base = None;
        let mut o = 0;
        while o + 4 <= d.len() {
            let s = r32(d, o)?;
            if s == 0x1A51504D {
                base = Some(o);
                break;
            }
            if s == 0x1B51504D {
                let n = o + r32(d, o + 8)? as usize;
                if n + 4 <= d.len() && r32(d, n)? == 0x1A51504D {
                    base = Some(n);
                    break;
                }
            }
            o += 512;
        }
        let base = base.ok_or("no header")?;
        let h = &d[base..];
        let header_size = r32(h, 4)?;
        let version = r16(h, 12)?;
        let expect = [32u32, 44, 68, 208];
        if version > 3 || header_size != expect[version as usize] {
            return Err(format!("header size {} for version {}", header_size, version));
        }
        let mut a = RefArchive {
            d,
            base,
            header_size,
            archive_size: r32(h, 8)?,
            archive_size64: r32(h, 8)? as u64,
            version,
            shift: r16(h, 14)?,
            hash_pos: r32(h, 16)? as u64,
            block_pos: r32(h, 20)? as u64,
            hi_pos: 0,
            het_pos: 0,
            bet_pos: 0,
            sizes64: [0; 5],
            hash_count: r32(h, 24)?,
            block_count: r32(h, 28)?,
            hash: vec![],
            block: vec![],
        };
        if version >= 1 {
            a.hi_pos = r64(h, 32)?;
            a.hash_pos |= (r16(h, 40)? as u64) << 32;
            a.block_pos |= (r16(h, 42)? as u64) << 32;
        }
        if version >= 2 {
            a.archive_size64 = r64(h, 44)?;
            a.bet_pos = r64(h, 52)?;
            a.het_pos = r64(h, 60)?;
        }
        if version >= 3 {
            for i in 0..5 {
                a.sizes64[i] = r64(h, 68 + 8 * i)?;
            }
        }
        if !a.hash_count.is_power_of_two() {
            return Err("hash table size not a power of two".into());
        }
        let tab = |pos: u64, n: u32, name: &str| -> Result<Vec<u32>, String> {
            let p = base + pos as usize;
            let raw = d.get(p..p + n as usize * 16).ok_or_else(|| format!("{} outside file", name))?;
            Ok(table_words(raw, hash(name.as_bytes(), 3)))
        };
        let w = tab(a.hash_pos, a.hash_count, "(hash table)")?;
        for e in w.chunks(4) {
            a.hash.push(HashE {
                a: e[0],
                b: e[1],
                locale: e[2] as u16,
                platform: (e[2] >> 16) as u16,
                block: e[3],
            });
        }
        let w = tab(a.block_pos, a.block_count, "(block table)")?;
        for (i, e) in w.chunks(4).enumerate() {
            let hi = if a.hi_pos != 0 { r16(d, base + a.hi_pos as usize + 2 * i)? as u64 } else { 0 };
            a.block.push(BlockE { pos: e[0] as u64 | hi << 32, csize: e[1], fsize: e[2], flags: e[3] });
        }
        for e in &a.hash {
            if e.block < 0xFFFFFFFE && e.block >= a.block_count {
                return Err("hash entry refers to a block outside the table".into());
            }
        }
        Ok(a)
    }
    pub fn sector(&self) -> usize {
        512usize << self.shift
    }
    pub fn lookup(&self, name: &str, locale: u16) -> Option<&HashE> {
        let (a, b) = (hash(name.as_bytes(), 1), hash(name.as_bytes(), 2));
        let n = self.hash.len();
        let start = hash(name.as_bytes(), 0) as usize & (n - 1);
        for k in 0..n {
            let e = &self.hash[(start + k) & (n - 1)];
            if e.block == 0xFFFFFFFF {
                return None;
            }
            if e.block != 0xFFFFFFFE && e.a == a && e.b == b && e.locale == locale {
                return Some(e);
            }
        }
        None
    }
    /// (stored length of the unit in the archive including tables, contents)
    pub fn extract(&self, name: &str, e: &BlockE) -> Result<(usize, Vec<u8>), String> {
        if e.flags & EXISTS == 0 {
            return Err("block does not exist".into());
        }
        let p = self.base + e.pos as usize;
        let key = if e.flags & ENCRYPTED != 0 { file_key(name, e.pos, e.fsize, e.flags) } else { 0 };
        let fs = e.fsize as usize;
        if e.flags & SINGLE != 0 {
            let mut u = self.d.get(p..p + e.csize as usize).ok_or("unit outside file")?.to_vec();
            decrypt_bytes(&mut u, key);
            let out = if e.flags & COMPRESS != 0 && u.len() != fs {
                if u.len() > fs {
                    return Err(format!("compressed unit of {} bytes is not shorter than the {} byte file", u.len(), fs));
                }
                ref_decompress(&u, fs)?
            } else {
                if u.len() != fs {
                    return Err("stored unit length differs from file size".into());
                }
                u
            };
            let mut total = e.csize as usize;
            if e.flags & CRC != 0 {
                let c = r32(self.d, p + total)?;
                if c != adler32(&out) {
                    return Err("checksum differs".into());
                }
                total += 4;
            }
            return Ok((total, out));
        }
        let ss = self.sector();
        let n = fs.div_ceil(ss);
        if e.flags & COMPRESS == 0 {
            let mut out = self.d.get(p..p + fs).ok_or("data outside file")?.to_vec();
            if e.csize as usize != fs {
                return Err("uncompressed sectored file: stored size differs from file size".into());
            }
            for i in 0..n {
                let hi = ((i + 1) * ss).min(fs);
                decrypt_bytes(&mut out[i * ss..hi], if key == 0 { 0 } else { key.wrapping_add(i as u32) });
            }
            return Ok((fs, out));
        }
        let mut t = self.d.get(p..p + 4 * (n + 1)).ok_or("offset table outside file")?.to_vec();
        if e.flags & ENCRYPTED != 0 {
            let mut w: Vec<u32> = t.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            decrypt_words(&mut w, key.wrapping_sub(1));
            t = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        }
        let offs: Vec<usize> = t.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as usize).collect();
        let crc_len = if e.flags & CRC != 0 { 4 * n } else { 0 };
        if offs[0] != 4 * (n + 1) + crc_len {
            return Err(format!("first sector offset {} but tables take {}", offs[0], 4 * (n + 1) + crc_len));
        }
        if offs[n] != e.csize as usize + crc_len {
            return Err(format!("last sector offset {} but stored size {} (+{})", offs[n], e.csize, crc_len));
        }
        let mut out = vec![];
        for i in 0..n {
            if offs[i + 1] < offs[i] {
                return Err("sector offsets decrease".into());
            }
            let want = (fs - i * ss).min(ss);
            let mut s = self.d.get(p + offs[i]..p + offs[i + 1]).ok_or("sector outside file")?.to_vec();
            if e.flags & ENCRYPTED != 0 {
                decrypt_bytes(&mut s, key.wrapping_add(i as u32));
            }
            let plain = if s.len() < want {
                ref_decompress(&s, want)?
            } else if s.len() == want {
                s
            } else {
                return Err("sector longer than its contents".into());
            };
            if crc_len != 0 && r32(self.d, p + 4 * (n + 1) + 4 * i)? != adler32(&plain) {
                return Err(format!("checksum of sector {} differs", i));
            }
            out.extend(plain);
        }
        Ok((offs[n], out))
    }
}

// ---------------------------------------------------------------- writer

#[derive(Clone, Debug)]
pub struct RefFile {
    pub name: String,
    pub data: Vec<u8>,
    pub locale: u16,
    pub single: bool,
    pub method: u8, // 0 = stored
    pub encrypt: bool,
    pub fix_key: bool,
    pub crc: bool,
    /// bare PKWARE streams announced by the IMPLODE flag (instead of method bytes)
    pub implode: bool,
    /// the flag says compressed although a single unit did not get smaller or the file is empty, and is stored as it is
    pub keep: bool,
    /// the method of each sector in turn (0 = stored) instead of one for all
    pub methods: Vec<u8>,
    /// unused bytes between the sector tables and the first sector
    pub pad: usize,
}

impl RefFile {
    pub fn new(name: &str, data: Vec<u8>) -> RefFile {
        RefFile { name: name.into(), data, locale: 0, single: false, method: 0, encrypt: false, fix_key: false, crc: false, implode: false, keep: false, methods: vec![], pad: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct RefWriter {
    pub version: u16,
    pub shift: u16,
    pub hash_size: usize,
    pub files: Vec<RefFile>,
    pub prefix: Vec<u8>,
    /// Some(n): a user data header at the end of `prefix`, the archive n bytes after it
    pub user_data: Option<u32>,
    pub tables_first: bool,
    pub block_before_hash: bool,
    pub hi_block: bool,
    pub gap: usize,
    pub deleted_slots: Vec<usize>,
    pub extra_dead_blocks: usize,
    /// explicit hash table: -1 never used, -2 deleted and wiped, -10-k deleted but with the
    /// hashes of file k left in place, k = file k
    pub layout: Option<Vec<i32>>,
    /// deleted files that keep their hash table entry: only the flag is reset (1), or the whole block entry (2)
    pub gone: Vec<(usize, u8)>,
    /// HET and BET tables (version 3 and 4) in front of the other tables
    pub ext: Option<Ext>,
}

/// How another writer lays out its BET table. Fields: position, size, stored size, flag index.
#[derive(Clone, Debug)]
pub struct Ext {
    pub order: [usize; 4],
    pub wider: [u32; 4],
    /// bits of the unknown field, which comes first or last
    pub unknown: (u32, bool),
    /// list of flags reversed, with an unused one among them
    pub odd_flags: bool,
    pub codec: u8,
}

impl Ext {
    fn pack(&self, body: Vec<u8>, sig: u32, key: &str) -> Vec<u8> {
        let mut out = vec![];
        for x in [sig, 1, body.len() as u32] {
            out.extend(x.to_le_bytes());
        }
        let mut b = if self.codec == 0 { body.clone() } else { ref_compress(&body, self.codec) };
        if b.len() >= body.len() {
            b = body;
        }
        encrypt_bytes(&mut b, hash(key.as_bytes(), 3));
        out.extend(b);
        out
    }
    pub fn bet(&self, blocks: &[[u32; 4]], hashes: &[u64]) -> Vec<u8> {
        let need = |k: usize| 32 - blocks.iter().map(|b| b[k]).max().unwrap_or(0).leading_zeros();
        let mut flags: Vec<u32> = vec![];
        for b in blocks {
            if !flags.contains(&b[3]) {
                flags.push(b[3]);
            }
        }
        if self.odd_flags {
            flags.insert(flags.len() / 2, 0x0123_4567);
            flags.reverse();
        }
        let fbits = 32 - (flags.len() as u32).leading_zeros();
        let width: Vec<u32> = [need(0), need(2), need(1), fbits].iter().zip(self.wider).map(|(a, b)| a + b).collect();
        let mut at = [0u32; 5];
        let mut p = if self.unknown.1 { self.unknown.0 } else { 0 };
        for &k in &self.order {
            at[k] = p;
            p += width[k];
        }
        if !self.unknown.1 {
            at[4] = p;
            p += self.unknown.0;
        }
        let mut table = vec![0u8; (p as usize * blocks.len()).div_ceil(8)];
        let mut put = |at: usize, n: u32, v: u64| {
            for i in 0..n as usize {
                if i < 64 && v >> i & 1 == 1 {
                    table[(at + i) / 8] |= 1 << ((at + i) % 8);
                }
            }
        };
        for (i, b) in blocks.iter().enumerate() {
            let fi = flags.iter().position(|f| *f == b[3]).unwrap() as u64;
            for (k, v) in [b[0] as u64, b[2] as u64, b[1] as u64, fi].into_iter().enumerate() {
                put(i * p as usize + at[k] as usize, width[k], v);
            }
            put(i * p as usize + at[4] as usize, self.unknown.0, u64::MAX);
        }
        let size = 76 + flags.len() * 4 + table.len() + hashes.len() * 8;
        let mut b = vec![];
        let head = [size as u32 + 12, blocks.len() as u32, 0x10, p, at[0], at[1], at[2], at[3], at[4], width[0], width[1], width[2], width[3], self.unknown.0, 64, 0, 64, hashes.len() as u32 * 8, flags.len() as u32];
        for x in head.iter().chain(&flags) {
            b.extend(x.to_le_bytes());
        }
        b.extend(table);
        b.extend(hashes.iter().flat_map(|h| h.to_le_bytes()));
        self.pack(b, 0x1A544542, "(block table)")
    }
    pub fn het(&self, files: usize, first: u64) -> Vec<u8> {
        // only the first file has an entry: the others are found in the hash table
        let (n, bits) = ((files * 2).next_power_of_two().max(64), 8);
        let mut b = vec![];
        for x in [32 + n as u32 * 2 + 12, files as u32, n as u32, 8, n as u32 * bits, 0, bits, n as u32] {
            b.extend(x.to_le_bytes());
        }
        b.extend(vec![0u8; n * 2]);
        b[32 + (first as usize & (n - 1))] = first as u8;
        self.pack(b, 0x1A544548, "(hash table)")
    }
}

impl RefWriter {
    pub fn new(version: u16, shift: u16) -> RefWriter {
        RefWriter {
            version,
            shift,
            hash_size: 16,
            files: vec![],
            prefix: vec![],
            user_data: None,
            tables_first: false,
            block_before_hash: false,
            hi_block: false,
            gap: 0,
            deleted_slots: vec![],
            extra_dead_blocks: 0,
            layout: None,
            gone: vec![],
            ext: None,
        }
    }

    pub fn encode_file(&self, f: &RefFile, pos: u64) -> (Vec<u8>, BlockE) {
        let ss = 512usize << self.shift;
        let mut flags = EXISTS;
        if f.encrypt {
            flags |= ENCRYPTED;
            if f.fix_key {
                flags |= FIX_KEY;
            }
        }
        let key = if f.encrypt { file_key(&f.name, pos, f.data.len() as u32, flags) } else { 0 };
        if f.single {
            flags |= SINGLE;
            let mut u = f.data.clone();
            if f.method != 0 {
                let c = if f.implode { implode(&f.data, true, 5) } else { ref_compress(&f.data, f.method) };
                let shorter = c.len() < f.data.len();
                if shorter || f.keep {
                    flags |= if f.implode { IMPLODE } else { COMPRESS };
                }
                if shorter {
                    u = c;
                }
            }
            encrypt_bytes(&mut u, key);
            let csize = u.len() as u32;
            if f.crc {
                flags |= CRC;
                u.extend(adler32(&f.data).to_le_bytes());
            }
            return (u, BlockE { pos, csize, fsize: f.data.len() as u32, flags });
        }
        let n = f.data.len().div_ceil(ss);
        if f.method == 0 {
            let mut u = f.data.clone();
            if f.encrypt {
                for i in 0..n {
                    let hi = ((i + 1) * ss).min(u.len());
                    encrypt_bytes(&mut u[i * ss..hi], key.wrapping_add(i as u32));
                }
            }
            let l = u.len() as u32;
            return (u, BlockE { pos, csize: l, fsize: l, flags });
        }
        flags |= if f.implode { IMPLODE } else { COMPRESS };
        let crc_len = if f.crc { 4 * n } else { 0 };
        if f.crc {
            flags |= CRC;
        }
        if n == 0 && f.keep {
            return (vec![], BlockE { pos, csize: 0, fsize: 0, flags });
        }
        let mut offs = vec![(4 * (n + 1) + crc_len + f.pad) as u32];
        let mut body = vec![0xEE; f.pad];
        let mut crcs = vec![];
        for i in 0..n {
            let raw = &f.data[i * ss..((i + 1) * ss).min(f.data.len())];
            crcs.extend(adler32(raw).to_le_bytes());
            let c = if f.implode {
                implode(raw, i % 2 == 0, 4 + i as u32 % 3)
            } else {
                match f.methods.get(i).unwrap_or(&f.method) {
                    0 => raw.to_vec(),
                    m => ref_compress(raw, *m),
                }
            };
            let mut s = if c.len() < raw.len() { c } else { raw.to_vec() };
            if f.encrypt {
                encrypt_bytes(&mut s, key.wrapping_add(i as u32));
            }
            body.extend(s);
            offs.push((4 * (n + 1) + crc_len + body.len()) as u32);
        }
        if f.encrypt {
            encrypt_words(&mut offs, key.wrapping_sub(1));
        }
        let mut u: Vec<u8> = offs.iter().flat_map(|x| x.to_le_bytes()).collect();
        if f.crc {
            u.extend(crcs);
        }
        u.extend(body);
        let csize = (u.len() - crc_len) as u32;
        (u, BlockE { pos, csize, fsize: f.data.len() as u32, flags })
    }

    pub fn place(&self, blocks: &[u32]) -> Vec<[u32; 4]> {
        let n = self.hash_size;
        let mut slots: Vec<[u32; 4]> = vec![[0xFFFFFFFF; 4]; n];
        if let Some(l) = &self.layout {
            assert_eq!(l.len(), n);
            for (i, &x) in l.iter().enumerate() {
                slots[i] = match x {
                    -1 => [0xFFFFFFFF; 4],
                    -2 => [0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFE],
                    k if k <= -10 => {
                        let f = &self.files[(-10 - k) as usize];
                        let nb = f.name.as_bytes();
                        [hash(nb, 1), hash(nb, 2), f.locale as u32, 0xFFFFFFFE]
                    }
                    k => {
                        let f = &self.files[k as usize];
                        let nb = f.name.as_bytes();
                        [hash(nb, 1), hash(nb, 2), f.locale as u32, blocks[k as usize]]
                    }
                };
            }
            return slots;
        }
        for &d in &self.deleted_slots {
            slots[d & (n - 1)] = [0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFE];
        }
        for (f, &bi) in self.files.iter().zip(blocks) {
            let nb = f.name.as_bytes();
            let mut i = hash(nb, 0) as usize & (n - 1);
            let mut tries = 0;
            while slots[i][3] != 0xFFFFFFFF {
                i = (i + 1) & (n - 1);
                tries += 1;
                assert!(tries < n, "reference hash table full");
            }
            slots[i] = [hash(nb, 1), hash(nb, 2), f.locale as u32, bi];
        }
        slots
    }

    /// An archive whose data and tables lie at the given offsets: (offset, bytes) pieces for a sparse file.
    pub fn write_far(&self, data_pos: u64, table_pos: u64) -> Vec<(u64, Vec<u8>)> {
        assert!(self.version >= 1 && self.version <= 2);
        let hs = [32usize, 44, 68, 208][self.version as usize];
        let mut out = vec![];
        let mut pos = data_pos;
        let mut blocks = vec![];
        for f in &self.files {
            let (u, b) = self.encode_file(f, pos);
            let l = u.len() as u64;
            out.push((pos, u));
            blocks.push(b);
            pos += l + self.gap as u64;
        }
        let idx: Vec<u32> = (0..self.files.len() as u32).collect();
        let mut hw: Vec<u32> = self.place(&idx).iter().flatten().copied().collect();
        encrypt_words(&mut hw, hash(b"(hash table)", 3));
        let mut bw: Vec<u32> = blocks.iter().flat_map(|b| [b.pos as u32, b.csize, b.fsize, b.flags]).collect();
        encrypt_words(&mut bw, hash(b"(block table)", 3));
        let hb: Vec<u8> = hw.iter().flat_map(|x| x.to_le_bytes()).collect();
        let bb: Vec<u8> = bw.iter().flat_map(|x| x.to_le_bytes()).collect();
        let hib: Vec<u8> = blocks.iter().flat_map(|b| ((b.pos >> 32) as u16).to_le_bytes()).collect();
        let (hpos, bpos) = (table_pos, table_pos + hb.len() as u64);
        let hipos = bpos + bb.len() as u64;
        let total = (hipos + hib.len() as u64).max(pos);
        let mut h = vec![];
        h.extend(0x1A51504Du32.to_le_bytes());
        h.extend((hs as u32).to_le_bytes());
        h.extend((total as u32).to_le_bytes());
        h.extend(self.version.to_le_bytes());
        h.extend(self.shift.to_le_bytes());
        h.extend((hpos as u32).to_le_bytes());
        h.extend((bpos as u32).to_le_bytes());
        h.extend((self.hash_size as u32).to_le_bytes());
        h.extend((blocks.len() as u32).to_le_bytes());
        h.extend(hipos.to_le_bytes());
        h.extend(((hpos >> 32) as u16).to_le_bytes());
        h.extend(((bpos >> 32) as u16).to_le_bytes());
        if self.version >= 2 {
            h.extend(total.to_le_bytes());
            h.extend(0u64.to_le_bytes());
            h.extend(0u64.to_le_bytes());
        }
        out.push((0, h));
        out.push((hpos, hb));
        out.push((bpos, bb));
        out.push((hipos, hib));
        out
    }

    pub fn write(&self) -> Vec<u8> {
        let hs = [32usize, 44, 68, 208][self.version as usize];
        let mut out = self.prefix.clone();
        if let Some(n) = self.user_data {
            let at = out.len();
            assert!(at % 512 == 0);
            out.extend(0x1B51504Du32.to_le_bytes());
            out.extend((n.saturating_sub(16)).to_le_bytes());
            out.extend(n.to_le_bytes());
            out.extend(16u32.to_le_bytes());
            out.resize(at + n as usize, 0x55);
        }
        let base = out.len();
        let nblocks = self.files.len() + self.extra_dead_blocks;
        let tabs_len = self.hash_size * 16 + nblocks * 16 + if self.hi_block { nblocks * 2 } else { 0 };
        let mut body: Vec<u8> = vec![];
        let data_start = hs + if self.tables_first { tabs_len } else { 0 } + self.gap;
        let mut blocks = vec![];
        for f in &self.files {
            let pos = (data_start + body.len()) as u64;
            let (u, b) = self.encode_file(f, pos);
            body.extend(u);
            body.resize(body.len() + self.gap, 0xEE);
            blocks.push(b);
        }
        let idx: Vec<u32> = (0..self.files.len() as u32).map(|i| i + self.extra_dead_blocks as u32).collect();
        let slots = self.place(&idx);
        let mut hw: Vec<u32> = slots.iter().flatten().copied().collect();
        encrypt_words(&mut hw, hash(b"(hash table)", 3));
        let mut bw: Vec<u32> = vec![];
        for _ in 0..self.extra_dead_blocks {
            bw.extend([hs as u32, 0, 0, 0]);
        }
        for (i, b) in blocks.iter().enumerate() {
            match self.gone.iter().find(|g| g.0 == i) {
                None => bw.extend([b.pos as u32, b.csize, b.fsize, b.flags]),
                Some((_, 1)) => bw.extend([b.pos as u32, b.csize, b.fsize, b.flags & !EXISTS]),
                Some(_) => bw.extend([0; 4]),
            }
        }
        let (het, bet) = match &self.ext {
            Some(x) => {
                assert!(self.version >= 2 && !self.tables_first && !self.block_before_hash);
                let es: Vec<[u32; 4]> = bw.chunks(4).map(|c| c.try_into().unwrap()).collect();
                let mut js = vec![0u64; self.extra_dead_blocks];
                js.extend(self.files.iter().map(|f| crate::props::p06::jenkins(f.name.as_bytes())));
                (x.het(nblocks, js.first().copied().unwrap_or(0)), x.bet(&es, &js))
            }
            None => (vec![], vec![]),
        };
        encrypt_words(&mut bw, hash(b"(block table)", 3));
        let hb: Vec<u8> = hw.iter().flat_map(|x| x.to_le_bytes()).collect();
        let bb: Vec<u8> = bw.iter().flat_map(|x| x.to_le_bytes()).collect();
        let hib: Vec<u8> = if self.hi_block { vec![0u8; nblocks * 2] } else { vec![] };
        let xstart = data_start + body.len();
        let tstart = if self.tables_first { hs } else { xstart + het.len() + bet.len() };
        let (hpos, bpos) = if self.block_before_hash {
            (tstart + bb.len(), tstart)
        } else {
            (tstart, tstart + hb.len())
        };
        let hipos = tstart + hb.len() + bb.len();
        let mut tabs = vec![];
        tabs.extend(&het);
        tabs.extend(&bet);
        if self.block_before_hash {
            tabs.extend(&bb);
            tabs.extend(&hb);
        } else {
            tabs.extend(&hb);
            tabs.extend(&bb);
        }
        tabs.extend(&hib);
        let total = hs + self.gap + body.len() + tabs.len();
        let mut h = vec![];
        h.extend(0x1A51504Du32.to_le_bytes());
        h.extend((hs as u32).to_le_bytes());
        h.extend((total as u32).to_le_bytes());
        h.extend(self.version.to_le_bytes());
        h.extend(self.shift.to_le_bytes());
        h.extend((hpos as u32).to_le_bytes());
        h.extend((bpos as u32).to_le_bytes());
        h.extend((self.hash_size as u32).to_le_bytes());
        h.extend((nblocks as u32).to_le_bytes());
        if self.version >= 1 {
            h.extend((if self.hi_block { hipos as u64 } else { 0 }).to_le_bytes());
            h.extend(0u16.to_le_bytes());
            h.extend(0u16.to_le_bytes());
        }
        if self.version >= 2 {
            h.extend((total as u64).to_le_bytes());
            // BET position first, as in the header
            h.extend((if bet.is_empty() { 0 } else { (xstart + het.len()) as u64 }).to_le_bytes());
            h.extend((if het.is_empty() { 0 } else { xstart as u64 }).to_le_bytes());
        }
        if self.version >= 3 {
            for x in [hb.len() as u64, bb.len() as u64, hib.len() as u64, het.len() as u64, bet.len() as u64] {
                h.extend(x.to_le_bytes());
            }
            h.extend(0x4000u32.to_le_bytes());
            h.extend(md5(&bb));
            h.extend(md5(&hb));
            h.extend(if self.hi_block { md5(&hib) } else { [0; 16] });
            for x in [&bet, &het] {
                h.extend(if x.is_empty() { [0; 16] } else { md5(x) });
            }
            let m = md5(&h);
            h.extend(m);
        }
        assert_eq!(h.len(), hs);
        out.truncate(base);
        out.extend(h);
        if self.tables_first {
            out.extend(&tabs);
        }
        out.resize(out.len() + self.gap, 0xEE);
        out.extend(&body);
        if !self.tables_first {
            out.extend(&tabs);
        }
        out
    }
}

/// A reference view of "what should be in the archive": normalised name -> contents.
pub fn norm_name(n: &str) -> Vec<u8> {
    n.bytes().map(norm_upper).collect()
}
pub type Contents = BTreeMap<Vec<u8>, (String, Vec<u8>)>;
