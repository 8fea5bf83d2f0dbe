//! P24: parsed headers and tables hold exactly what is stored.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use mopaq::header::{find_header, FormatVersion, MpqHeader};
use mopaq::tables::{BetTable, BlockEntry, BlockTable, HashEntry, HashTable, HetTable, HiBlockTable};
use std::io::{Cursor, Seek, SeekFrom};

pub fn run(ctx: &'static Ctx) {
    ctx.level("exploration");
    ctx.rule("every byte of every header and table entry with every value, pairs of extreme fields, every truncation, tables of every size to a bound, every bit field width and flag list, all small hash tables with all lookups; the parsed structures and all queries on them are compared with an independent decoding; non-trivial = distinct structures");
    headers(ctx);
    user_data(ctx);
    hash_entries(ctx);
    hash_tables(ctx);
    block_tables(ctx);
    bet_tables(ctx);
    het_tables(ctx);
    archives(ctx);
    ctx.assume("a header size below that of the version, an unknown version and an unrepresentable sector size may be refused; among several entries that match a name and a locale any may be returned");
}

fn fill(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}
fn u16_(d: &[u8], o: usize) -> u64 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64
}
fn u32_(d: &[u8], o: usize) -> u64 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64
}
fn u64_(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

const SIZES: [usize; 4] = [32, 44, 68, 208];
/// (name, value) of every field of a header, as the format document places them.
fn stored(d: &[u8]) -> Vec<(&'static str, Option<Vec<u8>>)> {
    let v = u16_(d, 12) as usize;
    let f = |need: usize, o: usize, n: usize| (v >= need).then(|| d[o..o + n].to_vec());
    let pos = |lo: usize, hi: usize| (u32_(d, lo) | if v >= 1 { u16_(d, hi) << 32 } else { 0 }).to_le_bytes().to_vec();
    vec![
        ("header_size", f(0, 4, 4)),
        ("archive_size", f(0, 8, 4)),
        ("version", f(0, 12, 2)),
        ("block_size", f(0, 14, 2)),
        ("hash_table_pos", f(0, 16, 4)),
        ("block_table_pos", f(0, 20, 4)),
        ("hash_table_size", f(0, 24, 4)),
        ("block_table_size", f(0, 28, 4)),
        ("hi_block_table_pos", f(1, 32, 8)),
        ("hash_table_pos_hi", f(1, 40, 2)),
        ("block_table_pos_hi", f(1, 42, 2)),
        ("archive_size_64", f(2, 44, 8)),
        ("bet_table_pos", f(2, 52, 8)),
        ("het_table_pos", f(2, 60, 8)),
        ("hash_table_size_64", f(3, 68, 8)),
        ("block_table_size_64", f(3, 76, 8)),
        ("hi_block_table_size_64", f(3, 84, 8)),
        ("het_table_size_64", f(3, 92, 8)),
        ("bet_table_size_64", f(3, 100, 8)),
        ("raw_chunk_size", f(3, 108, 4)),
        ("md5_block_table", f(3, 112, 16)),
        ("md5_hash_table", f(3, 128, 16)),
        ("md5_hi_block_table", f(3, 144, 16)),
        ("md5_bet_table", f(3, 160, 16)),
        ("md5_het_table", f(3, 176, 16)),
        ("md5_mpq_header", f(3, 192, 16)),
        ("get_archive_size", Some(if v >= 2 { d[44..52].to_vec() } else { u32_(d, 8).to_le_bytes().to_vec() })),
        ("get_hash_table_pos", Some(pos(16, 40))),
        ("get_block_table_pos", Some(pos(20, 42))),
        ("sector_size", Some((512u64 << u16_(d, 14).min(54)).to_le_bytes().to_vec())),
    ]
}
fn parsed(h: &MpqHeader) -> Vec<(&'static str, Option<Vec<u8>>)> {
    let s = |x: u32| Some(x.to_le_bytes().to_vec());
    let t = |x: u16| Some(x.to_le_bytes().to_vec());
    let l = |x: u64| Some(x.to_le_bytes().to_vec());
    let q = h.v4_data.as_ref();
    vec![
        ("header_size", s(h.header_size)),
        ("archive_size", s(h.archive_size)),
        ("version", t(h.format_version as u16)),
        ("block_size", t(h.block_size)),
        ("hash_table_pos", s(h.hash_table_pos)),
        ("block_table_pos", s(h.block_table_pos)),
        ("hash_table_size", s(h.hash_table_size)),
        ("block_table_size", s(h.block_table_size)),
        ("hi_block_table_pos", h.hi_block_table_pos.and_then(l)),
        ("hash_table_pos_hi", h.hash_table_pos_hi.and_then(t)),
        ("block_table_pos_hi", h.block_table_pos_hi.and_then(t)),
        ("archive_size_64", h.archive_size_64.and_then(l)),
        ("bet_table_pos", h.bet_table_pos.and_then(l)),
        ("het_table_pos", h.het_table_pos.and_then(l)),
        ("hash_table_size_64", q.and_then(|q| l(q.hash_table_size_64))),
        ("block_table_size_64", q.and_then(|q| l(q.block_table_size_64))),
        ("hi_block_table_size_64", q.and_then(|q| l(q.hi_block_table_size_64))),
        ("het_table_size_64", q.and_then(|q| l(q.het_table_size_64))),
        ("bet_table_size_64", q.and_then(|q| l(q.bet_table_size_64))),
        ("raw_chunk_size", q.and_then(|q| s(q.raw_chunk_size))),
        ("md5_block_table", q.map(|q| q.md5_block_table.to_vec())),
        ("md5_hash_table", q.map(|q| q.md5_hash_table.to_vec())),
        ("md5_hi_block_table", q.map(|q| q.md5_hi_block_table.to_vec())),
        ("md5_bet_table", q.map(|q| q.md5_bet_table.to_vec())),
        ("md5_het_table", q.map(|q| q.md5_het_table.to_vec())),
        ("md5_mpq_header", q.map(|q| q.md5_mpq_header.to_vec())),
        ("get_archive_size", l(h.get_archive_size())),
        ("get_hash_table_pos", l(h.get_hash_table_pos())),
        ("get_block_table_pos", l(h.get_block_table_pos())),
        ("sector_size", l(h.sector_size() as u64)),
    ]
}
fn same(h: &MpqHeader, d: &[u8]) -> Result<(), String> {
    for ((n, g), (m, w)) in parsed(h).into_iter().zip(stored(d)) {
        assert_eq!(n, m);
        if g != w {
            return Err(format!("{} = {:02x?}, stored {:02x?}", n, g, w));
        }
    }
    Ok(())
}
/// Judges reading the header `d`, also behind other data and when searched for.
fn judge(d: &[u8], at: usize) -> Result<(), String> {
    let v = u16_(d, 12);
    let ok = v <= 3 && u32_(d, 4) as usize >= SIZES[v as usize] && u16_(d, 14) <= 31 && &d[..4] == b"MPQ\x1a";
    let may = v <= 3 && &d[..4] == b"MPQ\x1a";
    let mut file = vec![0u8; at];
    file.extend(d);
    let mut c = Cursor::new(file);
    c.seek(SeekFrom::Start(at as u64)).unwrap();
    let one = MpqHeader::read(&mut c);
    let two = find_header(&mut c);
    match (&one, ok) {
        (Ok(_), _) if !may => return Err("a header without signature or of an unknown version is accepted".into()),
        (Err(e), true) => return Err(format!("well-formed header refused: {}", e)),
        (Ok(h), _) => same(h, d)?,
        _ => {}
    }
    match (two, ok) {
        (Ok(_), _) if !may => return Err("find_header accepts a header without signature or of an unknown version".into()),
        (Err(e), true) => return Err(format!("find_header: {}", e)),
        (Ok((o, u, h)), _) => {
            if o != at as u64 || u.is_some() {
                return Err(format!("find_header: at {} with user data {:?}, stored at {}", o, u, at));
            }
            same(&h, d)?
        }
        _ => {}
    }
    Ok(())
}
fn header(v: usize, seed: u64) -> Vec<u8> {
    let mut d = fill(SIZES[v], seed);
    d[..4].copy_from_slice(b"MPQ\x1a");
    d[4..8].copy_from_slice(&(SIZES[v] as u32).to_le_bytes());
    d[12..14].copy_from_slice(&(v as u16).to_le_bytes());
    d[14..16].copy_from_slice(&3u16.to_le_bytes());
    d
}

fn headers(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for v in 0..4usize {
        for at in [0usize, 512, 1536] {
            for b in 0..SIZES[v] {
                jobs.push((v, at, b));
            }
        }
    }
    ctx.par(&jobs, |&(v, at, b)| {
        ctx.case(&format!("header/v{}/at{}/byte{}", v + 1, at, b), || {
            for seed in [1u64, 2] {
                let base = header(v, seed);
                for x in 0..=255u8 {
                    let mut d = base.clone();
                    d[b] = x;
                    // a changed version needs as many bytes as that version has
                    d.resize(208, 0x77);
                    ctx.distinct(&(v, at, b, seed, x));
                    judge(&d, at).map_err(|m| format!("byte {} = {:02x}: {}", b, x, m))?;
                }
            }
            Ok(())
        });
    });
    // pairs of fields at their extremes
    const FIELDS: [(usize, usize); 19] = [(8, 4), (16, 4), (20, 4), (24, 4), (28, 4), (32, 8), (40, 2), (42, 2), (44, 8), (52, 8), (60, 8), (68, 8), (76, 8), (84, 8), (92, 8), (100, 8), (108, 4), (112, 16), (128, 16)];
    let ext = |n: usize| -> Vec<Vec<u8>> {
        let mut v = vec![vec![0; n], vec![0xFF; n]];
        for at in [0, n - 1] {
            let mut x = vec![0; n];
            x[at] = if at == 0 { 1 } else { 0x80 };
            v.push(x);
        }
        v
    };
    for v in 0..4usize {
        ctx.case(&format!("header/v{}/pairs", v + 1), || {
            let base = header(v, 3);
            for (i, a) in FIELDS.iter().enumerate() {
                for b in &FIELDS[i + 1..] {
                    if b.0 + b.1 > SIZES[v] {
                        continue;
                    }
                    for x in ext(a.1) {
                        for y in ext(b.1) {
                            let mut d = base.clone();
                            d[a.0..a.0 + a.1].copy_from_slice(&x);
                            d[b.0..b.0 + b.1].copy_from_slice(&y);
                            ctx.distinct(&(v, a, b, &x, &y));
                            judge(&d, 0)?;
                        }
                    }
                }
            }
            Ok(())
        });
        ctx.case(&format!("header/v{}/truncated", v + 1), || {
            let base = header(v, 4);
            for n in 0..base.len() {
                ctx.distinct(&("cut", v, n));
                if MpqHeader::read(&mut Cursor::new(base[..n].to_vec())).is_ok() || find_header(&mut Cursor::new(base[..n].to_vec())).is_ok() {
                    return Err(format!("a header cut after {} of {} bytes is accepted", n, base.len()));
                }
            }
            Ok(())
        });
        // larger headers than needed belong to the same version
        ctx.case(&format!("header/v{}/sizes", v + 1), || {
            for s in (SIZES[v]..SIZES[v] + 300).chain([0xFFFF, 0x10000, 0x7FFF_FFFF, 0xFFFF_FFFF]) {
                let mut d = header(v, 5);
                d[4..8].copy_from_slice(&(s as u32).to_le_bytes());
                judge(&d, 0).map_err(|m| format!("size {}: {}", s, m))?;
            }
            Ok(())
        });
        ctx.case(&format!("version/{}", v), || {
            let f = FormatVersion::from_raw(v as u16).ok_or("unknown version")?;
            if f as usize != v || f.header_size() as usize != SIZES[v] {
                return Err(format!("{:?} has {} bytes", f, f.header_size()));
            }
            Ok(())
        });
    }
    ctx.case("version/unknown", || {
        for v in 4..=u16::MAX {
            if FormatVersion::from_raw(v).is_some() {
                return Err(format!("version {}", v));
            }
        }
        Ok(())
    });
}

fn user_data(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for v in 0..4usize {
        for lead in [0usize, 512, 2048] {
            for b in 4..16usize {
                jobs.push((v, lead, b));
            }
        }
    }
    ctx.par(&jobs, |&(v, lead, b)| {
        ctx.case(&format!("user-data/v{}/lead{}/byte{}", v + 1, lead, b), || {
            for x in 0..=255u8 {
                let mut d = vec![0u8; lead];
                d.extend(b"MPQ\x1b");
                d.extend(fill(12, b as u64 + 9));
                d[lead + 8..lead + 12].copy_from_slice(&0x300u32.to_le_bytes());
                d[lead + b] = x;
                let off = u32_(&d, lead + 8) as usize;
                // the archive lies where the header says, if that is not too far away
                if !(16..1 << 17).contains(&off) {
                    continue;
                }
                d.resize(lead + off, 0);
                let h = header(v, 6);
                d.extend(&h);
                let (o, u, g) = find_header(&mut Cursor::new(d.clone())).map_err(|e| format!("byte {:02x}: {}", x, e))?;
                same(&g, &h)?;
                let u = u.ok_or("user data header not reported")?;
                ctx.distinct(&(v, lead, b, x));
                let want = (u32_(&d, lead + 4), off as u64, u32_(&d, lead + 12));
                if o != (lead + off) as u64 || (u.user_data_size as u64, u.header_offset as u64, u.user_data_header_size as u64) != want {
                    return Err(format!("at {} {:?}, stored {:?}", o, u, want));
                }
            }
            Ok(())
        });
    });
}

fn hash_entries(ctx: &'static Ctx) {
    ctx.case("entry/hash", || {
        for seed in 0..4u64 {
            for b in 0..16 {
                for x in 0..=255u8 {
                    let mut d = fill(16, seed + 20);
                    d[b] = x;
                    ctx.distinct(&("he", seed, b, x));
                    let e = HashEntry::from_bytes(&d).map_err(|e| e.to_string())?;
                    if (e.name_1 as u64, e.name_2 as u64, e.locale as u64, e.platform as u64, e.block_index as u64) != (u32_(&d, 0), u32_(&d, 4), u16_(&d, 8), u16_(&d, 10), u32_(&d, 12)) {
                        return Err(format!("{:02x?} is read as {:?}", d, e));
                    }
                }
            }
        }
        for n in 0..16 {
            if HashEntry::from_bytes(&fill(n, 1)).is_ok() || BlockEntry::from_bytes(&fill(n, 1)).is_ok() {
                return Err(format!("an entry of {} bytes is accepted", n));
            }
        }
        for i in (0..3000u32).chain((0..32).map(|k| 1 << k)).chain(0xFFFF_0000..=0xFFFF_FFFF) {
            let mut e = HashEntry::empty();
            if !e.is_empty() || e.is_deleted() || e.is_valid() {
                return Err("the empty entry".into());
            }
            e.block_index = i;
            if (e.is_empty(), e.is_deleted(), e.is_valid()) != (i == 0xFFFF_FFFF, i == 0xFFFF_FFFE, i < 0xFFFF_FFFE) {
                return Err(format!("block index {:x}: empty {}, deleted {}, valid {}", i, e.is_empty(), e.is_deleted(), e.is_valid()));
            }
        }
        Ok(())
    });
    ctx.case("entry/block", || {
        for seed in 0..4u64 {
            for b in 0..16 {
                for x in 0..=255u8 {
                    let mut d = fill(16, seed + 30);
                    d[b] = x;
                    ctx.distinct(&("be", seed, b, x));
                    let e = BlockEntry::from_bytes(&d).map_err(|e| e.to_string())?;
                    if (e.file_pos as u64, e.compressed_size as u64, e.file_size as u64, e.flags as u64) != (u32_(&d, 0), u32_(&d, 4), u32_(&d, 8), u32_(&d, 12)) {
                        return Err(format!("{:02x?} is read as {:?}", d, e));
                    }
                }
            }
        }
        // every pair of flag bits, set and clear
        for i in 0..32 {
            for j in 0..32 {
                for f in [1u32 << i | 1 << j, !(1u32 << i | 1 << j)] {
                    let e = BlockEntry { file_pos: 0, compressed_size: 0, file_size: 0, flags: f };
                    let got = (e.is_compressed(), e.is_encrypted(), e.has_fix_key(), e.is_single_unit(), e.has_sector_crc(), e.exists());
                    let bit = |m: u32| f & m != 0;
                    let want = (bit(0x300), bit(0x10000), bit(0x20000), bit(0x0100_0000), bit(0x0400_0000), bit(0x8000_0000));
                    ctx.distinct(&("flags", f));
                    if got != want {
                        return Err(format!("flags {:08x}: {:?}, stored {:?}", f, got, want));
                    }
                }
            }
        }
        Ok(())
    });
}

fn hash_tables(ctx: &'static Ctx) {
    let mut jobs: Vec<(usize, usize)> = vec![];
    for k in 0..=if ctx.thorough { 17 } else { 14 } {
        for at in [0usize, 1, 12, 4096] {
            jobs.push((1 << k, at));
        }
    }
    ctx.par(&jobs, |&(n, at)| {
        ctx.case(&format!("hash/read/{}@{}", n, at), || {
            let plain = fill(n * 16, n as u64);
            let mut enc = plain.clone();
            r::encrypt_bytes(&mut enc, r::hash(b"(hash table)", 3));
            let mut d = fill(at, 8);
            d.extend(&enc);
            let t = HashTable::read(&mut Cursor::new(d.clone()), at as u64, n as u32).map_err(|e| e.to_string())?;
            if t.size() != n || t.entries().len() != n || t.get(n).is_some() {
                return Err(format!("{} entries instead of {}", t.size(), n));
            }
            ctx.distinct(&("ht", n, at));
            for i in 0..n {
                let e = t.get(i).ok_or("entry missing")?;
                let s = t.entries()[i];
                let w = &plain[i * 16..];
                let v = (e.name_1 as u64, e.name_2 as u64, e.locale as u64, e.platform as u64, e.block_index as u64);
                if v != (u32_(w, 0), u32_(w, 4), u16_(w, 8), u16_(w, 10), u32_(w, 12)) || v.0 != s.name_1 as u64 || v.4 != s.block_index as u64 {
                    return Err(format!("entry {} of {} = {:?}", i, n, e));
                }
            }
            d.pop();
            if HashTable::read(&mut Cursor::new(d), at as u64, n as u32).is_ok() {
                return Err("a table cut short is accepted".into());
            }
            Ok(())
        });
    });
    ctx.case("hash/sizes", || {
        let d = vec![0u8; 4100 * 16];
        for n in 0..4100u32 {
            let p = n != 0 && n & (n - 1) == 0;
            if HashTable::read(&mut Cursor::new(d.clone()), 0, n).is_ok() != p || n < 600 && (HashTable::new(n as usize).is_ok() != p || HashTable::new_mut(n as usize).is_ok() != p) {
                return Err(format!("a table of {} entries: power of two {}", n, p));
            }
        }
        Ok(())
    });
    // all tables of four entries over eight kinds of entry
    let names = ["Alpha\\one", "two.txt"];
    let start = |n: &str| r::hash(n.as_bytes(), 0) as usize & 3;
    let firsts: Vec<usize> = (0..4096).collect();
    ctx.par(&firsts, |&c| {
        ctx.case(&format!("hash/lookup/{:04o}", c), || {
            let mut t = HashTable::new_mut(4).map_err(|e| e.to_string())?;
            let mut m: Vec<(u32, u32, u16, u32)> = vec![];
            for s in 0..4 {
                let kind = c >> (3 * s) & 7;
                let of = |k: usize| (r::hash(names[k].as_bytes(), 1), r::hash(names[k].as_bytes(), 2));
                let (a, b) = of((kind == 4) as usize);
                m.push(match kind {
                    0 => (0xFFFF_FFFF, 0xFFFF_FFFF, 0xFFFF, 0xFFFF_FFFF),
                    1 => (a, b, 0, 0xFFFF_FFFE),
                    2 => (a, b, 0, s as u32),
                    3 => (a, b, 0x407, s as u32),
                    4 => (a, b, 0, s as u32),
                    5 => (a, !b, 0, s as u32),
                    6 => (!a, b, 0, s as u32),
                    _ => (a, b, 0x40C, s as u32),
                });
                let e = t.get_mut(s).ok_or("entry missing")?;
                (e.name_1, e.name_2, e.locale, e.block_index) = m[s];
            }
            for (k, n) in names.iter().enumerate() {
                for loc in [0u16, 0x407, 0x40C, 0x409] {
                    for spelling in [n.to_string(), n.to_uppercase(), n.replace('\\', "/")] {
                        let mut fits = vec![];
                        for p in 0..4 {
                            let i = (start(n) + p) & 3;
                            let e = m[i];
                            if e.3 == 0xFFFF_FFFF {
                                break;
                            }
                            if e.3 != 0xFFFF_FFFE && (e.0, e.1) == (r::hash(names[k].as_bytes(), 1), r::hash(names[k].as_bytes(), 2)) && (loc == 0 || e.2 == 0 || e.2 == loc) {
                                fits.push(i);
                            }
                        }
                        ctx.distinct(&("lookup", c, k, loc, &spelling));
                        match t.find_file(&spelling, loc) {
                            None if fits.is_empty() => {}
                            Some((i, e)) if fits.contains(&i) && e.block_index == i as u32 => {}
                            g => return Err(format!("{} in locale {:x}: {:?}, fitting entries {:?} of {:x?}", spelling, loc, g, fits, m)),
                        }
                    }
                }
            }
            t.clear();
            if t.entries().iter().any(|e| !e.is_empty()) {
                return Err("entries left after clear".into());
            }
            Ok(())
        });
    });
}

fn block_tables(ctx: &'static Ctx) {
    let mut jobs: Vec<usize> = (0..=300).collect();
    jobs.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8193, 65_535, 65_536, 65_537]);
    ctx.par(&jobs, |&n| {
        for at in [0usize, 3, 4096] {
            ctx.case(&format!("block/read/{}@{}", n, at), || {
                let plain = fill(n * 16, n as u64 + 77);
                let mut enc = plain.clone();
                r::encrypt_bytes(&mut enc, r::hash(b"(block table)", 3));
                let mut d = fill(at, 8);
                d.extend(&enc);
                let t = BlockTable::read(&mut Cursor::new(d.clone()), at as u64, n as u32).map_err(|e| e.to_string())?;
                if t.size() != n || t.entries().len() != n || t.get(n).is_some() {
                    return Err(format!("{} entries instead of {}", t.size(), n));
                }
                ctx.distinct(&("bt", n, at));
                for i in 0..n {
                    let e = t.get(i).ok_or("entry missing")?;
                    let w = &plain[i * 16..];
                    if (e.file_pos as u64, e.compressed_size as u64, e.file_size as u64, e.flags as u64) != (u32_(w, 0), u32_(w, 4), u32_(w, 8), u32_(w, 12)) {
                        return Err(format!("entry {} of {} = {:?}", i, n, e));
                    }
                }
                // the same bytes as high parts of positions
                let d = &d[..at + n * 2];
                let h = HiBlockTable::read(&mut Cursor::new(d.to_vec()), at as u64, n as u32).map_err(|e| e.to_string())?;
                for i in 0..n + 2 {
                    let w = (i < n).then(|| u16_(d, at + i * 2) as u16);
                    if h.get(i) != w || h.get_file_pos_high(i) != w.unwrap_or(0) as u64 || i < n && Some(h.entries()[i]) != w {
                        return Err(format!("high part {} of {} = {:?}, stored {:?}", i, n, h.get(i), w));
                    }
                }
                if h.entries().len() != n {
                    return Err("number of high parts".into());
                }
                for cut in [1usize, 2] {
                    if n > 0 && (HiBlockTable::read(&mut Cursor::new(d[..d.len() - cut].to_vec()), at as u64, n as u32).is_ok() || BlockTable::read(&mut Cursor::new(d.to_vec()), at as u64, n as u32).is_ok()) {
                        return Err("a table cut short is accepted".into());
                    }
                }
                // a table made in memory: one entry set at a time
                if n <= 40 && at == 0 {
                    for i in 0..n + 1 {
                        let mut h = HiBlockTable::new(n);
                        if h.is_needed() || h.entries().len() != n {
                            return Err("a new table of high parts is not empty".into());
                        }
                        for v in [1u16, 0x8000, 0xFFFF] {
                            h.set(i, v);
                            if h.get(i) != (i < n).then_some(v) || h.is_needed() != (i < n) || (0..n).any(|k| k != i && h.get(k) != Some(0)) {
                                return Err(format!("high part {} of {} set to {:x}: {:?}", i, n, v, h));
                            }
                        }
                        h.set(i, 0);
                        if h.is_needed() {
                            return Err("only zeros, but needed".into());
                        }
                    }
                }
                Ok(())
            });
        }
    });
}

/// A BET table with the given fields: (bit index, width) of position, size, stored size, flag index.
struct Bet {
    entry: usize,
    at: [usize; 4],
    width: [usize; 4],
    values: Vec<[u64; 4]>,
    flags: Vec<u32>,
    hashes: Vec<u64>,
    unknown: (usize, usize),
}
impl Bet {
    fn head(&self) -> [u32; 19] {
        let size = 12 + 76 + self.flags.len() * 4 + (self.entry * self.values.len()).div_ceil(8) + self.hashes.len() * 8;
        let (a, w) = (self.at.map(|x| x as u32), self.width.map(|x| x as u32));
        [size as u32, self.values.len() as u32, 0x10, self.entry as u32, a[0], a[1], a[2], a[3], self.unknown.0 as u32, w[0], w[1], w[2], w[3], self.unknown.1 as u32, 64, 5, 59, self.hashes.len() as u32 * 8, self.flags.len() as u32]
    }
    fn table(&self) -> Vec<u8> {
        // bits that belong to no field are set
        let mut t = vec![0xFFu8; (self.entry * self.values.len()).div_ceil(8)];
        for (i, v) in self.values.iter().enumerate() {
            for k in 0..4 {
                for b in 0..self.width[k] {
                    let p = i * self.entry + self.at[k] + b;
                    if v[k] >> b & 1 == 0 {
                        t[p / 8] &= !(1 << (p % 8));
                    }
                }
            }
        }
        t
    }
    fn write(&self, codec: u8, key: u32) -> Vec<u8> {
        let mut b: Vec<u8> = self.head().iter().chain(&self.flags).flat_map(|x| x.to_le_bytes()).collect();
        b.extend(self.table());
        b.extend(self.hashes.iter().flat_map(|h| h.to_le_bytes()));
        pack(b, b"BET\x1a", codec, key)
    }
    fn judge(&self, codec: u8, key: u32, at: usize) -> Result<(), String> {
        let mut d = fill(at, 4);
        let t = self.write(codec, key);
        d.extend(&t);
        d.extend([0x5A; 9]);
        let b = BetTable::read(&mut Cursor::new(d.clone()), at as u64, t.len() as u64, key).map_err(|e| format!("well-formed table refused: {}", e))?;
        let h = b.header;
        let got = [h.table_size, h.file_count, h.unknown_08, h.table_entry_size, h.bit_index_file_pos, h.bit_index_file_size, h.bit_index_cmp_size, h.bit_index_flag_index, h.bit_index_unknown, h.bit_count_file_pos, h.bit_count_file_size, h.bit_count_cmp_size, h.bit_count_flag_index, h.bit_count_unknown, h.total_bet_hash_size, h.bet_hash_size_extra, h.bet_hash_size, h.bet_hash_array_size, h.flag_count];
        if got != self.head() {
            return Err(format!("header {:?}, stored {:?}", got, self.head()));
        }
        if b.file_flags != self.flags || b.bet_hashes != self.hashes || b.file_table != self.table() {
            return Err("flags, hashes or entries are not the stored ones".into());
        }
        for (i, v) in self.values.iter().enumerate() {
            let g = b.get_file_info(i as u32).ok_or(format!("no entry {}", i))?;
            let w = (v[0], v[1], v[2], self.flags.get(v[3] as usize).copied().unwrap_or(0));
            if (g.file_pos, g.file_size, g.compressed_size, g.flags) != w {
                return Err(format!("entry {} = {:x?}, stored {:x?}", i, g, w));
            }
        }
        for i in [self.values.len() as u32, self.values.len() as u32 + 1, u32::MAX] {
            if b.get_file_info(i).is_some() {
                return Err(format!("entry {} of {}", i, self.values.len()));
            }
        }
        Ok(())
    }
}
fn pack(body: Vec<u8>, sig: &[u8; 4], codec: u8, key: u32) -> Vec<u8> {
    let mut out = sig.to_vec();
    out.extend(1u32.to_le_bytes());
    out.extend((body.len() as u32).to_le_bytes());
    let mut b = if codec == 0 { body.clone() } else { r::ref_compress(&body, codec) };
    if b.len() >= body.len() {
        b = body;
    }
    if key != 0 {
        r::encrypt_bytes(&mut b, key);
    }
    out.extend(b);
    out
}
fn mask(w: usize) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}

fn bet_tables(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for k in 0..3usize {
        for w in 0..=64usize {
            for others in [[1usize, 7, 8], [13, 32, 3], [24, 24, 24], [0, 40, 64]] {
                for rev in [false, true] {
                    jobs.push((k, w, others, rev));
                }
            }
        }
    }
    ctx.par(&jobs, |&(k, w, others, rev)| {
        ctx.case(&format!("bet/width/{}-{}-{:?}-{}", k, w, others, rev as u8), || {
            for n in [1usize, 2, 9] {
                for gap in [0usize, 1, 5] {
                    let mut width = [others[0], others[1], others[2], 4];
                    width[k] = w;
                    let mut at = [0; 4];
                    let mut p = gap;
                    for q in if rev { [3, 2, 1, 0] } else { [0, 1, 2, 3] } {
                        at[q] = p;
                        p += width[q];
                    }
                    for pat in 0..3u64 {
                        let values = (0..n as u64)
                            .map(|i| {
                                let x = [u64::MAX, 0xA5A5_5A5A_C3C3_9696u64.rotate_left(i as u32 * 7), 1u64 << (i * 5 % 64)][pat as usize];
                                [x & mask(width[0]), (!x).rotate_left(9) & mask(width[1]), x.rotate_left(17) & mask(width[2]), i % 11]
                            })
                            .collect();
                        let b = Bet { entry: p + gap, at, width, values, flags: (0..11).map(|i| 0x8000_0200u32.rotate_left(i)).collect(), hashes: (0..n as u64).map(|i| u64::MAX / (i + 1)).collect(), unknown: (p, gap) };
                        ctx.distinct(&("bw", k, w, others, rev, n, gap, pat));
                        for (codec, key) in [(0u8, 0u32), (ZLIB, r::hash(b"(block table)", 3))] {
                            b.judge(codec, key, gap)?;
                        }
                    }
                }
            }
            Ok(())
        });
    });
    // numbers of files and flags, every length of the encrypted part modulo four
    let mut jobs = vec![];
    for n in (0..60usize).chain([255, 256, 257, 1000, 5000]) {
        for f in [1usize, 2, 3, 7, 8, 9, 16, 17, 255, 256, 257] {
            for entry in [50usize, 51, 64, 80, 97] {
                jobs.push((n, f, entry));
            }
        }
    }
    ctx.par(&jobs, |&(n, f, entry)| {
        ctx.case(&format!("bet/size/{}-{}-{}", n, f, entry), || {
            let values = (0..n as u64).map(|i| [i * 31 & 0xFFFF, i * 7 & 0xFFF, i * 5 & 0xFFF, i % f as u64]).collect();
            let b = Bet { entry, at: [0, 16, 28, 40], width: [16, 12, 12, 10], values, flags: (0..f as u32).map(|i| 0x8000_0000 | i * 0x101).collect(), hashes: (0..n as u64).map(|i| i.wrapping_mul(0x0123_4567_89AB_CDEF)).collect(), unknown: (50, 0) };
            ctx.distinct(&("bs", n, f, entry));
            for key in [0u32, 1, r::hash(b"(block table)", 3)] {
                for codec in [0u8, ZLIB, BZIP2] {
                    b.judge(codec, key, 0)?;
                }
            }
            // a table whose last byte is missing
            let t = b.write(0, 0);
            if BetTable::read(&mut Cursor::new(t[..t.len() - 1].to_vec()), 0, t.len() as u64 - 1, 0).is_ok_and(|b| b.bet_hashes.len() == n && n > 0) {
                return Err("a table cut short is accepted".into());
            }
            Ok(())
        });
    });
    ctx.case("bet/signature", || {
        let b = Bet { entry: 50, at: [0, 16, 28, 40], width: [16, 12, 12, 10], values: vec![[1, 2, 3, 0]], flags: vec![5], hashes: vec![6], unknown: (50, 0) };
        for i in 0..4 {
            for x in 1..=255u8 {
                let mut t = b.write(0, 0);
                t[i] ^= x;
                if BetTable::read(&mut Cursor::new(t.clone()), 0, t.len() as u64, 0).is_ok() || HetTable::read(&mut Cursor::new(t.clone()), 0, t.len() as u64, 0).is_ok() && &t[..4] != b"HET\x1a" {
                    return Err("another signature is accepted".into());
                }
            }
        }
        Ok(())
    });
}

fn het_tables(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for n in (0..40u32).chain([63, 64, 65, 255, 256, 1000, 4096]) {
        for bits in [0u32, 1, 7, 8, 9, 100, 4096, 4099] {
            for codec in [0u8, ZLIB, BZIP2] {
                for key in [0u32, 1, r::hash(b"(hash table)", 3)] {
                    jobs.push((n, bits, codec, key));
                }
            }
        }
    }
    ctx.par(&jobs, |&(n, bits, codec, key)| {
        ctx.case(&format!("het/{}-{}-{}-{:x}", n, bits, mname(codec), key), || {
            let idx = (bits as usize).div_ceil(8);
            let head = [44 + n + idx as u32, n * 3 + 1, n, 8, bits, 3, 5, idx as u32];
            let (h, x) = (fill(n as usize, 5), fill(idx, 6));
            let mut b: Vec<u8> = head.iter().flat_map(|v| v.to_le_bytes()).collect();
            b.extend(&h);
            b.extend(&x);
            let t = pack(b, b"HET\x1a", codec, key);
            for at in [0usize, 5] {
                let mut d = fill(at, 4);
                d.extend(&t);
                d.extend([0x5A; 9]);
                ctx.distinct(&("het", n, bits, codec, key, at));
                let g = HetTable::read(&mut Cursor::new(d), at as u64, t.len() as u64, key).map_err(|e| format!("well-formed table refused: {}", e))?;
                let q = g.header;
                let got = [q.table_size, q.max_file_count, q.hash_table_size, q.hash_entry_size, q.total_index_size, q.index_size_extra, q.index_size, q.block_table_size];
                if got != head {
                    return Err(format!("header {:?}, stored {:?}", got, head));
                }
                if g.hash_table != h || g.file_indices != x {
                    return Err("hashes or file indices are not the stored ones".into());
                }
            }
            Ok(())
        });
    });
}

/// The structures an open archive exposes.
fn archives(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for v in 0..4u16 {
        for hi in [false, true] {
            for lead in [0usize, 512, 4096] {
                for ud in [None, Some(512u32), Some(700)] {
                    for order in 0..4usize {
                        for n in [0usize, 1, 5, 20] {
                            for lazy in [false, true] {
                                jobs.push((v, hi && v > 0, lead, ud, order, n, lazy));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, hi, lead, ud, order, n, lazy)| {
        ctx.case(&format!("archive/v{}-hi{}-lead{}-ud{:?}-order{}-n{}-lazy{}", v + 1, hi as u8, lead, ud, order, n, lazy as u8), || {
            let mut w = RefWriter::new(v, (n % 4) as u16);
            w.hash_size = 32;
            w.prefix = vec![0x11; lead];
            w.user_data = ud;
            w.tables_first = order & 1 == 1;
            w.block_before_hash = order & 2 == 2;
            w.hi_block = hi;
            w.extra_dead_blocks = order;
            for i in 0..n {
                let mut f = RefFile::new(&format!("f{}", i), content("text", i * 77, 512));
                f.locale = [0u16, 0x407][i % 2];
                f.method = if i % 3 == 0 { ZLIB } else { 0 };
                w.files.push(f);
            }
            let d = w.write();
            let ra = RefArchive::parse(&d).map_err(|m| format!("reference reader: {}", m))?;
            let t = Tmp::of(ctx, &d);
            let a = if lazy {
                let mut a = mopaq::Archive::open_with_options(&t.0, mopaq::OpenOptions::new().load_tables(false)).map_err(|e| e.to_string())?;
                same(a.header(), &d[ra.base..])?;
                a.load_tables().map_err(|e| e.to_string())?;
                a
            } else {
                t.open()?
            };
            ctx.distinct(&(v, hi, lead, ud, order, n, lazy));
            same(a.header(), &d[ra.base..])?;
            if a.archive_offset() != ra.base as u64 || a.path() != t.0 {
                return Err(format!("offset {}, path {:?}", a.archive_offset(), a.path()));
            }
            match (a.user_data(), ud) {
                (None, None) => {}
                (Some(u), Some(o)) => {
                    let p = ra.base - o as usize;
                    if (u.user_data_size as u64, u.header_offset as u64, u.user_data_header_size as u64) != (u32_(&d, p + 4), o as u64, u32_(&d, p + 12)) {
                        return Err(format!("user data {:?}", u));
                    }
                }
                (g, _) => return Err(format!("user data {:?}", g)),
            }
            let h: Vec<_> = a.hash_table().ok_or("no hash table")?.entries().iter().map(|e| (e.name_1, e.name_2, e.locale, e.platform, e.block_index)).collect();
            if h != ra.hash.iter().map(|e| (e.a, e.b, e.locale, e.platform, e.block)).collect::<Vec<_>>() {
                return Err("hash table differs from the stored one".into());
            }
            let b = a.block_table().map(|t| t.entries().to_vec()).unwrap_or_default();
            let high = |i: usize| a.hi_block_table().map(|t| t.get_file_pos_high(i)).unwrap_or(0);
            let g: Vec<_> = b.iter().enumerate().map(|(i, e)| (high(i) << 32 | e.file_pos as u64, e.compressed_size, e.file_size, e.flags)).collect();
            let s: Vec<_> = ra.block.iter().map(|e| (e.pos, e.csize, e.fsize, e.flags)).collect();
            if g != s {
                return Err(format!("block table {:x?}, stored {:x?}", g, s));
            }
            Ok(())
        });
    });
}
