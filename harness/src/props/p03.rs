//! P03: listings and archive information are truthful.
use super::common::*;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use mopaq::FormatVersion;
use std::collections::BTreeMap;

fn e<T, E: std::fmt::Display>(what: &str, x: Result<T, E>) -> Result<T, String> {
    x.map_err(|e| format!("{}: {}", what, e))
}

pub fn check(ctx: &Ctx, c: &Cfg) -> Result<(), String> {
    let t = c.build(ctx)?;
    let bytes = t.bytes();
    let rf = RefArchive::parse(&bytes).map_err(|m| format!("reference reader: {}", m))?;
    let mut a = t.open()?;
    // what must be there
    let mut want: BTreeMap<String, (u64, u64, u32)> = BTreeMap::new();
    let mut names: Vec<(String, u16)> = c.files.iter().map(|f| (f.name.clone(), f.locale)).collect();
    if c.lf != Lf::None {
        names.push(("(listfile)".into(), 0));
    }
    for (n, loc) in &names {
        let h = rf.lookup(n, *loc).ok_or(format!("{:?} not in the hash table", n))?;
        let b = &rf.block[h.block as usize];
        want.insert(n.clone(), (b.fsize as u64, b.csize as u64, b.flags));
    }
    let mut times: std::collections::HashMap<Vec<u8>, usize> = Default::default();
    for f in &c.files {
        *times.entry(r::norm_name(&f.name)).or_default() += 1;
    }
    for f in &c.files {
        let b = want[&f.name];
        if b.0 != f.data.len() as u64 {
            return Err(format!("block entry of {:?} has size {}", f.name, b.0));
        }
        let i = e("find_file", a.find_file(&f.name))?.ok_or("file not found")?;
        if (i.file_size, i.compressed_size, i.flags) != b {
            return Err(format!("find_file({:?}) = ({}, {}, {:#x}), tables say {:?}", f.name, i.file_size, i.compressed_size, i.flags, b));
        }
        let h = rf.lookup(&f.name, f.locale).unwrap();
        let be = &rf.block[h.block as usize];
        if i.filename != f.name || i.block_index != h.block as usize || i.file_pos != be.pos {
            return Err(format!("find_file({:?}): name {:?}, block {}, position {}; tables say block {} at {}", f.name, i.filename, i.block_index, i.file_pos, h.block, be.pos));
        }
        let once = times[&r::norm_name(&f.name)] == 1;
        if c.version < FormatVersion::V3 && once {
            if i.locale != f.locale {
                return Err(format!("find_file({:?}): locale {:#x} instead of {:#x}", f.name, i.locale, f.locale));
            }
            let at = &rf.hash[i.hash_index];
            if (at.a, at.b, at.block) != (h.a, h.b, h.block) {
                return Err(format!("find_file({:?}): hash index {} is another entry", f.name, i.hash_index));
            }
        }
        if (i.is_compressed(), i.is_single_unit(), i.has_sector_crc()) != (be.flags & 0x300 != 0, be.flags & r::SINGLE != 0, be.flags & r::CRC != 0) {
            return Err(format!("{:?}: flag queries contradict flags {:#x}", f.name, be.flags));
        }
        if i.is_encrypted() != (f.enc != Enc::No) || i.has_fix_key() != (f.enc == Enc::Fix) {
            return Err(format!("{:?}: encryption flags do not match what was asked for", f.name));
        }
    }
    // named listing
    let mut expect: BTreeMap<String, (u64, u64, u32)> = want.clone();
    if c.lf == Lf::Ext {
        expect.remove("(listfile)"); // the external list does not name itself
    }
    let l = e("list", a.list())?;
    let lh = e("list_with_hashes", a.list_with_hashes())?;
    if l.len() != lh.len() {
        return Err("list and list_with_hashes differ in length".into());
    }
    if c.lf != Lf::None {
        let mut got: BTreeMap<String, (u64, u64, u32)> = BTreeMap::new();
        for x in &l {
            if got.insert(x.name.clone(), (x.size, x.compressed_size, x.flags)).is_some() {
                return Err(format!("{:?} listed twice", x.name));
            }
            if [x.is_compressed(), x.is_encrypted(), x.has_fix_key(), x.is_single_unit(), x.has_sector_crc()]
                != [x.flags & 0x300 != 0, x.flags & r::ENCRYPTED != 0, x.flags & r::FIX_KEY != 0, x.flags & r::SINGLE != 0, x.flags & r::CRC != 0]
            {
                return Err(format!("{:?}: flag queries contradict flags {:#x}", x.name, x.flags));
            }
            if !x.exists() {
                return Err(format!("{:?} is listed as not existing", x.name));
            }
        }
        if got != expect {
            return Err(format!("list() = {:?}, expected {:?}", got, expect));
        }
        for (x, y) in l.iter().zip(&lh) {
            if x.name != y.name || (x.size, x.compressed_size, x.flags) != (y.size, y.compressed_size, y.flags) {
                return Err("list_with_hashes lists something else than list".into());
            }
            let h = (r::hash(y.name.as_bytes(), 1), r::hash(y.name.as_bytes(), 2));
            if y.hashes != Some(h) {
                return Err(format!("hashes of {:?} are {:x?}, expected {:x?}", y.name, y.hashes, h));
            }
        }
    }
    // complete listings: one entry per stored file
    let mut all_want: Vec<(u64, u64, u32)> = want.values().cloned().collect();
    all_want.sort();
    let check_all = |what: &str, v: Vec<mopaq::FileEntry>| -> Result<Vec<mopaq::FileEntry>, String> {
        let mut g: Vec<(u64, u64, u32)> = v.iter().map(|x| (x.size, x.compressed_size, x.flags)).collect();
        g.sort();
        if g != all_want {
            return Err(format!("{} lists {} entries {:?}, archive stores {} {:?}", what, g.len(), g, all_want.len(), all_want));
        }
        let mut n: Vec<&String> = v.iter().map(|x| &x.name).collect();
        n.sort();
        n.dedup();
        if n.len() != v.len() {
            return Err(format!("{} repeats a name", what));
        }
        Ok(v)
    };
    check_all("list_all", e("list_all", a.list_all())?)?;
    let lah = check_all("list_all_with_hashes", e("list_all_with_hashes", a.list_all_with_hashes())?)?;
    if lah.iter().all(|x| x.hashes.is_some()) {
        let mut g: Vec<(u32, u32)> = lah.iter().map(|x| x.hashes.unwrap()).collect();
        let mut w: Vec<(u32, u32)> = want.keys().map(|n| (r::hash(n.as_bytes(), 1), r::hash(n.as_bytes(), 2))).collect();
        g.sort();
        w.sort();
        if g != w {
            return Err("list_all_with_hashes: hashes are not those of the stored names".into());
        }
        // each hash pair sits on the entry of its own file
        let by: std::collections::HashMap<(u32, u32), (&String, &(u64, u64, u32))> = want.iter().map(|(n, t)| ((r::hash(n.as_bytes(), 1), r::hash(n.as_bytes(), 2)), (n, t))).collect();
        for x in &lah {
            let own = by[&x.hashes.unwrap()];
            if *own.1 != (x.size, x.compressed_size, x.flags) {
                return Err(format!("list_all_with_hashes: hashes of {:?} on another file's entry", own.0));
            }
        }
    } else if c.version < FormatVersion::V3 {
        return Err("list_all_with_hashes gives no hashes for a classic archive".into());
    }
    if c.lf == Lf::None {
        check_all("list (no listfile)", l)?;
    }
    // information
    let i = e("get_info", a.get_info())?;
    let n = want.len();
    if i.file_count != n {
        return Err(format!("file_count = {}, archive stores {}", i.file_count, n));
    }
    if (i.max_file_count as usize) < n {
        return Err(format!("max_file_count {} below the {} files stored", i.max_file_count, n));
    }
    if i.file_size != bytes.len() as u64 || i.archive_offset != 0 || i.format_version != c.version || i.sector_size != c.sector() {
        return Err(format!("info: size {} offset {} version {:?} sector {}", i.file_size, i.archive_offset, i.format_version, i.sector_size));
    }
    if i.has_listfile != (c.lf != Lf::None) || i.has_attributes || i.has_signature || i.user_data_info.is_some() {
        return Err(format!("info: listfile {} attributes {} signature {}", i.has_listfile, i.has_attributes, i.has_signature));
    }
    if i.signature_status != mopaq::SignatureStatus::None {
        return Err(format!("unsigned archive reported as {:?}", i.signature_status));
    }
    if i.is_encrypted != c.files.iter().any(|f| f.enc != Enc::No) {
        return Err(format!("is_encrypted = {}", i.is_encrypted));
    }
    if i.hash_table_info.failed_to_load || i.block_table_info.failed_to_load {
        return Err("a table is reported as not loadable".into());
    }
    if i.hash_table_info.size != Some(rf.hash.len() as u32) || i.hash_table_info.offset != rf.hash_pos {
        return Err(format!("hash table info {:?}", i.hash_table_info));
    }
    if i.block_table_info.size != Some(rf.block.len() as u32) || i.block_table_info.offset != rf.block_pos {
        return Err(format!("block table info {:?}", i.block_table_info));
    }
    if i.path != t.path() || i.hi_block_table_info.is_some() != (rf.hi_pos != 0) {
        return Err(format!("info: path {:?}, hi-block table {:?}", i.path, i.hi_block_table_info));
    }
    if c.version < FormatVersion::V3 && i.max_file_count != rf.hash_count {
        return Err(format!("max_file_count {} with a hash table of {}", i.max_file_count, rf.hash_count));
    }
    if c.version == FormatVersion::V4 {
        // order in the header: hash, block, hi-block, HET, BET
        let got = [i.hash_table_info.compressed_size, i.block_table_info.compressed_size, i.het_table_info.as_ref().and_then(|x| x.compressed_size), i.bet_table_info.as_ref().and_then(|x| x.compressed_size)];
        let want = [rf.sizes64[0], rf.sizes64[1], rf.sizes64[3], rf.sizes64[4]].map(Some);
        if got != want {
            return Err(format!("stored table sizes {:?} instead of {:?}", got, want));
        }
    }
    for (w, x, pos) in [("HET", &i.het_table_info, rf.het_pos), ("BET", &i.bet_table_info, rf.bet_pos)] {
        if let Some(x) = x {
            if x.offset != pos || x.size.is_none_or(|s| (s as usize) < n) {
                return Err(format!("{} table info {:?}, table at {}", w, x, pos));
            }
        }
    }
    let v3 = c.version >= FormatVersion::V3;
    for (w, x) in [("HET", &i.het_table_info), ("BET", &i.bet_table_info)] {
        match x {
            Some(x) if v3 && !x.failed_to_load => {}
            None if !v3 => {}
            _ => return Err(format!("{} table info {:?}", w, x)),
        }
    }
    match (&i.md5_status, c.version) {
        (Some(m), FormatVersion::V4) => {
            if !(m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid) {
                return Err(format!("checksums of a fresh archive: {:?}", m));
            }
        }
        (None, v) if v != FormatVersion::V4 => {}
        (m, _) => return Err(format!("md5 status {:?}", m)),
    }
    // the extended tables agree with the classic ones
    if v3 {
        let bet = a.bet_table().ok_or("BET table not loaded")?;
        if bet.header.file_count as usize != rf.block.len() {
            return Err("BET table has another number of files".into());
        }
        for (k, b) in rf.block.iter().enumerate() {
            let x = bet.get_file_info(k as u32).ok_or(format!("no BET entry {}", k))?;
            if (x.file_pos, x.file_size, x.compressed_size, x.flags) != (b.pos, b.fsize as u64, b.csize as u64, b.flags) {
                return Err(format!("BET entry {} = {:?} but block entry is {:?}", k, (x.file_pos, x.file_size, x.compressed_size, x.flags), b));
            }
        }
    }
    // asking for information disturbs nothing
    check_contents(&mut a, &c.files)?;
    Ok(())
}

/// Archives of another writer: dead blocks, tombstones, locales, hi-block tables, special files.
fn foreign(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for v in 0..4u16 {
        for nfiles in [0usize, 1, 5, 12] {
            for dead in [0usize, 1, 6] {
                for tomb in [0usize, 3] {
                    for special in 0..8u8 {
                        for prefix in [0usize, 1024] {
                            for hi in [false, true] {
                                if hi && v == 0 {
                                    continue;
                                }
                                jobs.push((v, nfiles, dead, tomb, special, prefix, hi));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, nfiles, dead, tomb, special, prefix, hi)| {
        let key = format!("foreign/v{}/n{}/dead{}/del{}/sp{}/at{}/hi{}", v + 1, nfiles, dead, tomb, special, prefix, hi as u8);
        ctx.case(&key, || {
            let mut w = RefWriter::new(v, (nfiles % 3) as u16);
            w.prefix = vec![0x77; prefix];
            w.extra_dead_blocks = dead;
            w.hash_size = if tomb > 0 { 64 } else { 32 };
            w.deleted_slots = (0..tomb).map(|k| k * 7 + 1).collect();
            w.hi_block = hi;
            for k in 0..nfiles {
                let mut f = RefFile::new(&format!("Dir\\f{}", k), content(PATTERNS[k % 7], [0usize, 30, 600, 1500, 5000][k % 5], 512));
                f.single = k % 2 == 0;
                f.method = [0, ZLIB, PKWARE, BZIP2][k % 4];
                if f.data.is_empty() {
                    f.method = 0;
                }
                f.encrypt = k % 3 > 0 && k > 5;
                f.fix_key = k % 3 == 2;
                f.locale = [0u16, 0, 0x409, 0x407][k % 4];
                w.files.push(f);
            }
            let (has_lf, has_at, has_sig) = (special & 1 != 0, special & 2 != 0, special & 4 != 0);
            let listed: Vec<String> = w.files.iter().map(|f| f.name.clone()).collect();
            if has_lf {
                let mut t = listed.join("\r\n");
                t += "\r\nnot\\there.txt\r\n";
                let mut f = RefFile::new("(listfile)", t.into_bytes());
                f.single = nfiles % 2 == 1;
                f.method = ZLIB;
                w.files.push(f);
            }
            if has_at {
                let blocks = w.files.len() + dead + 1 + has_sig as usize;
                let mut d = vec![100u8, 0, 0, 0, 1, 0, 0, 0];
                d.resize(8 + 4 * blocks, 3);
                w.files.push(RefFile::new("(attributes)", d));
            }
            if has_sig {
                let mut f = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
                f.single = true;
                w.files.push(f);
            }
            let bytes = w.write();
            let ra = RefArchive::parse(&bytes).map_err(|m| format!("reference reader: {}", m))?;
            let t = Tmp::of(ctx, &bytes);
            let mut a = t.open()?;
            let mut all = vec![];
            for f in &w.files {
                let h = ra.lookup(&f.name, f.locale).ok_or("reference lookup")?;
                let b = &ra.block[h.block as usize];
                all.push(((b.fsize as u64, b.csize as u64, b.flags), (h.a, h.b), f.name.clone()));
                let i = e("find_file", a.find_file(&f.name))?.ok_or(format!("{:?} not found", f.name))?;
                if (i.file_size, i.compressed_size, i.flags, i.block_index, i.locale, i.file_pos) != (b.fsize as u64, b.csize as u64, b.flags, h.block as usize, f.locale, prefix as u64 + b.pos) {
                    return Err(format!("find_file({:?}) = {:?}", f.name, i));
                }
            }
            let l = e("list", a.list())?;
            if has_lf {
                let got: Vec<(String, (u64, u64, u32))> = l.iter().map(|x| (x.name.clone(), (x.size, x.compressed_size, x.flags))).collect();
                let want: Vec<(String, (u64, u64, u32))> = listed.iter().map(|n| (n.clone(), all.iter().find(|x| x.2 == *n).unwrap().0)).collect();
                if got != want {
                    return Err(format!("list() = {:?}, expected {:?}", got, want));
                }
            } else if l.len() != all.len() {
                return Err(format!("list() without a list file gives {} entries for {} files", l.len(), all.len()));
            }
            let mut want: Vec<_> = all.iter().map(|x| x.0).collect();
            want.sort();
            for (what, v) in [("list_all", e("list_all", a.list_all())?), ("list_all_with_hashes", e("list_all_with_hashes", a.list_all_with_hashes())?)] {
                let mut g: Vec<_> = v.iter().map(|x| (x.size, x.compressed_size, x.flags)).collect();
                g.sort();
                if g != want {
                    return Err(format!("{} = {:?}, stored {:?}", what, g, want));
                }
                if what.ends_with("hashes") {
                    for x in &v {
                        if !all.iter().any(|y| Some(y.1) == x.hashes && y.0 == (x.size, x.compressed_size, x.flags)) {
                            return Err(format!("list_all_with_hashes: {:?} is no stored file", x));
                        }
                    }
                }
            }
            let i = e("get_info", a.get_info())?;
            if (i.file_count, i.max_file_count, i.format_version as u16, i.sector_size) != (all.len(), w.hash_size as u32, v, 512 << (nfiles % 3)) {
                return Err(format!("info: {} files of {}, version {:?}, sector {}", i.file_count, i.max_file_count, i.format_version, i.sector_size));
            }
            if (i.file_size, i.archive_offset) != (bytes.len() as u64, prefix as u64) || i.path != t.path() {
                return Err(format!("info: size {}, offset {}, path {:?}", i.file_size, i.archive_offset, i.path));
            }
            if (i.has_listfile, i.has_attributes, i.has_signature) != (has_lf, has_at, has_sig) {
                return Err(format!("info: list file {}, attributes {}, signature {}", i.has_listfile, i.has_attributes, i.has_signature));
            }
            if i.is_encrypted != w.files.iter().any(|f| f.encrypt) || i.user_data_info.is_some() {
                return Err(format!("info: encrypted {}, user data {:?}", i.is_encrypted, i.user_data_info));
            }
            let tab = |x: &mopaq::TableInfo| (x.size, x.offset, x.failed_to_load);
            if tab(&i.hash_table_info) != (Some(ra.hash_count), ra.hash_pos, false) || tab(&i.block_table_info) != (Some(ra.block_count), ra.block_pos, false) {
                return Err(format!("info: tables {:?} {:?}", i.hash_table_info, i.block_table_info));
            }
            if i.hi_block_table_info.as_ref().map(tab) != (ra.hi_pos != 0).then_some((Some(ra.block_count), ra.hi_pos, false)) {
                return Err(format!("info: hi-block table {:?}", i.hi_block_table_info));
            }
            if i.het_table_info.is_some() || i.bet_table_info.is_some() {
                return Err("info: extended tables of an archive that has none".into());
            }
            ctx.distinct(&key);
            Ok(())
        });
    });
}

/// BET tables laid out by another writer: order and width of the fields, list of flags, compression, deleted files.
fn foreign_bet(ctx: &'static Ctx) {
    let mut jobs = vec![];
    for v in [2u16, 3] {
        for o in 0..24usize {
            let mut left = vec![0usize, 1, 2, 3];
            let order = [left.remove(o / 6), left.remove(o % 6 / 2), left.remove(o % 2), left.remove(0)];
            for wider in [[0u32; 4], [1, 2, 3, 4], [32, 9, 5, 14]] {
                for unknown in [(0u32, false), (5, true), (11, false)] {
                    for odd_flags in [false, true] {
                        for codec in [0u8, ZLIB, BZIP2] {
                            for gone in 0..8usize {
                                if ctx.thorough || (o + gone + wider[0] as usize + unknown.0 as usize + codec as usize / 2) % 4 == 0 || o == 0 {
                                    jobs.push((v, gone, r::Ext { order, wider, unknown, odd_flags, codec }));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.par(&jobs, |(v, gone, x)| {
        let key = format!("bet/v{}/order{:?}/wider{:?}/unknown{:?}/flags{}/{}/gone{}", v + 1, x.order, x.wider, x.unknown, x.odd_flags as u8, mname(x.codec), gone);
        ctx.case(&key, || {
            let mut w = RefWriter::new(*v, 0);
            for k in 0..5usize {
                let mut f = RefFile::new(&format!("Dir\\a{}", k), content("text", [700usize, 30, 2600, 1, 0][k], 512));
                f.single = k % 2 == 0;
                f.method = if k < 3 { ZLIB } else { 0 };
                f.encrypt = k == 2;
                w.files.push(f);
            }
            w.gone = (0..3).filter(|k| gone >> k & 1 == 1).map(|k| (k, 1 + (k % 2) as u8)).collect();
            w.extra_dead_blocks = x.odd_flags as usize * 2;
            w.hi_block = x.unknown.1;
            w.ext = Some(x.clone());
            let bytes = w.write();
            let ra = RefArchive::parse(&bytes).map_err(|m| format!("reference reader: {}", m))?;
            let t = Tmp::of(ctx, &bytes);
            let mut a = t.open()?;
            a.het_table().ok_or("HET table not loaded")?;
            let bt = a.bet_table().ok_or("BET table not loaded")?;
            for (i, b) in ra.block.iter().enumerate() {
                let g = bt.get_file_info(i as u32).ok_or(format!("no BET entry {}", i))?;
                if (g.file_pos, g.file_size, g.compressed_size, g.flags) != (b.pos, b.fsize as u64, b.csize as u64, b.flags) {
                    return Err(format!("BET entry {} = {:?}, stored {:?}", i, g, b));
                }
            }
            if bt.get_file_info(ra.block.len() as u32).is_some() {
                return Err("BET entry behind the last".into());
            }
            let mut want = vec![];
            for (k, f) in w.files.iter().enumerate() {
                let dead = w.gone.iter().any(|g| g.0 == k);
                let i = a.find_file(&f.name).map_err(|e| format!("find_file: {}", e))?;
                match i {
                    Some(i) if !dead => {
                        want.push((i.file_size, i.compressed_size, i.flags));
                        diff(&a.read_file(&f.name).map_err(|e| e.to_string())?, &f.data)?;
                    }
                    None if dead => (),
                    i => return Err(format!("find_file({:?}) = {:?}, deleted: {}", f.name, i.map(|i| i.flags), dead)),
                }
            }
            let mut stored: Vec<_> = ra.block.iter().filter(|b| b.flags & r::EXISTS != 0).map(|b| (b.fsize as u64, b.csize as u64, b.flags)).collect();
            stored.sort();
            want.sort();
            if want != stored {
                return Err(format!("find_file gives {:?}, stored {:?}", want, stored));
            }
            for (what, l) in [("list", a.list()), ("list_all", a.list_all()), ("list_all_with_hashes", a.list_all_with_hashes())] {
                let l = l.map_err(|e| format!("{}: {}", what, e))?;
                let mut g: Vec<_> = l.iter().map(|x| (x.size, x.compressed_size, x.flags)).collect();
                g.sort();
                if g != want {
                    return Err(format!("{} = {:?}, stored {:?}", what, g, want));
                }
            }
            let i = a.get_info().map_err(|e| e.to_string())?;
            if i.file_count != want.len() || (!i.is_encrypted && want.iter().any(|b| b.2 & r::ENCRYPTED != 0)) {
                return Err(format!("info: {} files, encrypted {}; stored {}", i.file_count, i.is_encrypted, want.len()));
            }
            if let Some(m) = &i.md5_status {
                if !(m.bet_table_valid && m.het_table_valid && m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.header_valid) {
                    return Err(format!("digests {:?}", m));
                }
            }
            ctx.distinct(&key);
            Ok(())
        });
    });
}

pub fn run(ctx: &'static Ctx) {
    ctx.rule("matrix of version x sector size x checksums x listfile option x table codec x file-set shape; every listing and information query of each archive compared with the independent reader's view; plus external listfiles of every small shape; non-trivial = distinct archives");
    let m = matrix(ctx.thorough);
    ctx.par(&m, |(k, c)| {
        ctx.case(k, || {
            check(ctx, c)?;
            ctx.distinct(k);
            Ok(())
        });
    });
    // file counts around every table-size boundary
    let top = if ctx.deep { 1200 } else { 300 };
    ctx.par_range(top, |n| {
        for v in VERSIONS {
            for lf in [Lf::Gen, Lf::None] {
                let k = format!("count/{:?}/{:?}/{}", v, lf, n);
                ctx.case(&k, || {
                    let mut c = Cfg::new(v, 0);
                    c.lf = lf;
                    for i in 0..n {
                        c.files.push(F::with(&format!("f{}", i), vec![7; (i * i) % 900], [ZLIB, 0][i % 2], Enc::No));
                    }
                    check(ctx, &c)?;
                    ctx.distinct(&k);
                    Ok(())
                });
            }
        }
    });
    // many files, names that begin or end with every printable character the listfile can express
    let mut jobs: Vec<(String, Cfg)> = vec![];
    for v in VERSIONS {
        for lf in [Lf::Gen, Lf::None, Lf::Ext] {
            for n in if ctx.thorough { vec![256usize, 257, 300, 1000, 5000, 70_000] } else { vec![257usize, 300, 1000] } {
                let mut c = Cfg::new(v, 0);
                c.lf = lf;
                for i in 0..n {
                    c.files.push(F::with(&format!("f{}", i), vec![7; 1 + i % 300], 0, Enc::No));
                }
                jobs.push((format!("lots/{:?}/{:?}/{}", v, lf, n), c));
            }
            let mut c = Cfg::new(v, 0);
            c.lf = lf;
            for b in 0x21..0x7fu8 {
                let ch = b as char;
                if ch == ';' || ch.is_ascii_lowercase() {
                    continue;
                }
                if ch != '#' && ch != '/' {
                    c.files.push(F::with(&format!("{}lead", ch), vec![b; b as usize], 0, Enc::No));
                }
                if ch == '/' {
                    c.files.push(F::with("/lead2", vec![b; b as usize], 0, Enc::No));
                    c.files.push(F::with("//lead3", vec![b; b as usize + 1], 0, Enc::No));
                }
                c.files.push(F::with(&format!("mid{}dle", if ch == '/' { '_' } else { ch }), vec![b; 300 + b as usize], ZLIB, Enc::No));
                c.files.push(F::with(&format!("trail{}", if ch == '/' { "_2" } else { "" }).replace("trail", &format!("trail{}", if ch == '/' { '=' } else { ch })), vec![b; 600 + b as usize], ZLIB, Enc::No));
            }
            let mut seen = std::collections::HashSet::new();
            c.files.retain(|f| seen.insert(r::norm_name(&f.name)));
            jobs.push((format!("chars/{:?}/{:?}", v, lf), c));
        }
        if v == FormatVersion::V1 || v == FormatVersion::V4 || ctx.thorough {
            let mut c = Cfg::new(v, 0);
            c.tables = if v >= FormatVersion::V3 { Some(ZLIB) } else { None };
            for i in 0..66_000 {
                c.files.push(F::with(&format!("f{}", i), vec![7; 1 + i % 3], 0, Enc::No));
            }
            jobs.push((format!("lots/{:?}/66000", v), c));
        }
    }
    // one file that differs from all others in one respect, at every place among them
    for v in VERSIONS {
        for n in if ctx.thorough { vec![1usize, 2, 3, 20, 100, 300] } else { vec![1, 3, 100] } {
            for at in 0..n {
                if n > 20 && at % 9 != 0 && at != n - 1 {
                    continue;
                }
                for odd in 0..4 {
                    let mut c = Cfg::new(v, 0);
                    c.lf = if (at + odd) % 2 == 0 { Lf::Gen } else { Lf::None };
                    for i in 0..n {
                        let o = i == at;
                        let f = F::with(&format!("f{}", i), vec![b'x'; if o && odd == 3 { 5000 } else { 20 + i % 3 }], if odd == 1 && o { ZLIB } else { 0 }, if odd == 0 && o { Enc::Plain } else if odd == 2 && o { Enc::Fix } else { Enc::No });
                        c.files.push(f);
                    }
                    jobs.push((format!("one-of/{:?}/{}/{}/{}", v, n, at, odd), c));
                }
            }
        }
    }
    jobs.sort_by_key(|(_, c)| std::cmp::Reverse(c.files.len()));
    ctx.par(&jobs, |(k, c)| {
        ctx.case(k, || {
            check(ctx, c)?;
            ctx.distinct(k);
            Ok(())
        });
    });
    foreign(ctx);
    foreign_bet(ctx);
    // list files that name many files that are not there
    let mut jobs = vec![];
    for v in VERSIONS {
        for n in [1usize, 2, 40, 400, 1500] {
            for pattern in 0..6usize {
                jobs.push((v, n, pattern));
            }
        }
    }
    ctx.par(&jobs, |&(v, n, pattern)| {
        ctx.case(&format!("ghosts/{:?}/{}/{}", v, n, pattern), || {
            let mut text = String::new();
            let mut ghost = 0;
            for i in 0..n {
                // ghosts: all in front, one before each, one after each hundredth, many before the last, only behind, every other twice
                let g = match pattern {
                    0 => if i == 0 { 700 } else { 0 },
                    1 => 1,
                    2 => (i % 100 == 99) as usize,
                    3 => if i == n - 1 { 3000 } else { 0 },
                    4 => 0,
                    _ => i % 2 * 2,
                };
                for _ in 0..g {
                    ghost += 1;
                    text += &format!("gone\\g{}.txt\r\n", ghost);
                }
                text += &format!("dir\\f{}.txt\r\n", i);
            }
            text += "gone\\last.txt\r\n";
            let lp = Tmp::of(ctx, text.as_bytes());
            let out = Tmp(ctx.file("gh.mpq"));
            let mut b = mopaq::ArchiveBuilder::new().version(v).listfile_option(mopaq::ListfileOption::External(lp.path().to_path_buf()));
            for i in 0..n {
                b = b.add_file_data(vec![i as u8; 1 + i % 200], &format!("dir\\f{}.txt", i));
            }
            b.build(out.path()).map_err(|e| e.to_string())?;
            let mut a = out.open()?;
            for (what, l) in [("list", a.list()), ("list_with_hashes", a.list_with_hashes())] {
                let got: Vec<(String, u64)> = l.map_err(|e| e.to_string())?.into_iter().map(|x| (x.name, x.size)).collect();
                for i in 0..n.max(got.len()) {
                    let want = (i < n).then(|| (format!("dir\\f{}.txt", i), 1 + i as u64 % 200));
                    if got.get(i) != want.as_ref() {
                        return Err(format!("{}: entry {} is {:?} instead of {:?}", what, i, got.get(i), want));
                    }
                }
            }
            ctx.distinct(&("ghosts", v as u16, n, pattern));
            Ok(())
        });
    });
    // external listfiles: every sequence of up to 3 lines from a line alphabet, every line ending
    let lines = ["a.txt", "A.TXT", "dir\\b.txt", "ghost.txt", "", "; comment", "# comment", "a.txt;1234", "  dir\\b.txt  ", ";", "\t#"];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..if ctx.deep { 5 } else { 4 } {
        let mut nx = vec![];
        for s in &cur {
            for i in 0..lines.len() {
                let mut q = s.clone();
                q.push(i);
                nx.push(q);
            }
        }
        seqs.extend(nx.iter().cloned());
        cur = nx;
    }
    let parse = |l: &str| -> Option<String> {
        let l = l.trim();
        if l.is_empty() || l.starts_with(';') || l.starts_with('#') {
            return None;
        }
        Some(l.split(';').next().unwrap().trim().to_string())
    };
    ctx.par_range(seqs.len(), |si| {
        let s = &seqs[si];
        let v = VERSIONS[si % 4];
        for (ei, (sep, tail)) in [("\n", "\n"), ("\r\n", "\r\n"), ("\n", ""), ("\r\n", "")].iter().enumerate() {
            if !ctx.thorough && si > 200 && ei != si % 4 {
                continue;
            }
            ctx.case(&format!("external/{:?}/{:?}/{}", v, s, ei), || {
                let text = s.iter().map(|i| lines[*i]).collect::<Vec<_>>().join(sep) + if s.is_empty() { "" } else { tail };
                let lp = Tmp::of(ctx, text.as_bytes());
                let out = Tmp(ctx.file("ext.mpq"));
                mopaq::ArchiveBuilder::new()
                    .version(v)
                    .listfile_option(mopaq::ListfileOption::External(lp.path().to_path_buf()))
                    .add_file_data(b"aaa".to_vec(), "a.txt")
                    .add_file_data(b"bbbbbb".to_vec(), "Dir\\B.txt")
                    .build(out.path())
                    .map_err(|e| e.to_string())?;
                let mut a = out.open()?;
                diff(&a.read_file("(listfile)").map_err(|e| e.to_string())?, text.as_bytes())?;
                let got: Vec<(String, u64)> = a.list().map_err(|e| e.to_string())?.into_iter().map(|x| (x.name, x.size)).collect();
                let want: Vec<(String, u64)> = s
                    .iter()
                    .filter_map(|i| parse(lines[*i]))
                    .filter_map(|n| match n.to_ascii_lowercase().as_str() {
                        "a.txt" => Some((n, 3)),
                        "dir\\b.txt" => Some((n, 6)),
                        _ => None,
                    })
                    .collect();
                if got != want {
                    return Err(format!("list() = {:?}, listfile names the stored files {:?}", got, want));
                }
                let names: Vec<String> = s.iter().filter_map(|i| parse(lines[*i])).collect();
                let parsed = mopaq::special_files::parse_listfile(text.as_bytes()).map_err(|e| e.to_string())?;
                if parsed != names {
                    return Err(format!("parse_listfile({:?}) = {:?}", text, parsed));
                }
                if a.list_all().map_err(|e| e.to_string())?.len() != 3 {
                    return Err("list_all does not show the three stored files".into());
                }
                ctx.distinct(&("ext", v as u16, s.clone(), ei));
                Ok(())
            });
        }
    });
    ctx.sample("matrix", || m[m.len() / 2].0.clone());
    ctx.sample("external", || format!("lines {:?} of {:?}", seqs[seqs.len() - 5], lines));
    ctx.assume("names that the listfile syntax itself cannot express (';', leading '#', surrounding blanks, line breaks) are outside the property");
}
