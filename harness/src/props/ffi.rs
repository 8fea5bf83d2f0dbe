//! The C API: fixture archives, a model of the API, and an executor that performs the same operations on the real one.
use super::common::*;
use super::p14;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr, CString};

pub const E_OK: u32 = 0;
pub const E_NOTFOUND: u32 = 2;
pub const E_HANDLE: u32 = 6;
pub const E_UNSUPPORTED: u32 = 50;
pub const E_PARAM: u32 = 87;
pub const E_BUFFER: u32 = 122;
pub const E_EXISTS: u32 = 183;
pub const E_CORRUPT: u32 = 1392;

#[derive(Clone, Debug)]
pub struct FileSpec {
    pub name: String,
    pub data: Vec<u8>,
    pub crc: bool,
    pub damaged: bool,
    /// Some(correct?)
    pub attr_crc: Option<bool>,
    pub attr_md5: Option<bool>,
}
#[derive(Clone, Debug)]
pub struct ArchSpec {
    pub path: String,
    pub size: u64,
    pub hash: u32,
    pub block: u32,
    pub sector: u32,
    pub files: Vec<FileSpec>,
    /// None: names are not known
    pub listing: Option<Vec<String>>,
    pub bad_signature: bool,
}
#[derive(Debug)]
pub struct Fixture {
    pub dir: String,
    pub arch: Vec<ArchSpec>,
}

fn spec(path: &str, files: Vec<FileSpec>, listing: Option<Vec<String>>, bad_signature: bool) -> ArchSpec {
    let d = std::fs::read(path).unwrap();
    let a = RefArchive::parse(&d).unwrap();
    ArchSpec { path: path.into(), size: d.len() as u64, hash: a.hash_count, block: a.block_count, sector: a.sector() as u32, files, listing, bad_signature }
}
fn fs(name: &str, data: Vec<u8>) -> FileSpec {
    FileSpec { name: name.into(), data, crc: false, damaged: false, attr_crc: None, attr_md5: None }
}

/// Archives: 0 good, 1 attributes and damage, 2 attributes all right, 3 signed, 4 badly signed, 5.. one bad file with an odd name.
pub fn fixture(dir: &std::path::Path) -> Fixture {
    let p = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let mut arch = vec![];
    // 0
    let f0 = vec![fs("a.txt", b"0123456789".to_vec()), fs("Dir\\b.bin", content("mix", 1300, 512)), fs("empty", vec![])];
    let mut b = mopaq::ArchiveBuilder::new().version(mopaq::FormatVersion::V2).block_size(0);
    for (i, f) in f0.iter().enumerate() {
        b = b.add_file_data_with_options(f.data.clone(), &f.name, ZLIB, i == 1, 0);
    }
    b.build(p("good.mpq")).unwrap();
    let mut l: Vec<String> = f0.iter().map(|f| f.name.clone()).collect();
    l.push("(listfile)".into());
    arch.push(spec(&p("good.mpq"), f0, Some(l), false));
    // 1, 2
    let with_attributes = |k: usize, files: Vec<FileSpec>| {
        let n = files.len() + 2;
        let mut att = vec![100u8, 0, 0, 0, 5, 0, 0, 0];
        let lf = files.iter().map(|f| f.name.clone() + "\r\n").collect::<String>() + "(attributes)\r\n(listfile)\r\n";
        for i in 0..n {
            let c = match files.get(i) {
                Some(f) => crc32fast::hash(&f.data) ^ (f.attr_crc == Some(false)) as u32,
                None => 0x1234,
            };
            att.extend(c.to_le_bytes());
        }
        for i in 0..n {
            let mut m = files.get(i).map(|f| r::md5(&f.data)).unwrap_or([3; 16]);
            if files.get(i).is_some_and(|f| f.attr_md5 == Some(false)) {
                m[7] ^= 0x20;
            }
            att.extend(m);
        }
        let mut w = RefWriter::new(0, 0);
        for f in &files {
            let mut x = RefFile::new(&f.name, f.data.clone());
            x.crc = f.crc;
            x.method = if f.crc { ZLIB as u8 } else { 0 };
            w.files.push(x);
        }
        w.files.push(RefFile::new("(attributes)", att));
        w.files.push(RefFile::new("(listfile)", lf.into_bytes()));
        let mut d = w.write();
        if files.iter().any(|f| f.damaged) {
            let at = {
                let a = RefArchive::parse(&d).unwrap();
                let h = a.lookup("sub\\damaged.bin", 0).unwrap();
                let b = &a.block[h.block as usize];
                super::p09::protected(&a, "sub\\damaged.bin", b).into_iter().find(|x| x.2 == "data").unwrap().0 + 20
            };
            d[at] ^= 0x40;
        }
        let path = p(&format!("attr{}.mpq", k));
        std::fs::write(&path, &d).unwrap();
        let mut l: Vec<String> = files.iter().map(|f| f.name.clone()).collect();
        l.extend(["(attributes)".to_string(), "(listfile)".to_string()]);
        spec(&path, files, Some(l), false)
    };
    for k in [1usize, 2] {
        arch.push(with_attributes(k, vec![
            FileSpec { attr_crc: Some(true), attr_md5: Some(true), ..fs("ok.txt", content("text", 40, 512)) },
            FileSpec { crc: true, attr_crc: Some(true), attr_md5: Some(true), ..fs("okcrc.bin", content("text", 1100, 512)) },
            FileSpec { crc: true, damaged: k == 1, attr_crc: Some(true), attr_md5: Some(true), ..fs("sub\\damaged.bin", content("text", 600, 512)) },
            FileSpec { attr_crc: Some(k == 2), attr_md5: Some(true), ..fs("wrongcrc.txt", content("text", 30, 512)) },
            FileSpec { attr_crc: Some(true), attr_md5: Some(k == 2), ..fs("wrongmd5.txt", content("text", 31, 512)) },
        ]));
    }
    // 3, 4
    for k in [3usize, 4] {
        let mut w = RefWriter::new(0, 0);
        let f = fs("f", content("text", 50, 512));
        w.files.push(RefFile::new("f", f.data.clone()));
        let mut s = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
        s.single = true;
        w.files.push(s);
        let mut d = w.write();
        let pos = p14::sign_archive(&mut d).unwrap();
        if k == 4 {
            d[pos + 30] ^= 1;
        }
        let path = p(&format!("sig{}.mpq", k));
        std::fs::write(&path, &d).unwrap();
        arch.push(spec(&path, vec![f], None, k == 4));
    }
    // 5..: the only bad file has a name that looks a little like that of a special file
    for (i, n) in ["(odd", "odd)", "(a)b", "a(b)", ")x("].into_iter().enumerate() {
        let good = || FileSpec { attr_crc: Some(true), attr_md5: Some(true), ..fs("ok.txt", content("text", 40, 512)) };
        arch.push(with_attributes(5 + i, vec![good(), FileSpec { attr_crc: Some(i % 2 == 0), attr_md5: Some(i % 2 == 1), ..fs(n, content("text", 30, 512)) }]));
    }
    std::fs::write(p("junk.mpq"), vec![0x41u8; 3000]).unwrap();
    Fixture { dir: dir.to_str().unwrap().into(), arch }
}

/// Three archives with the same names and other contents.
pub fn twins(dir: &std::path::Path) -> Fixture {
    let mut arch = vec![];
    for k in 0..3usize {
        let files = vec![
            fs("a.txt", [&b"0123456789"[..], b"abc", b"9876543210"][k].to_vec()),
            fs("Dir\\b.bin", content(["mix", "text", "noise"][k], 1300 + (k & 1), 512)),
            fs(["only0", "only1", "only0"][k], vec![k as u8 + 1; 5]),
        ];
        let mut w = RefWriter::new(k as u16 & 1, 0);
        let mut l: Vec<String> = files.iter().map(|f| f.name.clone()).collect();
        for f in &files {
            let mut x = RefFile::new(&f.name, f.data.clone());
            x.method = if k == 1 { ZLIB as u8 } else { 0 };
            w.files.push(x);
        }
        w.files.push(RefFile::new("(listfile)", (l.join("\r\n") + "\r\n(listfile)\r\n").into_bytes()));
        l.push("(listfile)".into());
        let path = dir.join(format!("twin{}.mpq", k)).to_str().unwrap().to_string();
        std::fs::write(&path, w.write()).unwrap();
        arch.push(spec(&path, files, Some(l), false));
    }
    Fixture { dir: dir.to_str().unwrap().into(), arch }
}

// ------------------------------------------------------------------ operations

/// A handle argument: null, a value never handed out, or what a variable holds (0, 1: archives; 2, 3: files).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum H {
    Null,
    Bogus,
    V(usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Src {
    Arch(usize),
    Junk,
    Missing,
    NullName,
    NullOut,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cb {
    All,
    Stop,
    /// asks for the presence of the first name, from inside the callback
    Reenter,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    OpenArchive(Src, usize),
    CloseArchive(H),
    /// name None = null pointer; out None = null pointer
    OpenFile(H, Option<&'static str>, Option<usize>),
    CloseFile(H),
    Read(H, u32, bool),
    ReadNull(H),
    Size(H, bool),
    Seek(H, i32, Option<i32>, u32),
    Has(H, Option<&'static str>),
    Info(H, u32, u32),
    ArchName(H, u32),
    /// buffer size relative to what is needed
    ArchNameFit(H, i32),
    FileName(H, bool),
    Enum(H, Option<&'static str>, Cb),
    EnumNull(H),
    Extract(H, &'static str),
    VerifyFile(H, &'static str, u32),
    VerifyArchive(H, u32),
    SetLocale(u32),
    GetLocale,
    SetErr(u32),
    /// (before: 0 nothing, 1 an archive, 2 some other file; disposition, hash table size)
    Create(u8, u32, u32, usize),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Res {
    pub ret: u64,
    pub out: Vec<u8>,
    pub err: u32,
}
fn res(ret: u64, out: Vec<u8>, err: u32) -> Res {
    Res { ret, out, err }
}

// ------------------------------------------------------------------ model

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Obj {
    Arch(usize),
    File { arch: u32, kind: usize, file: usize, pos: usize, name: &'static str },
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Model {
    pub vars: [Option<u32>; 8],
    pub objs: BTreeMap<u32, Obj>,
    pub next: u32,
    pub locale: [u32; 4],
    pub err: [u32; 4],
}
pub fn same_name(a: &str, b: &str) -> bool {
    r::norm_name(a) == r::norm_name(b)
}

impl Model {
    pub fn tok(&self, h: H) -> Option<u32> {
        match h {
            H::V(v) => self.vars[v],
            _ => None,
        }
    }
    pub fn live(&self, v: usize) -> bool {
        self.vars[v].is_some_and(|t| self.objs.contains_key(&t))
    }
    fn alloc(&mut self, o: Obj) -> u32 {
        self.next += 1;
        self.objs.insert(self.next, o);
        self.next
    }
    fn arch(&self, h: H) -> Option<(u32, usize)> {
        let t = self.tok(h)?;
        match self.objs.get(&t) {
            Some(Obj::Arch(k)) => Some((t, *k)),
            _ => None,
        }
    }
    fn file(&self, h: H) -> Option<(u32, usize, usize, usize, &'static str)> {
        let t = self.tok(h)?;
        match self.objs.get(&t) {
            Some(Obj::File { kind, file, pos, name, .. }) => Some((t, *kind, *file, *pos, name)),
            _ => None,
        }
    }
    fn seek(&mut self, t: u32, p: usize) {
        if let Some(Obj::File { pos, .. }) = self.objs.get_mut(&t) {
            *pos = p;
        }
    }
    /// What the API must do: return value, output, last error.
    pub fn step(&mut self, fx: &Fixture, th: usize, op: &Op) -> Res {
        let r = self.step_(fx, th, op);
        self.err[th] = r.err;
        r
    }
    fn step_(&mut self, fx: &Fixture, th: usize, op: &Op) -> Res {
        let fail = |e: u32| res(0, vec![], e);
        match *op {
            Op::OpenArchive(s, v) => match s {
                Src::Arch(k) => {
                    let t = self.alloc(Obj::Arch(k));
                    self.vars[v] = Some(t);
                    res(1, vec![], E_OK)
                }
                Src::Junk => fail(E_CORRUPT),
                Src::Missing => fail(E_NOTFOUND),
                Src::NullName | Src::NullOut => fail(E_PARAM),
            },
            Op::CloseArchive(h) => match self.arch(h) {
                Some((t, _)) => {
                    self.objs.remove(&t);
                    self.objs.retain(|_, o| !matches!(o, Obj::File { arch, .. } if *arch == t));
                    res(1, vec![], E_OK)
                }
                None => fail(E_HANDLE),
            },
            Op::OpenFile(h, name, out) => {
                let (Some(name), Some(out)) = (name, out) else { return fail(E_PARAM) };
                let Some((t, k)) = self.arch(h) else { return fail(E_HANDLE) };
                let Some(i) = fx.arch[k].files.iter().position(|f| same_name(&f.name, name)) else { return fail(E_NOTFOUND) };
                if fx.arch[k].files[i].damaged {
                    return fail(E_CORRUPT);
                }
                let n = self.alloc(Obj::File { arch: t, kind: k, file: i, pos: 0, name });
                self.vars[out] = Some(n);
                res(1, vec![], E_OK)
            }
            Op::CloseFile(h) => match self.file(h) {
                Some((t, ..)) => {
                    self.objs.remove(&t);
                    res(1, vec![], E_OK)
                }
                None => fail(E_HANDLE),
            },
            Op::Read(h, n, _) => {
                let Some((t, k, i, pos, _)) = self.file(h) else { return fail(E_HANDLE) };
                let d = &fx.arch[k].files[i].data;
                let end = (pos + n as usize).min(d.len());
                self.seek(t, end);
                res(1, d[pos..end].to_vec(), E_OK)
            }
            Op::ReadNull(_) => fail(E_PARAM),
            Op::Size(h, _) => match self.file(h) {
                Some((_, k, i, ..)) => res(fx.arch[k].files[i].data.len() as u64, vec![], E_OK),
                None => res(0xFFFFFFFF, vec![], E_HANDLE),
            },
            Op::Seek(h, low, high, method) => {
                let Some((t, k, i, pos, _)) = self.file(h) else { return res(0xFFFFFFFF, vec![], E_HANDLE) };
                let len = fx.arch[k].files[i].data.len() as i128;
                let off: i128 = match high {
                    None => low as i128,
                    Some(h) => (((h as u32 as u64) << 32 | low as u32 as u64) as i64) as i128,
                };
                let base = match method {
                    0 => 0,
                    1 => pos as i128,
                    2 => len,
                    _ => return res(0xFFFFFFFF, vec![], E_PARAM),
                };
                if base + off < 0 {
                    return res(0xFFFFFFFF, vec![], E_PARAM);
                }
                let p = (base + off).min(len) as usize;
                self.seek(t, p);
                res(p as u64, vec![], E_OK)
            }
            Op::Has(h, name) => {
                let Some(name) = name else { return fail(E_PARAM) };
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                if fx.has(k, name) {
                    res(1, vec![], E_OK)
                } else {
                    fail(E_NOTFOUND)
                }
            }
            Op::Info(h, class, size) => {
                let v: Option<Vec<u8>> = if let Some((_, k, i, pos, _)) = self.file(h) {
                    match class {
                        7 => Some((fx.arch[k].files[i].data.len() as u64).to_le_bytes().to_vec()),
                        10 => Some((pos as u64).to_le_bytes().to_vec()),
                        _ => None,
                    }
                } else if let Some((_, k)) = self.arch(h) {
                    let a = &fx.arch[k];
                    match class {
                        1 => Some(a.size.to_le_bytes().to_vec()),
                        2 => Some(a.hash.to_le_bytes().to_vec()),
                        3 => Some(a.block.to_le_bytes().to_vec()),
                        4 => Some(a.sector.to_le_bytes().to_vec()),
                        _ => None,
                    }
                } else {
                    return fail(E_HANDLE);
                };
                match v {
                    None => fail(E_UNSUPPORTED),
                    Some(v) if v.len() > size as usize => res(0, vec![v.len() as u8], E_BUFFER),
                    Some(v) => res(1, [vec![v.len() as u8], v].concat(), E_OK),
                }
            }
            Op::ArchName(h, size) => {
                if size == 0 {
                    return fail(E_PARAM);
                }
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                name_out(&fx.arch[k].path, size as usize)
            }
            Op::ArchNameFit(h, d) => {
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                let p = &fx.arch[k].path;
                name_out(p, (p.len() as i32 + 1 + d) as usize)
            }
            Op::FileName(h, null) => {
                if null {
                    return fail(E_PARAM);
                }
                match self.file(h) {
                    Some((.., name)) => res(1, [name.as_bytes(), &[0]].concat(), E_OK),
                    None => fail(E_HANDLE),
                }
            }
            Op::Enum(h, _mask, cb) => {
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                let mut out = vec![];
                if let Some(l) = &fx.arch[k].listing {
                    let mut l = l.clone();
                    l.sort();
                    match cb {
                        Cb::All => l.iter().for_each(|n| out.extend([n.as_bytes(), &[0]].concat())),
                        Cb::Stop => out = b"one".to_vec(),
                        Cb::Reenter => out = b"present".to_vec(),
                    }
                }
                res(1, out, E_OK)
            }
            Op::EnumNull(_) => fail(E_PARAM),
            Op::Extract(h, name) => {
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                match fx.arch[k].files.iter().find(|f| same_name(&f.name, name)) {
                    None => fail(E_NOTFOUND),
                    Some(f) if f.damaged => fail(E_CORRUPT),
                    Some(f) => res(1, f.data.clone(), E_OK),
                }
            }
            Op::VerifyFile(h, name, flags) => {
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                match fx.arch[k].files.iter().find(|f| same_name(&f.name, name)) {
                    None => fail(E_NOTFOUND),
                    Some(f) => {
                        if verifies(f, flags) {
                            res(1, vec![], E_OK)
                        } else {
                            fail(E_CORRUPT)
                        }
                    }
                }
            }
            Op::VerifyArchive(h, flags) => {
                let Some((_, k)) = self.arch(h) else { return fail(E_HANDLE) };
                let a = &fx.arch[k];
                let flags = if flags == 0 { 0x10 } else { flags };
                let bad = (flags & 0x10 != 0 && a.bad_signature) || (flags & 0x20 != 0 && a.listing.is_some() && a.files.iter().any(|f| !verifies(f, 7)));
                if bad {
                    fail(E_CORRUPT)
                } else {
                    res(1, vec![], E_OK)
                }
            }
            Op::SetLocale(l) => {
                let old = std::mem::replace(&mut self.locale[th], l);
                res(old as u64, vec![], self.err[th])
            }
            Op::GetLocale => res(self.locale[th] as u64, vec![], self.err[th]),
            Op::SetErr(e) => res(0, vec![], e),
            Op::Create(before, disp, hash, v) => {
                let exists = before > 0;
                if hash < 4 || hash & (hash - 1) != 0 {
                    return fail(E_PARAM);
                }
                match disp {
                    1 if exists => return fail(E_EXISTS),
                    5 if !exists => return fail(E_NOTFOUND),
                    4 if before == 2 => return fail(E_CORRUPT),
                    1 | 2 | 4 | 5 => {}
                    _ => return fail(E_PARAM),
                }
                // opened: the existing archive or a new empty one
                let t = self.alloc(Obj::Arch(if disp == 4 && exists { 100 } else { 101 }));
                self.vars[v] = Some(t);
                res(1, vec![(disp == 4 && exists) as u8], E_OK)
            }
        }
    }
    /// The state with handle values renamed, for comparing states.
    pub fn canon(&self) -> Vec<(usize, String)> {
        let mut v = vec![];
        for (i, t) in self.vars.iter().enumerate() {
            let d = match t {
                None => "unset".into(),
                Some(t) => match self.objs.get(t) {
                    None => "stale".into(),
                    Some(Obj::Arch(k)) => format!("arch{}", k),
                    Some(Obj::File { arch, kind, file, pos, name }) => {
                        format!("file {:?} {} {} {} {}", self.vars.iter().position(|x| *x == Some(*arch)), kind, file, pos, name)
                    }
                },
            };
            v.push((i, d));
        }
        v.push((99, format!("{:?}", self.locale)));
        v
    }
}
fn name_out(p: &str, size: usize) -> Res {
    if p.len() + 1 > size {
        res(0, vec![], E_BUFFER)
    } else {
        res(1, [p.as_bytes(), &[0]].concat(), E_OK)
    }
}
fn verifies(f: &FileSpec, flags: u32) -> bool {
    let flags = if flags == 0 { 0xFF } else { flags };
    !((flags & 1 != 0 && f.crc && f.damaged)
        || (flags & 2 != 0 && f.attr_crc.is_some_and(|ok| f.damaged || !ok))
        || (flags & 4 != 0 && f.attr_md5.is_some_and(|ok| f.damaged || !ok)))
}
impl Fixture {
    pub fn has(&self, k: usize, name: &str) -> bool {
        let a = &self.arch[k];
        a.files.iter().any(|f| same_name(&f.name, name)) || a.listing.as_ref().is_some_and(|l| l.iter().any(|n| same_name(n, name))) || (a.listing.is_none() && name == "(signature)")
    }
}

// ------------------------------------------------------------------ the real API

#[derive(Clone, Debug)]
pub struct Real {
    /// archives are opened at this place, where each takes the place of the one before
    pub via: Option<String>,
    pub vars: [usize; 8],
    /// every handle ever returned to this executor
    pub given: Vec<usize>,
    /// which archive of the fixture a handle stands for
    pub kinds: Vec<(usize, usize)>,
    pub scratch: String,
    /// extract everything a second time, over an existing file
    pub over: bool,
}
struct CbData {
    mode: Cb,
    names: Vec<String>,
    h: usize,
    present: bool,
}
extern "C" fn callback(name: *const c_char, data: *mut c_void) -> bool {
    let d = unsafe { &mut *(data as *mut CbData) };
    d.names.push(unsafe { CStr::from_ptr(name) }.to_str().unwrap_or("?").to_string());
    match d.mode {
        Cb::All => true,
        Cb::Stop => false,
        Cb::Reenter => {
            d.present = unsafe { storm::SFileHasFile(d.h as _, name) };
            false
        }
    }
}

impl Real {
    pub fn new(scratch: String) -> Real {
        Real { vars: [0; 8], given: vec![], kinds: vec![], scratch, over: false, via: None }
    }
    fn h(&self, h: H) -> *mut c_void {
        (match h {
            H::Null => 0,
            H::Bogus => usize::MAX - 12,
            H::V(v) => self.vars[v],
        }) as _
    }
    fn give(&mut self, v: usize, h: usize) -> Result<(), String> {
        if h == 0 {
            return Err("success without a handle".into());
        }
        if self.given.contains(&h) {
            return Err("a handle was given out twice".into());
        }
        self.given.push(h);
        self.vars[v] = h;
        Ok(())
    }
    pub fn cleanup(&mut self) {
        for h in std::mem::take(&mut self.given) {
            storm::SFileCloseArchive(h as _);
            storm::SFileCloseFile(h as _);
        }
        self.vars = [0; 8];
    }
    pub fn step(&mut self, fx: &Fixture, op: &Op) -> Result<Res, String> {
        let (ret, out) = self.call(fx, op)?;
        Ok(res(ret, out, storm::SFileGetLastError()))
    }
    pub fn call(&mut self, fx: &Fixture, op: &Op) -> Result<(u64, Vec<u8>), String> {
        const CANARY: u8 = 0xA7;
        let cs = |s: &str| CString::new(s).unwrap();
        unsafe {
            Ok(match *op {
                Op::OpenArchive(s, v) => {
                    let path = match s {
                        Src::Arch(k) => match &self.via {
                            Some(p) => {
                                let _ = std::fs::remove_file(p);
                                std::fs::copy(&fx.arch[k].path, p).map_err(|e| e.to_string())?;
                                p.clone()
                            }
                            None => fx.arch[k].path.clone(),
                        },
                        Src::Junk => format!("{}/junk.mpq", fx.dir),
                        Src::Missing => format!("{}/missing.mpq", fx.dir),
                        _ => fx.arch[0].path.clone(),
                    };
                    let c = cs(&path);
                    let mut h: storm::HANDLE = 0x77 as _;
                    let ok = storm::SFileOpenArchive(
                        if s == Src::NullName { std::ptr::null() } else { c.as_ptr() },
                        0,
                        0,
                        if s == Src::NullOut { std::ptr::null_mut() } else { &mut h },
                    );
                    if ok {
                        self.give(v, h as usize)?;
                        if let Src::Arch(k) = s {
                            self.kinds.push((h as usize, k));
                        }
                    }
                    (ok as u64, vec![])
                }
                Op::CloseArchive(h) => (storm::SFileCloseArchive(self.h(h)) as u64, vec![]),
                Op::OpenFile(h, name, out) => {
                    let c = name.map(cs);
                    let mut f: storm::HANDLE = 0x77 as _;
                    let ok = storm::SFileOpenFileEx(self.h(h), c.as_ref().map(|c| c.as_ptr()).unwrap_or(std::ptr::null()), 0, if out.is_some() { &mut f } else { std::ptr::null_mut() });
                    if ok {
                        self.give(out.ok_or("opened without a place for the handle")?, f as usize)?;
                    }
                    (ok as u64, vec![])
                }
                Op::CloseFile(h) => (storm::SFileCloseFile(self.h(h)) as u64, vec![]),
                Op::Read(h, n, count) => {
                    let cap = (n as usize).min(4000);
                    let mut b = vec![CANARY; cap + 32];
                    let mut got: u32 = 0xFFFF_0000;
                    let ok = storm::SFileReadFile(self.h(h), b.as_mut_ptr() as _, n, if count { &mut got } else { std::ptr::null_mut() }, std::ptr::null_mut());
                    let end = if !ok {
                        0
                    } else if count {
                        if got > n {
                            return Err(format!("{} bytes reported for a read of {}", got, n));
                        }
                        got as usize
                    } else {
                        b.iter().rposition(|x| *x != CANARY).map(|p| p + 1).unwrap_or(0)
                    };
                    if b[end.min(cap)..].iter().any(|x| *x != CANARY) {
                        return Err("bytes were written beyond the data read".into());
                    }
                    (ok as u64, b[..end].to_vec())
                }
                Op::ReadNull(h) => (storm::SFileReadFile(self.h(h), std::ptr::null_mut(), 4, std::ptr::null_mut(), std::ptr::null_mut()) as u64, vec![]),
                Op::Size(h, high) => {
                    let mut hi = 0x55u32;
                    let r = storm::SFileGetFileSize(self.h(h), if high { &mut hi } else { std::ptr::null_mut() });
                    if high && r != 0xFFFFFFFF && hi != 0 {
                        return Err("high part of a small size".into());
                    }
                    (r as u64, vec![])
                }
                Op::Seek(h, low, high, m) => {
                    let mut hi = high.unwrap_or(0);
                    let r = storm::SFileSetFilePointer(self.h(h), low, if high.is_some() { &mut hi } else { std::ptr::null_mut() }, m);
                    if high.is_some() && r != 0xFFFFFFFF && hi != 0 {
                        return Err("high part of a small position".into());
                    }
                    (r as u64, vec![])
                }
                Op::Has(h, name) => {
                    let c = name.map(cs);
                    (storm::SFileHasFile(self.h(h), c.as_ref().map(|c| c.as_ptr()).unwrap_or(std::ptr::null())) as u64, vec![])
                }
                Op::Info(h, class, size) => {
                    let mut buf = [0xA7A7A7A7_A7A7A7A7u64; 6];
                    let mut need = 0xFFu32;
                    let ok = storm::SFileGetFileInfo(self.h(h), class, buf.as_mut_ptr() as _, size, &mut need);
                    let bytes: Vec<u8> = buf.iter().flat_map(|x| x.to_le_bytes()).collect();
                    let used = if ok { need as usize } else { 0 };
                    if used > size as usize || bytes[used..].iter().any(|b| *b != CANARY) {
                        return Err("bytes were written beyond the information".into());
                    }
                    let mut out = vec![];
                    if need != 0xFF {
                        out.push(need as u8);
                    }
                    out.extend(&bytes[..used]);
                    (ok as u64, out)
                }
                Op::ArchName(h, size) => self.arch_name(h, size as usize)?,
                Op::ArchNameFit(h, d) => {
                    // the size is relative to the true name; ask for it first
                    let need = fx.arch.iter().map(|a| a.path.len()).max().unwrap() + 1;
                    let (ok, full) = self.arch_name(h, need + 8)?;
                    if ok == 0 {
                        (0, vec![])
                    } else {
                        self.arch_name(h, (full.len() as i32 + d) as usize)?
                    }
                }
                Op::FileName(h, null) => {
                    let mut b = vec![CANARY; 300];
                    let ok = storm::SFileGetFileName(self.h(h), if null { std::ptr::null_mut() } else { b.as_mut_ptr() as _ });
                    let end = if ok { b.iter().position(|x| *x == 0).ok_or("unterminated name")? + 1 } else { 0 };
                    if b[end..].iter().any(|x| *x != CANARY) {
                        return Err("bytes were written beyond the name".into());
                    }
                    (ok as u64, b[..end].to_vec())
                }
                Op::Enum(h, mask, cb) => {
                    let c = mask.map(cs);
                    let mut d = CbData { mode: cb, names: vec![], h: self.h(h) as usize, present: false };
                    let ok = storm::SFileEnumFiles(self.h(h), c.as_ref().map(|c| c.as_ptr()).unwrap_or(std::ptr::null()), std::ptr::null(), Some(callback), &mut d as *mut _ as _);
                    let mut out = vec![];
                    d.names.sort();
                    match cb {
                        Cb::All => d.names.iter().for_each(|n| out.extend([n.as_bytes(), &[0]].concat())),
                        Cb::Stop if d.names.len() == 1 => out = b"one".to_vec(),
                        Cb::Reenter if d.names.len() == 1 => out = if d.present { b"present".to_vec() } else { b"absent".to_vec() },
                        _ => {}
                    }
                    // unnamed files may be listed under invented names
                    if let H::V(v) = h {
                        if ok && self.unlisted(fx, v) {
                            out.clear();
                        }
                    }
                    (ok as u64, out)
                }
                Op::EnumNull(h) => (storm::SFileEnumFiles(self.h(h), std::ptr::null(), std::ptr::null(), None, std::ptr::null_mut()) as u64, vec![]),
                Op::Extract(h, name) => {
                    let dest = format!("{}/x/y/out", self.scratch);
                    let (c, d) = (cs(name), cs(&dest));
                    let ok = storm::SFileExtractFile(self.h(h), c.as_ptr(), d.as_ptr(), 0);
                    let err = storm::SFileGetLastError();
                    let got = std::fs::read(&dest);
                    // again, over a file that is there already (not while other threads run)
                    if self.over {
                        let old = vec![0x5Au8; 5000];
                        std::fs::create_dir_all(format!("{}/x/y", self.scratch)).unwrap();
                        std::fs::write(&dest, &old).unwrap();
                        let again = storm::SFileExtractFile(self.h(h), c.as_ptr(), d.as_ptr(), 0);
                        if again != ok || storm::SFileGetLastError() != err {
                            return Err("extracting over an existing file ended differently".into());
                        }
                        let now = std::fs::read(&dest).unwrap_or_default();
                        if ok && got.as_ref().ok() != Some(&now) {
                            return Err("extracting over an existing file did not replace it".into());
                        }
                        if !ok && now != old {
                            return Err("a failed extraction changed the existing file".into());
                        }
                        storm::SFileSetLastError(err);
                    }
                    let _ = std::fs::remove_dir_all(format!("{}/x", self.scratch));
                    match (ok, got) {
                        (true, Ok(b)) => (1, b),
                        (true, Err(_)) => return Err("extracted, but there is no file".into()),
                        (false, Err(_)) => (0, vec![]),
                        (false, Ok(_)) => return Err("extraction failed, but left a file".into()),
                    }
                }
                Op::VerifyFile(h, name, flags) => {
                    let c = cs(name);
                    (storm::SFileVerifyFile(self.h(h), c.as_ptr(), flags) as u64, vec![])
                }
                Op::VerifyArchive(h, flags) => (storm::SFileVerifyArchive(self.h(h), flags) as u64, vec![]),
                Op::SetLocale(l) => (storm::SFileSetLocale(l) as u64, vec![]),
                Op::GetLocale => (storm::SFileGetLocale() as u64, vec![]),
                Op::SetErr(e) => {
                    storm::SFileSetLastError(e);
                    (0, vec![])
                }
                Op::Create(exists, disp, hash, v) => {
                    let p = format!("{}/created.mpq", self.scratch);
                    let _ = std::fs::remove_file(&p);
                    let before = if exists == 1 { std::fs::read(&fx.arch[0].path).unwrap() } else { vec![0x41; 5000] };
                    if exists > 0 {
                        std::fs::write(&p, &before).unwrap();
                    }
                    let c = cs(&p);
                    let mut h: storm::HANDLE = 0x77 as _;
                    let ok = storm::SFileCreateArchive(c.as_ptr(), disp, hash, &mut h);
                    let err = storm::SFileGetLastError();
                    let after = std::fs::read(&p).ok();
                    let mut out = vec![];
                    if ok {
                        self.give(v, h as usize)?;
                        let n = cs("a.txt");
                        let has = storm::SFileHasFile(h, n.as_ptr());
                        out.push(has as u8);
                        let a = mopaq::Archive::open(&p).map_err(|e| format!("created archive: {}", e))?;
                        drop(a);
                        storm::SFileCloseArchive(h);
                    } else if after != (exists > 0).then_some(before) {
                        return Err("a failed creation changed the file".into());
                    }
                    let _ = std::fs::remove_file(&p);
                    storm::SFileSetLastError(err);
                    (ok as u64, out)
                }
            })
        }
    }
    fn unlisted(&self, fx: &Fixture, v: usize) -> bool {
        self.kinds.iter().any(|(h, k)| *h == self.vars[v] && fx.arch[*k].listing.is_none())
    }
    fn arch_name(&self, h: H, size: usize) -> Result<(u64, Vec<u8>), String> {
        let mut b = vec![0xA7u8; size + 16];
        let ok = unsafe { storm::SFileGetArchiveName(self.h(h), b.as_mut_ptr() as _, size as u32) };
        let end = if ok { b.iter().position(|x| *x == 0).ok_or("unterminated name")? + 1 } else { 0 };
        if end > size || b[end..].iter().any(|x| *x != 0xA7) {
            return Err("bytes were written beyond the name or the buffer".into());
        }
        Ok((ok as u64, b[..end].to_vec()))
    }
}

pub fn describe(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join("; ")
}
pub fn warm_up(fx: &Fixture, scratch: &str) -> Result<(), String> {
    let mut r = Real::new(scratch.into());
    let mut m = Model::default();
    for op in [Op::OpenArchive(Src::Arch(0), 0), Op::OpenFile(H::V(0), Some("a.txt"), Some(2)), Op::Read(H::V(2), 4, true), Op::CloseFile(H::V(2)), Op::CloseArchive(H::V(0))] {
        let w = m.step(fx, 0, &op);
        let g = r.step(fx, &op)?;
        if g != w {
            return Err(format!("{:?}: {:?} instead of {:?}", op, g, w));
        }
    }
    let _ = hash64(&0);
    Ok(())
}
