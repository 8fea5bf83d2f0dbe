//! Shared vocabulary: builder configurations, file alphabets, content patterns.
use crate::engine::*;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::path::{Path, PathBuf};

pub const VERSIONS: [FormatVersion; 4] =
    [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];

pub const ZLIB: u8 = 0x02;
pub const PKWARE: u8 = 0x08;
pub const BZIP2: u8 = 0x10;
pub const SPARSE: u8 = 0x20;
pub const LZMA: u8 = 0x12;
pub const MONO: u8 = 0x40;
pub const STEREO: u8 = 0x80;
/// All methods that must be lossless.
pub const LOSSLESS: [u8; 6] = [0, ZLIB, PKWARE, BZIP2, SPARSE, LZMA];

pub fn mname(m: u8) -> &'static str {
    match m {
        0 => "store",
        ZLIB => "zlib",
        PKWARE => "pkware",
        BZIP2 => "bzip2",
        SPARSE => "sparse",
        LZMA => "lzma",
        MONO => "adpcm1",
        STEREO => "adpcm2",
        _ => "multi",
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Enc {
    No,
    Plain,
    Fix,
}
pub const ENCS: [Enc; 3] = [Enc::No, Enc::Plain, Enc::Fix];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Lf {
    Gen,
    None,
    Ext,
}

#[derive(Clone, Debug)]
pub struct F {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u8,
    pub enc: Enc,
    pub locale: u16,
    pub from_path: bool,
}
impl F {
    pub fn new(name: &str, data: Vec<u8>) -> F {
        F { name: name.into(), data, method: ZLIB, enc: Enc::No, locale: 0, from_path: false }
    }
    pub fn with(name: &str, data: Vec<u8>, method: u8, enc: Enc) -> F {
        F { name: name.into(), data, method, enc, locale: 0, from_path: false }
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub version: FormatVersion,
    pub shift: u16,
    pub crc: bool,
    pub lf: Lf,
    /// method of the HET/BET tables, None = uncompressed tables
    pub tables: Option<u8>,
    pub files: Vec<F>,
}
impl Cfg {
    pub fn new(version: FormatVersion, shift: u16) -> Cfg {
        Cfg { version, shift, crc: false, lf: Lf::Gen, tables: None, files: vec![] }
    }
    pub fn sector(&self) -> usize {
        512usize << self.shift
    }
    pub fn builder(&self, ctx: &Ctx, keep: &mut Vec<PathBuf>) -> ArchiveBuilder {
        let mut b = ArchiveBuilder::new()
            .version(self.version)
            .block_size(self.shift)
            .generate_crcs(self.crc)
            .listfile_option(match self.lf {
                Lf::Gen => ListfileOption::Generate,
                Lf::None => ListfileOption::None,
                Lf::Ext => {
                    let p = ctx.file("lf");
                    let mut t = String::new();
                    for f in &self.files {
                        t += &f.name;
                        t += "\n";
                    }
                    std::fs::write(&p, t).unwrap();
                    keep.push(p.clone());
                    ListfileOption::External(p)
                }
            });
        if let Some(m) = self.tables {
            b = b.compress_tables(true).table_compression(m);
        }
        for f in &self.files {
            if f.from_path {
                let p = ctx.file("src");
                std::fs::write(&p, &f.data).unwrap();
                b = match f.enc {
                    Enc::No if f.method == ZLIB && f.locale == 0 => b.add_file(&p, &f.name),
                    Enc::No => b.add_file_with_options(&p, &f.name, f.method, false, f.locale),
                    Enc::Plain => b.add_file_with_options(&p, &f.name, f.method, true, f.locale),
                    Enc::Fix => b.add_file_with_encryption(&p, &f.name, f.method, true, f.locale),
                };
                keep.push(p);
            } else {
                let d = f.data.clone();
                b = match f.enc {
                    Enc::No if f.method == ZLIB && f.locale == 0 => b.add_file_data(d, &f.name),
                    Enc::No => b.add_file_data_with_options(d, &f.name, f.method, false, f.locale),
                    Enc::Plain => b.add_file_data_with_options(d, &f.name, f.method, true, f.locale),
                    Enc::Fix => b.add_file_data_with_encryption(d, &f.name, f.method, true, f.locale),
                };
            }
        }
        b
    }
    /// Build into a fresh scratch file.
    pub fn build(&self, ctx: &Ctx) -> Result<Tmp, String> {
        let mut keep = vec![];
        let out = Tmp(ctx.file("a.mpq"));
        let b = self.builder(ctx, &mut keep);
        let r = b.build(&out.0);
        for p in keep {
            let _ = std::fs::remove_file(p);
        }
        r.map_err(|e| format!("build failed: {}", e))?;
        Ok(out)
    }
}

/// Scratch file removed on drop.
pub struct Tmp(pub PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
impl Tmp {
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn open(&self) -> Result<Archive, String> {
        Archive::open(&self.0).map_err(|e| format!("open failed: {}", e))
    }
    pub fn bytes(&self) -> Vec<u8> {
        std::fs::read(&self.0).unwrap()
    }
    pub fn of(ctx: &Ctx, bytes: &[u8]) -> Tmp {
        let p = ctx.file("x.mpq");
        std::fs::write(&p, bytes).unwrap();
        Tmp(p)
    }
}

/// Named content patterns; deterministic.
pub const PATTERNS: [&str; 7] = ["zero", "text", "noise", "mix", "altsec", "ff", "ramp"];
pub fn content(kind: &str, n: usize, sector: usize) -> Vec<u8> {
    match kind {
        "zero" => vec![0; n],
        "ff" => vec![0xFF; n],
        "text" => b"The quick brown fox; ".iter().cycle().take(n).copied().collect(),
        "noise" => noise(n as u64 + 77, n),
        "ramp" => (0..n).map(|i| (i * 7 + i / 256) as u8).collect(),
        // first half incompressible, second half constant
        "mix" => {
            let mut v = noise(n as u64 + 5, n / 2);
            v.resize(n, b'x');
            v
        }
        // odd sectors incompressible, even sectors compressible
        "altsec" => {
            let mut v = vec![b'y'; n];
            let z = noise(9, n);
            for i in 0..n {
                if (i / sector) % 2 == 1 {
                    v[i] = z[i];
                }
            }
            v
        }
        _ => panic!("pattern {}", kind),
    }
}

pub fn diff(got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!(
        "content differs: got {} bytes, want {} bytes, first difference at {} (got {:02x?}, want {:02x?})",
        got.len(),
        want.len(),
        at,
        got.get(at..(at + 8).min(got.len())),
        want.get(at..(at + 8).min(want.len()))
    ))
}

/// Every file of `files` must read back through `a` unchanged.
pub fn check_contents(a: &mut Archive, files: &[F]) -> Result<(), String> {
    for f in files {
        let got = a
            .read_file(&f.name)
            .map_err(|e| format!("reading {:?} ({} bytes) failed: {}", f.name, f.data.len(), e))?;
        diff(&got, &f.data).map_err(|m| format!("{:?}: {}", f.name, m))?;
    }
    Ok(())
}

/// Sizes that straddle every boundary the storage layout knows.
pub fn edge_sizes(s: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257];
    for k in 1..=4usize {
        for d in [-5i64, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5] {
            v.push((k as i64 * s as i64 + d) as usize);
        }
    }
    v.push(s + s / 2);
    v.push(7 * s + 13);
    v.sort();
    v.dedup();
    v
}

/// A matrix of diverse builder configurations: version x checksums x listfile x table codec x
/// file set shape. Used by the checks that judge whole archives.
pub fn matrix(thorough: bool) -> Vec<(String, Cfg)> {
    let mut out = vec![];
    let shifts: &[u16] = if thorough { &[0, 1, 3] } else { &[0, 3] };
    for v in VERSIONS {
        for &sh in shifts {
            for crc in [false, true] {
                for lf in [Lf::Gen, Lf::None, Lf::Ext] {
                    let tabs: &[Option<u8>] = if v >= FormatVersion::V3 { &[None, Some(ZLIB), Some(BZIP2), Some(LZMA), Some(SPARSE)] } else { &[None] };
                    for tab in tabs {
                        for shape in 0..8usize {
                            if !thorough && *tab == Some(LZMA) && shape > 3 {
                                continue;
                            }
                            let s = 512usize << sh;
                            let mut c = Cfg::new(v, sh);
                            c.crc = crc;
                            c.lf = lf;
                            c.tables = *tab;
                            let n = [0, 1, 2, 6, 7, 15, 40, 131][shape];
                            for i in 0..n {
                                let size = match i % 6 {
                                    0 => i * 3,
                                    1 => s - 1 + i % 3,
                                    2 => 2 * s + i,
                                    3 => 0,
                                    4 => (i * 97) % (3 * s),
                                    _ => s,
                                };
                                let mut f = F::with(
                                    &format!("Path{}\\Sub/File{:03}.ext", i % 5, i),
                                    content(PATTERNS[(i + shape) % 7], size, s),
                                    [ZLIB, 0, BZIP2, SPARSE, PKWARE, ZLIB][(i + shape) % 6],
                                    ENCS[(i + i / 3 + shape) % 3],
                                );
                                f.from_path = i % 11 == 5;
                                f.locale = if i % 7 == 6 { 0x409 } else { 0 };
                                c.files.push(f);
                            }
                            if shape == 4 {
                                // nothing encrypted
                                for f in &mut c.files {
                                    f.enc = Enc::No;
                                }
                            }
                            out.push((format!("{:?}/s{}/crc{}/{:?}/t{:?}/{}", v, sh, crc as u8, lf, tab, n), c));
                        }
                    }
                }
            }
        }
    }
    out
}
