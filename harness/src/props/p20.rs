//! P20: the command line tool's create, list, find, info, verify and hash tell the truth.
use super::cli::*;
use super::common::*;
use super::p14;
use crate::engine::*;
use crate::refmpq::{self as r, RefArchive, RefFile, RefWriter};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

type Tree = BTreeMap<String, Vec<u8>>;

fn all_files() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("a.txt", content("text", 77, 512)),
        ("b/c.bin", content("mix", 1400, 512)),
        ("b/d/e", content("noise", 530, 512)),
        ("Empty", vec![]),
        ("sp ace.txt", content("ramp", 512, 512)),
        ("x,y.csv", content("text", 1025, 512)),
        ("q\"t.txt", content("zero", 3000, 512)),
        ("\u{e9}t\u{e9}/\u{4e16}\u{754c}-a-rather-long-name-that-goes-on-and-on-\u{e9}.dat", content("text", 5000, 512)),
        ("\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", b"even".to_vec()),
        ("a\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", b"odd".to_vec()),
        ("zq/skip.me", b"skip".to_vec()),
        ("B2.TXT", content("text", 12, 512)),
        ("n/e/s/t/ed", vec![]),
        ("n/e/s/t/ed2", content("text", 9, 512)),
        ("\u{c9}T\u{c9}.bin", content("text", 20, 512)),
    ]
}
fn plant(base: &Path, t: &Tree) {
    dir(base);
    for (k, v) in t {
        let p = base.join(k);
        let mut q = p.parent().unwrap().to_path_buf();
        std::fs::create_dir_all(&q).unwrap();
        while q != *base {
            give(&q);
            q = q.parent().unwrap().to_path_buf();
        }
        std::fs::write(&p, v).unwrap();
        give(&p);
    }
}
fn json(s: &str) -> Result<Value, String> {
    serde_json::from_str(s).map_err(|e| format!("not JSON ({}): {}", e, s.chars().take(200).collect::<String>()))
}
/// RFC 4180
fn csv(s: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut row = vec![];
    let mut f = String::new();
    let mut it = s.chars().peekable();
    let mut quoted = false;
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    f.push('"');
                } else {
                    quoted = false;
                }
            } else {
                f.push(c);
            }
        } else {
            match c {
                '"' if f.is_empty() => quoted = true,
                '"' => return Err(format!("stray quote in CSV: {:?}", s)),
                ',' => row.push(std::mem::take(&mut f)),
                '\n' => {
                    row.push(std::mem::take(&mut f));
                    rows.push(std::mem::take(&mut row));
                }
                c => f.push(c),
            }
        }
    }
    if quoted || !f.is_empty() || !row.is_empty() {
        return Err(format!("unterminated CSV: {:?}", s));
    }
    Ok(rows)
}
fn glob(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && glob(&p[1..], &s[1..]),
        Some('[') => {
            let e = p.iter().position(|c| *c == ']').unwrap();
            let neg = p[1] == '!';
            let set = &p[1 + neg as usize..e];
            !s.is_empty() && (set.contains(&s[0]) != neg) && glob(&p[e + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}
fn globs(p: &str, s: &str) -> bool {
    glob(&p.chars().collect::<Vec<_>>(), &s.chars().collect::<Vec<_>>())
}
fn set<'a>(i: impl IntoIterator<Item = &'a str>) -> BTreeSet<String> {
    i.into_iter().map(|s| s.to_string()).collect()
}

/// Every way of listing gives exactly `names` (each once).
fn listings(cli: &Cli, cwd: &Path, a: &str, names: &BTreeSet<String>, more: &[&str]) -> Result<(), String> {
    let mut args = vec!["file", "list", a];
    args.extend(more);
    let cmp = |what: &str, got: Vec<String>| -> Result<(), String> {
        let n = got.len();
        let g: BTreeSet<String> = got.into_iter().collect();
        if n != g.len() || g != *names {
            return Err(format!("{} {:?}: listed {:?} ({} entries), the archive holds {:?}", what, more, g, n, names));
        }
        Ok(())
    };
    let t = cli.ok(cwd, &args)?.out;
    let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
    let total = l.pop().unwrap_or_default();
    if total != format!("Total: {} files", names.len()) {
        return Err(format!("text list {:?}: {:?} for {} files", more, total, names.len()));
    }
    l.pop();
    cmp("text list", l)?;
    let mut j = args.clone();
    j.extend(["-o", "json"]);
    let v = json(&cli.ok(cwd, &j)?.out)?;
    cmp("json list", v.as_array().ok_or("not an array")?.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect())?;
    let mut c = args.clone();
    c.extend(["-o", "csv"]);
    let rows = csv(&cli.ok(cwd, &c)?.out)?;
    if rows.first() != Some(&vec!["filename".to_string()]) || rows.iter().any(|r| r.len() != 1) {
        return Err(format!("csv list: {:?}", rows));
    }
    cmp("csv list", rows[1..].iter().map(|r| r[0].clone()).collect())
}

fn human(n: u64) -> String {
    let (mut x, mut k) = (n as f64, 0);
    while x >= 1024.0 && k < 4 {
        x /= 1024.0;
        k += 1;
    }
    if k == 0 {
        n.to_string()
    } else {
        format!("{:.2} {}", x, ["B", "KB", "MB", "GB", "TB"][k])
    }
}

/// The verbose listing shows every file with its sizes, hashes and flags.
fn verbose(cli: &Cli, cwd: &Path, a: &str, bytes: &[u8]) -> Result<(), String> {
    let ra = RefArchive::parse(bytes)?;
    let names: Vec<String> = {
        let v = json(&cli.ok(cwd, &["file", "list", a, "-o", "json"])?.out)?;
        v.as_array().ok_or("not an array")?.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()
    };
    for hashes in [false, true] {
        let mut args = vec!["file", "list", a, "-v"];
        if hashes {
            args.push("--show-hashes");
        }
        let out = cli.ok(cwd, &args)?.out;
        for n in &names {
            let b = ra.lookup(n, 0).map(|h| ra.block[h.block as usize].clone()).ok_or("not found")?;
            let shown: String = if n.chars().count() > 39 { n.chars().take(36).chain("...".chars()).collect() } else { n.clone() };
            let ratio = if b.fsize > 0 { (b.csize as f64 / b.fsize as f64 * 100.0) as u32 } else { 100 };
            let flags: Vec<&str> = [(r::COMPRESS, "Compressed"), (r::ENCRYPTED, "Encrypted"), (r::SINGLE, "Single Unit"), (r::CRC, "Has CRC"), (r::FIX_KEY, "Fix Key")].iter().filter(|(f, _)| b.flags & f != 0).map(|x| x.1).collect();
            let mut want = format!("{} {} {} {}%", shown, human(b.fsize as u64), human(b.csize as u64), ratio);
            if hashes {
                want += &format!(" {:X} {:X}", r::hash(n.as_bytes(), 1), r::hash(n.as_bytes(), 2));
            }
            want += " ";
            want += &if flags.is_empty() { "-".to_string() } else { flags.join(", ") };
            let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            if out.lines().filter(|l| squeeze(l) == squeeze(&want)).count() != 1 {
                return Err(format!("{:?}: no line {:?} in {}", args, want, out));
            }
        }
        if !out.contains(&format!("Total: {} files", names.len())) {
            return Err(format!("{:?}: wrong total in {}", args, out));
        }
    }
    Ok(())
}

/// Archive information in all formats agrees with what the library reports (whose truthfulness is P03's subject).
fn info(cli: &Cli, cwd: &Path, a: &str) -> Result<(), String> {
    let p = cwd.join(a);
    let i = guarded(|| mopaq::Archive::open(&p).and_then(|mut x| x.get_info()).map_err(|e| e.to_string()))??;
    let t = |t: &mopaq::TableInfo| serde_json::json!({"size": t.size, "offset": t.offset, "compressed_size": t.compressed_size, "failed_to_load": t.failed_to_load});
    let want = serde_json::json!({
        "path": a, "file_size": i.file_size, "archive_offset": i.archive_offset, "format_version": i.format_version as u16 + 1,
        "file_count": i.file_count, "max_file_count": i.max_file_count, "sector_size": i.sector_size, "is_encrypted": i.is_encrypted,
        "has_signature": i.has_signature, "signature_status": format!("{:?}", i.signature_status),
        "tables": {"hash_table": t(&i.hash_table_info), "block_table": t(&i.block_table_info), "het_table": i.het_table_info.as_ref().map(t),
            "bet_table": i.bet_table_info.as_ref().map(t), "hi_block_table": i.hi_block_table_info.as_ref().map(t)},
        "special_files": {"has_attributes": i.has_attributes, "has_listfile": i.has_listfile},
        "user_data": i.user_data_info.as_ref().map(|u| serde_json::json!({"header_size": u.header_size, "data_size": u.data_size})),
        "md5_status": i.md5_status.as_ref().map(|m| serde_json::json!({"header_valid": m.header_valid, "hash_table_valid": m.hash_table_valid, "block_table_valid": m.block_table_valid,
            "hi_block_table_valid": m.hi_block_table_valid, "het_table_valid": m.het_table_valid, "bet_table_valid": m.bet_table_valid})),
    });
    fn sub(path: &str, want: &Value, got: &Value) -> Result<(), String> {
        match want {
            Value::Object(m) => m.iter().try_for_each(|(k, v)| sub(&format!("{}/{}", path, k), v, &got[k])),
            _ if want == got => Ok(()),
            _ => Err(format!("archive info: {} is {} instead of {}", path, got, want)),
        }
    }
    let got = json(&cli.ok(cwd, &["archive", "info", a, "-o", "json"])?.out)?;
    sub("", &want, &got)?;
    let rows = csv(&cli.ok(cwd, &["archive", "info", a, "-o", "csv"])?.out)?;
    for k in ["path", "file_size", "archive_offset", "format_version", "file_count", "max_file_count", "sector_size", "is_encrypted", "has_signature", "signature_status", "has_attributes", "has_listfile"] {
        let w = if want[k].is_null() { &want["special_files"][k] } else { &want[k] };
        let w = w.as_str().map(|s| s.to_string()).unwrap_or_else(|| w.to_string());
        if !rows.iter().any(|r| r.len() == 2 && r[0] == k && r[1] == w) {
            return Err(format!("archive info (CSV): no {} = {} in {:?}", k, w, rows));
        }
    }
    let text = cli.ok(cwd, &["archive", "info", a])?.out;
    let yes = |b: bool, y: &str, n: &str| if b { y.to_string() } else { n.to_string() };
    let table = |t: &mopaq::TableInfo| {
        let c = t.compressed_size.map(|c| format!(" (compressed: {} bytes)", c)).unwrap_or_default();
        match (t.failed_to_load, t.size) {
            (true, _) => format!("Failed to load{} @ 0x{:X}", c, t.offset),
            (false, Some(s)) => format!("{} entries @ 0x{:X}{}", s, t.offset, c),
            (false, None) => format!("Unknown size @ 0x{:X}{}", t.offset, c),
        }
    };
    let mut lines = vec![
        format!("Archive path: {}", a),
        format!("Archive size: {} bytes", human(i.file_size)),
        format!("Archive offset: 0x{:X}", i.archive_offset),
        format!("Format version: v{}", i.format_version as u16 + 1),
        format!("Number of files: {}", i.file_count),
        format!("Maximum file capacity: {}", i.max_file_count),
        format!("Sector size: {} bytes", i.sector_size),
        format!("Encrypted: {}", yes(i.is_encrypted, "Yes", "No")),
        format!("(attributes) file: {}", yes(i.has_attributes, "Present", "Not present")),
        format!("(listfile) file: {}", yes(i.has_listfile, "Present", "Not present")),
        format!("Hash table: {}", table(&i.hash_table_info)),
        format!("Block table: {}", table(&i.block_table_info)),
        format!("Digital signature: {}", match i.signature_status {
            mopaq::SignatureStatus::None => "No signature",
            mopaq::SignatureStatus::WeakValid => "Weak signature (Valid)",
            mopaq::SignatureStatus::WeakInvalid => "Weak signature (Invalid)",
            mopaq::SignatureStatus::StrongValid => "Strong signature (Valid)",
            mopaq::SignatureStatus::StrongInvalid => "Strong signature (Invalid)",
            mopaq::SignatureStatus::StrongNoKey => "Strong signature (No public key)",
        }),
    ];
    for (n, x) in [("HET", &i.het_table_info), ("BET", &i.bet_table_info), ("Hi-block", &i.hi_block_table_info)] {
        if let Some(x) = x {
            lines.push(format!("{} table: {}", n, table(x)));
        }
    }
    if let Some(m) = &i.md5_status {
        for (n, v) in [("MPQ header", m.header_valid), ("Hash table", m.hash_table_valid), ("Block table", m.block_table_valid), ("Hi-block table", m.hi_block_table_valid), ("HET table", m.het_table_valid), ("BET table", m.bet_table_valid)] {
            lines.push(format!("{}: {}", n, yes(v, "Valid", "Invalid")));
        }
    }
    if let Some(u) = &i.user_data_info {
        lines.push(format!("Header size: {} bytes", u.header_size));
        lines.push(format!("Data size: {} bytes", u.data_size));
    }
    for w in lines {
        if !text.lines().any(|l| l == w) {
            return Err(format!("archive info: no line {:?} in {}", w, text));
        }
    }
    Ok(())
}

/// The configuration file as a state machine: every sequence of changes, compared with a model after each step.
#[derive(Clone, PartialEq)]
struct Conf([String; 4]);
const CONF_KEYS: [&str; 4] = ["default_compression", "default_version", "default_block_size", "default_output"];
fn conf_ops() -> Vec<Vec<&'static str>> {
    let mut v = vec![vec!["reset"]];
    for (k, vals) in CONF_KEYS.iter().zip([vec!["none", "bzip2", "adpcm-stereo", "zip", ""], vec!["2", "4", "0", "5", "x"], vec!["0", "23", "24", "-1"], vec!["json", "csv", "xml"]]) {
        for x in vals {
            v.push(vec!["set", k, x]);
        }
    }
    v.push(vec!["set", "aliases", "x"]);
    v.push(vec!["set", "Default_version", "2"]);
    v
}
/// Apply an operation to the model; false if it must be refused.
fn conf_apply(c: &mut Conf, op: &[&str]) -> bool {
    if op[0] == "reset" {
        *c = Conf(["zlib", "1", "3", "text"].map(String::from));
        return true;
    }
    let Some(k) = CONF_KEYS.iter().position(|k| *k == op[1]) else { return false };
    let ok = match k {
        0 => ["none", "zlib", "bzip2", "lzma", "sparse", "pkware", "adpcm-mono", "adpcm-stereo"].contains(&op[2]),
        1 => ["1", "2", "3", "4"].contains(&op[2]),
        2 => op[2].parse::<u16>().is_ok_and(|x| x <= 23),
        _ => ["text", "json", "csv"].contains(&op[2]),
    };
    if ok {
        c.0[k] = op[2].to_string();
    }
    ok
}
fn conf_history(ctx: &Ctx, cli: &Cli, start: Option<&str>, ops: &[&Vec<&'static str>]) -> Result<(), String> {
    let root = dir(&ctx.file("cf"));
    let file = root.join("conf.toml");
    let mut m = Conf(["zlib", "1", "3", "text"].map(String::from));
    if let Some(s) = start {
        std::fs::write(&file, s).unwrap();
        give(&file);
        for l in s.lines() {
            let (k, v) = l.split_once(" = ").unwrap();
            if let Some(k) = CONF_KEYS.iter().position(|x| *x == k) {
                m.0[k] = v.trim_matches('"').to_string();
            }
        }
    }
    for op in ops {
        let before = std::fs::read(&file).ok();
        let mut args = vec!["config", op[0]];
        if op.len() > 1 {
            args.push("--");
            args.extend(&op[1..]);
        }
        let args: Vec<&str> = ["-C", "conf.toml"].into_iter().chain(args).collect();
        let o = cli.run(&root, &args)?;
        let want = conf_apply(&mut m, op);
        if (o.code == 0) != want {
            return Err(format!("{:?} after {:?}: exit {}, expected {}", op, ops, o.code, if want { "success" } else { "refusal" }));
        }
        if !want && std::fs::read(&file).ok() != before {
            return Err(format!("refused {:?} changed the configuration", op));
        }
        let show = cli.ok(&root, &["-C", "conf.toml", "config", "show"])?.out;
        for (l, v) in ["Default compression", "Default version", "Default block size", "Default output"].iter().zip(&m.0) {
            if !show.lines().any(|x| x.trim() == format!("{}: {}", l, v)) {
                return Err(format!("after {:?}: {} should be {:?}, shown: {}", ops, l, v, show));
            }
        }
    }
    // and the configuration is what creation uses
    std::fs::write(root.join("f"), content("text", 3000, 512)).unwrap();
    if m.0[0].starts_with("adpcm") {
        let _ = std::fs::remove_dir_all(&root);
        return Ok(());
    }
    cli.ok(&root, &["-C", "conf.toml", "archive", "create", "o.mpq", "f"])?;
    let b = std::fs::read(root.join("o.mpq")).map_err(|e| e.to_string())?;
    let ra = RefArchive::parse(&b)?;
    let e = ra.lookup("f", 0).map(|h| ra.block[h.block as usize].clone()).ok_or("f is missing")?;
    if (ra.version + 1).to_string() != m.0[1] || ra.shift.to_string() != m.0[2] || (e.csize < e.fsize) != (m.0[0] != "none") {
        return Err(format!("created with version {}, block size {}, {} bytes stored; configured: {:?}", ra.version + 1, ra.shift, e.csize, m.0));
    }
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

struct Opt {
    version: u16,
    comp: &'static str,
    shift: u16,
    no_listfile: bool,
    no_recursive: bool,
    ignore: Vec<&'static str>,
    config: bool,
}

/// Patterns are parts of the path below the source, or globs for that path or the file name.
fn ignored(k: &str, pat: &str) -> bool {
    k.contains(pat) || globs(pat, k) || globs(pat, k.rsplit('/').next().unwrap())
}

fn created(ctx: &Ctx, cli: &Cli, t: &Tree, o: &Opt, deep: bool) -> Result<(), String> {
    let root = dir(&ctx.file("c"));
    let src = root.join("in");
    plant(&src, t);
    let (v, s) = (o.version.to_string(), o.shift.to_string());
    let mut args = vec!["archive", "create", "out.mpq", "in"];
    if o.config {
        std::fs::write(root.join("conf.toml"), format!("default_compression = \"{}\"\ndefault_version = {}\ndefault_block_size = {}\n", o.comp, v, s)).unwrap();
        args.extend(["-C", "conf.toml"]);
    } else {
        args.extend(["-V", &v, "-c", o.comp, "-b", &s]);
    }
    if o.no_listfile {
        args.push("--no-listfile");
    }
    if o.no_recursive {
        args.push("--no-recursive");
    }
    for i in &o.ignore {
        args.extend(["-i", i]);
    }
    let before = tree(&src);
    cli.ok(&root, &args)?;
    if tree(&src) != before {
        return Err("creating changed the source".into());
    }
    let want: Tree = t.iter().filter(|(k, _)| !(o.no_recursive && k.contains('/')) && !o.ignore.iter().any(|i| ignored(k, i))).map(|(k, v)| (k.clone(), v.clone())).collect();
    let a = "out.mpq";
    let bytes = std::fs::read(root.join(a)).map_err(|e| e.to_string())?;
    // the independent reader sees the same files
    {
        let ra = RefArchive::parse(&bytes)?;
        for (k, d) in &want {
            let h = ra.lookup(k, 0).ok_or_else(|| format!("{:?} is not in the archive", k))?;
            let (_, got) = ra.extract(k, &ra.block[h.block as usize])?;
            diff(&got, d).map_err(|e| format!("{}: {}", k, e))?;
        }
        for k in t.keys().filter(|k| !want.contains_key(*k)) {
            if ra.lookup(k, 0).is_some() {
                return Err(format!("{:?} should not be in the archive", k));
            }
        }
        let n = want.len() + !o.no_listfile as usize;
        if ra.block.iter().filter(|b| b.flags & r::EXISTS != 0).count() != n {
            return Err(format!("the archive does not hold exactly {} files", n));
        }
        if ra.sector() != 512 << o.shift {
            return Err(format!("sector size {} instead of {}", ra.sector(), 512 << o.shift));
        }
        let info = json(&cli.ok(&root, &["archive", "info", a, "-o", "json"])?.out)?;
        for (k, w) in [
            ("format_version", o.version as u64),
            ("file_size", bytes.len() as u64),
            ("sector_size", 512 << o.shift),
            ("file_count", n as u64),
            ("archive_offset", 0),
        ] {
            if info[k].as_u64() != Some(w) {
                return Err(format!("info: {} is {} instead of {}", k, info[k], w));
            }
        }
        if info["special_files"]["has_listfile"].as_bool() != Some(!o.no_listfile) || info["is_encrypted"].as_bool() != Some(false) {
            return Err(format!("info: {}", info));
        }
    }
    let mut names: BTreeSet<String> = want.keys().cloned().collect();
    if o.no_listfile && names.is_empty() {
        listings(cli, &root, a, &names, &[])?;
        analysis(cli, &root, a, &bytes, &names)?;
    }
    if !o.no_listfile {
        names.insert("(listfile)".into());
        listings(cli, &root, a, &names, &[])?;
        cli.ok(&root, &["file", "extract", a, "-p", "-t", "x"])?;
        let mut got = files(&tree(&root.join("x")));
        got.remove("(listfile)");
        tree_diff(&got, &want).map_err(|e| format!("created and extracted: {}", e))?;
    }
    // files whose names nobody knows cannot be verified: the tool then refuses, which is not judged
    let ver = cli.run(&root, &["archive", "verify", a, "--check-contents", "-o", "json"])?;
    let vj = json(&ver.out)?;
    if !o.no_listfile && (ver.code != 0 || vj["passed"].as_bool() != Some(true)) {
        return Err(format!("verification of a new archive: exit {}, {}", ver.code, vj));
    }
    if !o.no_listfile {
        verify_report(&root.join(a), &vj, true)?;
        let plain = json(&cli.ok(&root, &["archive", "verify", a, "-o", "json"])?.out)?;
        verify_report(&root.join(a), &plain, false)?;
        if deep {
            verify_forms(cli, &root, &["archive", "verify", a], &plain, 0)?;
            verify_forms(cli, &root, &["archive", "verify", a, "--check-contents"], &vj, 0)?;
        }
    }
    if !deep {
        if !o.no_listfile && want.values().any(|d| d.len() > 60_000) {
            analysis(cli, &root, a, &bytes, &names)?;
        }
        let _ = std::fs::remove_dir_all(&root);
        return Ok(());
    }
    for (k, d) in &want {
        let i = json(&cli.ok(&root, &["file", "info", a, k, "-o", "json"])?.out)?;
        if i["size"].as_u64() != Some(d.len() as u64) || i["filename"].as_str() != Some(k) {
            return Err(format!("file info of {:?}: {}", k, i));
        }
        let rows = csv(&cli.ok(&root, &["file", "info", a, k, "-o", "csv"])?.out)?;
        if rows != [vec!["filename".to_string(), "size".to_string()], vec![k.clone(), d.len().to_string()]] {
            return Err(format!("file info of {:?}: {:?}", k, rows));
        }
        cli.ok(&root, &["file", "extract", a, k, "-t", "one"])?;
        diff(&std::fs::read(root.join("one")).map_err(|e| e.to_string())?, d)?;
    }
    if !o.no_listfile {
        for p in ["*", "*.txt", "b/*", "?.txt", "[ab]*", "[!ab]*", "nothing*", "*/*", "a.txt", "B2.TXT", "*\u{e9}*", "*\u{c9}*", "*.TXT", "*e"] {
            let sub: BTreeSet<String> = names.iter().filter(|n| globs(p, n)).cloned().collect();
            listings(cli, &root, a, &sub, &["-p", p])?;
            for ic in [false, true] {
                let mut args = vec!["file", "find", a, p];
                let mut want: BTreeSet<String> = sub.clone();
                if ic {
                    args.push("-i");
                    want = names.iter().filter(|n| globs(&p.to_lowercase(), &n.to_lowercase())).cloned().collect();
                }
                let got = cli.ok(&root, &args)?.out;
                let g: Vec<&str> = if want.is_empty() { vec![] } else { got.lines().collect() };
                if set(g.iter().copied()) != want || g.len() != want.len() || (want.is_empty() && !got.starts_with("No files found")) {
                    return Err(format!("find {:?} (ignoring case: {}): {:?} instead of {:?}", p, ic, got, want));
                }
                let mut j = args.clone();
                j.extend(["-o", "json"]);
                let v = json(&cli.ok(&root, &j)?.out)?;
                let l: Vec<&str> = v.as_array().ok_or("find: not an array")?.iter().map(|x| x.as_str().unwrap_or("?")).collect();
                let mut c = args.clone();
                c.extend(["-o", "csv"]);
                let rows = csv(&cli.ok(&root, &c)?.out)?;
                if set(l.iter().copied()) != want || l.len() != want.len() || rows.first() != Some(&vec!["filename".to_string()]) || rows.len() != want.len() + 1 || rows[1..].iter().any(|r| r.len() != 1 || !want.contains(&r[0])) {
                    return Err(format!("find {:?} (ignoring case: {}): JSON {}, CSV {:?} instead of {:?}", p, ic, v, rows, want));
                }
            }
        }
        for (p, f) in [("^b/", (|n: &str| n.starts_with("b/")) as fn(&str) -> bool), ("txt$", |n| n.ends_with("txt")), ("c", |n| n.contains('c')), ("^[a-c]", |n| n.starts_with(['a', 'b', 'c']))] {
            let sub: BTreeSet<String> = names.iter().filter(|n| f(n)).cloned().collect();
            listings(cli, &root, a, &sub, &["-r", "-p", p])?;
            let got = cli.ok(&root, &["file", "find", a, p, "-r"])?.out;
            if !sub.is_empty() && set(got.lines()) != sub {
                return Err(format!("find -r {:?}: {:?}", p, got));
            }
        }
        verbose(cli, &root, a, &bytes)?;
        analysis(cli, &root, a, &bytes, &names)?;
        for args in [vec!["file", "list", a, "-v"], vec!["file", "list", a, "-vv", "--show-hashes"], vec!["archive", "list", a], vec!["file", "list", a, "--all"]] {
            let got = cli.ok(&root, &args)?.out;
            if !got.contains(&format!("Total: {} files", names.len())) {
                return Err(format!("{:?}: {}", args, got));
            }
        }
        let v = json(&cli.ok(&root, &["file", "list", a, "--show-hashes", "-o", "json"])?.out)?;
        let rows = csv(&cli.ok(&root, &["file", "list", a, "--show-hashes", "-o", "csv"])?.out)?;
        let mut seen = BTreeSet::new();
        for e in v.as_array().ok_or("not an array")? {
            let n = e["name"].as_str().unwrap_or("?").to_string();
            let (x, y) = (format!("{:08X}", r::hash(n.as_bytes(), 1)), format!("{:08X}", r::hash(n.as_bytes(), 2)));
            if e["hash1"].as_str() != Some(&x) || e["hash2"].as_str() != Some(&y) {
                return Err(format!("hashes of {:?}: {}", n, e));
            }
            if !rows.contains(&vec![n.clone(), x, y]) {
                return Err(format!("CSV hashes of {:?}: {:?}", n, rows));
            }
            seen.insert(n);
        }
        if seen != names {
            return Err(format!("listing with hashes: {:?}", seen));
        }
    }
    // enumeration of the tables: every file once, with the hashes of its name where the tables store them
    {
        let v = json(&cli.ok(&root, &["file", "list", a, "--all", "--show-hashes", "-o", "json"])?.out)?;
        let v = v.as_array().ok_or("not an array")?;
        let mut names: BTreeSet<String> = want.keys().cloned().collect();
        if !o.no_listfile {
            names.insert("(listfile)".into());
        }
        if v.len() != names.len() {
            return Err(format!("list --all --show-hashes: {} entries instead of {}", v.len(), names.len()));
        }
        if o.version < 3 {
            let w: BTreeSet<(String, String)> = names.iter().map(|n| (format!("{:08X}", r::hash(n.as_bytes(), 1)), format!("{:08X}", r::hash(n.as_bytes(), 2)))).collect();
            let g: BTreeSet<(String, String)> = v.iter().map(|e| (e["hash1"].as_str().unwrap_or("?").to_string(), e["hash2"].as_str().unwrap_or("?").to_string())).collect();
            if g != w {
                return Err(format!("list --all --show-hashes: {:?} instead of {:?}", g, w));
            }
        }
        let rows = csv(&cli.ok(&root, &["file", "list", a, "--all", "-o", "csv"])?.out)?;
        if rows.len() != names.len() + 1 {
            return Err(format!("list --all: {:?}", rows));
        }
    }
    // things that must fail and leave the archive alone
    for args in [
        vec!["archive", "create", a, "nonexistent"],
        vec!["file", "info", a, "nope"],
        vec!["file", "extract", a, "nope"],
        vec!["file", "add", a, "in/a.txt"],
        vec!["file", "remove", a, "a.txt"],
        vec!["archive", "verify", "in/a.txt"],
        vec!["archive", "info", "missing.mpq"],
        vec!["file", "list", "missing.mpq"],
        vec!["file", "find", "missing.mpq", "*"],
        vec!["archive", "create", "no/such/dir.mpq", "in"],
        vec!["table", "show", a],
        vec!["table", "show", a, "-t", "block"],
        vec!["table", "show", a, "-t", "het"],
        vec!["table", "show", a, "-t", "bet"],
        vec!["table", "analyze", a],
        vec!["crypto", "test", "-t", "nope"],
        vec!["hash", "generate", "x", "-t", "nope"],
        vec!["file", "list", a, "-r", "-p", "("],
        vec!["file", "find", a, "["],
        vec!["file", "find", a, "(", "-r"],
        vec!["archive", "analyze", "missing.mpq"],
        vec!["config", "set", "nope", "1"],
        vec!["archive", "create", a, "in", "-V", "5"],
        vec!["archive", "create", a, "in", "-b", "24"],
        vec!["archive", "create", a, "in", "--listfile", "nonexistent"],
    ] {
        if cli.run(&root, &args)?.code == 0 {
            return Err(format!("{:?} reported success", args));
        }
    }
    if std::fs::read(root.join(a)).ok() != Some(bytes) {
        return Err("a failed or reading command changed the archive".into());
    }
    let _ = std::fs::remove_dir_all(&root);
    Ok(())
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("exploration");
    ctx.rule("all subsets of a source tree with plain, nested, empty, spaced, quoted, non-ASCII and long names, and all combinations of the creation options, each created by the real tool and compared with the independent reader, every listing form, search pattern, information and verification; verification of archives with every region damaged; hash commands over names x types x formats; non-trivial = distinct (tree, options) and damages");
    let cli = Cli::new(ctx);
    let all = all_files();
    let base = |version, comp, shift| Opt { version, comp, shift, no_listfile: false, no_recursive: false, ignore: vec![], config: false };
    // all subsets
    let bits = if ctx.thorough { 10 } else { 8 };
    let subsets: Vec<usize> = (0..1usize << bits).collect();
    ctx.par(&subsets, |&m| {
        ctx.case(&format!("subset/{}", m), || {
            let t: Tree = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, (k, v))| (k.to_string(), v.clone())).collect();
            ctx.distinct(&("subset", m));
            ctx.sample("subset", || format!("{:?}", t.keys().collect::<Vec<_>>()));
            created(ctx, &cli, &t, &base(1 + (m % 4) as u16, "zlib", 0), false)
        });
    });
    // all options
    let full: Tree = all.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let mut opts = vec![];
    for version in 1..=4 {
        for comp in ["none", "zlib", "bzip2", "lzma", "sparse", "pkware"] {
            for shift in [0u16, 3, 8] {
                for k in 0..8 {
                    let mut o = base(version, comp, shift);
                    o.no_listfile = k & 1 == 1;
                    o.no_recursive = k & 2 == 2;
                    o.ignore = if k & 4 == 4 { vec!["zq"] } else { vec![] };
                    o.config = (k + shift as usize) % 2 == 1;
                    opts.push(o);
                }
            }
        }
    }
    ctx.par(&opts, |o| {
        let key = format!("options/v{}/{}/{}/{}{}{}{}", o.version, o.comp, o.shift, o.no_listfile as u8, o.no_recursive as u8, !o.ignore.is_empty() as u8, o.config as u8);
        ctx.case(&key, || {
            ctx.distinct(&key);
            ctx.sample("options", || key.clone());
            created(ctx, &cli, &full, o, ctx.thorough || (o.shift == 0 && !o.no_recursive && o.ignore.is_empty() && (o.comp == "zlib" || o.version == 4)))
        });
    });
    // every option with nothing to store
    let none = Tree::new();
    ctx.par(&opts, |o| {
        if o.shift == 3 {
            let key = format!("nothing/v{}/{}/{}{}{}", o.version, o.comp, o.no_listfile as u8, o.no_recursive as u8, !o.ignore.is_empty() as u8);
            ctx.case(&key, || {
                ctx.distinct(&key);
                created(ctx, &cli, &none, o, true)
            });
        }
    });
    // ignore patterns, up to two at a time; "in" and "c" also occur in the path of the source directory
    let pats = ["zq", "in", "c", "*.bin", "*.txt", "b/*", "?.txt", "[ab]*", "a.txt", "*", "n/e", "*.nothing", "d/e", "[!b]*", "b*e", "\u{e9}*"];
    let pairs: Vec<Vec<&'static str>> = (0..pats.len()).flat_map(|i| (i..pats.len()).map(move |j| if i == j { vec![pats[i]] } else { vec![pats[i], pats[j]] })).collect();
    ctx.par(&pairs, |l| {
        ctx.case(&format!("ignore/{:?}", l), || {
            let mut o = base(1 + (l.len() % 4) as u16, "zlib", 3);
            o.ignore = l.clone();
            o.no_recursive = l.len() == 1 && l[0].len() == 4;
            ctx.distinct(&("ignore", l));
            created(ctx, &cli, &full, &o, false)
        });
    });
    // many files, deep directories, long paths, large files
    let mut scale: Vec<(&str, Tree)> = vec![];
    scale.push(("many", (0..if ctx.thorough { 20_000 } else { 2500 }).map(|i| (format!("d{}/f{}", i % 37, i), format!("file {}", i).into_bytes())).collect()));
    scale.push(("deep", (0..60usize).map(|i| (format!("{}leaf{}", "n/".repeat(i), i), vec![i as u8; i])).collect()));
    scale.push(("long", (0..16usize).map(|i| (format!("{}{}", format!("{}/", "x".repeat(200)).repeat(i), "y".repeat(240)), vec![i as u8; 10 * i])).collect()));
    scale.push(("large", [("l1", 70_000usize), ("l2", 1_100_000), ("s/l3", 17_000_000)].iter().map(|(n, l)| (n.to_string(), content("mix", *l, 4096))).collect()));
    let jobs: Vec<(&str, &Tree, u16)> = scale.iter().flat_map(|(k, t)| [1u16, 2, 3, 4].map(|v| (*k, t, v))).collect();
    ctx.par(&jobs, |&(k, t, v)| {
        ctx.case(&format!("scale/{}/v{}", k, v), || {
            ctx.distinct(&("scale", k, v));
            created(ctx, &cli, t, &base(v, if v % 2 == 0 { "zlib" } else { "none" }, 3), false)
        });
    });
    // one file as the source; a name that is not UTF-8; an existing destination
    ctx.case("single-file", || {
        let root = dir(&ctx.file("s"));
        plant(&root.join("in"), &full);
        std::fs::write(root.join("o.mpq"), "old content").unwrap();
        give(&root.join("o.mpq"));
        cli.ok(&root, &["archive", "create", "o.mpq", "in/b/c.bin"])?;
        listings(&cli, &root, "o.mpq", &set(["(listfile)", "c.bin"]), &[])?;
        cli.ok(&root, &["file", "extract", "o.mpq", "c.bin", "-t", "z"])?;
        diff(&std::fs::read(root.join("z")).unwrap(), &full["b/c.bin"])
    });
    ctx.case("name-not-utf8", || {
        use std::os::unix::ffi::OsStrExt;
        let root = dir(&ctx.file("u"));
        plant(&root.join("in"), &Tree::from([("a".to_string(), b"1".to_vec())]));
        let odd = root.join("in").join(std::ffi::OsStr::from_bytes(b"b\xff\xfe.x"));
        std::fs::write(&odd, "odd").unwrap();
        let o = cli.run(&root, &["archive", "create", "o.mpq", "in"])?;
        if o.code == 0 {
            let v = json(&cli.ok(&root, &["file", "list", "o.mpq", "-o", "json"])?.out)?;
            if v.as_array().map(|a| a.len()) != Some(3) {
                return Err(format!("success, but the archive lists {}", v));
            }
        }
        Ok(())
    });
    // verification notices damage
    let mut jobs = vec![];
    for v in 0..4 {
        for m in [0, ZLIB] {
            for enc in [Enc::No, Enc::Fix] {
                jobs.push((v, m, enc));
            }
        }
    }
    ctx.par(&jobs, |&(v, m, enc)| {
        let key = format!("verify/v{}/{}/{:?}", v + 1, mname(m), enc);
        ctx.case(&key, || {
            let mut c = Cfg::new(VERSIONS[v], 0);
            c.crc = true;
            for (n, p, s) in [("one", "text", 60usize), ("two", "mix", 1300), ("three", "noise", 700)] {
                c.files.push(F::with(n, content(p, s, 512), m, enc));
            }
            let t = c.build(ctx)?;
            let good = t.bytes();
            let root = dir(&ctx.file("v"));
            let p = root.join("v.mpq");
            let mut spots: Vec<(usize, String, bool)> = vec![];
            {
                let ra = RefArchive::parse(&good)?;
                for f in &c.files {
                    let h = ra.lookup(&f.name, 0).ok_or("lookup")?;
                    for (at, len, what) in super::p09::protected(&ra, &f.name, &ra.block[h.block as usize]) {
                        for k in [0, len / 3, len / 2, len - 1] {
                            spots.push((at + k, format!("{} of {}", what, f.name), true));
                        }
                    }
                }
                if v == 3 {
                    let data_end = ra.block.iter().map(|b| b.pos as usize + b.csize as usize).max().unwrap_or(0);
                    let step = if ctx.thorough { 1 } else { 7 };
                    for at in (data_end + 16..good.len()).step_by(step) {
                        spots.push((at, "tables".into(), false));
                    }
                    for at in 0x2c..0xd0 {
                        spots.push((at, "header".into(), false));
                    }
                }
            }
            for (at, what, file) in spots {
                let mut d = good.clone();
                d[at] ^= 0x24;
                std::fs::write(&p, &d).unwrap();
                // what the library itself finds (its truthfulness: P09, P10)
                let lib = guarded(|| -> bool {
                    let Ok(mut a) = mopaq::Archive::open(&p) else { return false };
                    let Ok(i) = a.get_info() else { return false };
                    let md5 = i.md5_status.as_ref().is_none_or(|m| m.header_valid && m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid);
                    md5 && c.files.iter().all(|f| a.read_file(&f.name).is_ok_and(|x| x == f.data))
                })?;
                let o = cli.run(&root, &["archive", "verify", "v.mpq", "--check-contents", "-o", "json"])?;
                if lib != (o.code == 0) {
                    return Err(format!("byte {} ({}) damaged: verify exits with {}, the library finds the archive {}", at, what, o.code, if lib { "intact" } else { "damaged" }));
                }
                if let Ok(j) = json(&o.out) {
                    if j["passed"].as_bool() != Some(o.code == 0) {
                        return Err(format!("byte {} ({}): passed is {}, exit {}", at, what, j["passed"], o.code));
                    }
                    verify_report(&p, &j, true).map_err(|e| format!("byte {} ({}): {}", at, what, e))?;
                    if ctx.thorough || file || at % 6 == 0 {
                        verify_forms(&cli, &root, &["archive", "verify", "v.mpq", "--check-contents"], &j, o.code).map_err(|e| format!("byte {} ({}): {}", at, what, e))?;
                    }
                } else if o.code == 0 {
                    return Err("no report".into());
                }
                if !file && lib && v == 3 {
                    ctx.add("unnoticed_by_library", 1);
                }
                ctx.distinct(&(&key, at));
                ctx.add("damages", 1);
            }
            let _ = std::fs::remove_dir_all(&root);
            Ok(())
        });
    });
    for good in [true, false] {
        ctx.case(&format!("verify/signed/{}", good), || {
            let mut w = RefWriter::new(0, 0);
            w.files.push(RefFile::new("f", content("text", 50, 512)));
            let mut s = RefFile::new("(signature)", [vec![0u8; 8], vec![1; 64]].concat());
            s.single = true;
            w.files.push(s);
            w.files.push(RefFile::new("(listfile)", b"f\r\n".to_vec()));
            let mut d = w.write();
            let pos = p14::sign_archive(&mut d)?;
            if !good {
                d[pos + 30] ^= 1;
            }
            let root = dir(&ctx.file("sg"));
            std::fs::write(root.join("s.mpq"), d).unwrap();
            let o = cli.run(&root, &["archive", "verify", "s.mpq"])?;
            let i = json(&cli.ok(&root, &["archive", "info", "s.mpq", "-o", "json"])?.out)?;
            if (o.code == 0) != good || i["signature_status"].as_str() != Some(if good { "WeakValid" } else { "WeakInvalid" }) {
                return Err(format!("signature good: {}; exit {}, {}", good, o.code, i["signature_status"]));
            }
            Ok(())
        });
    }
    // archive information
    let mut arch: Vec<(String, Vec<u8>)> = vec![];
    for v in 0..4 {
        for (k, lf) in [Lf::Gen, Lf::None].into_iter().enumerate() {
            for tables in [None, Some(ZLIB)] {
                for enc in ENCS {
                    let mut c = Cfg::new(VERSIONS[v], 2 * k as u16);
                    c.lf = lf;
                    c.tables = tables;
                    c.crc = enc == Enc::No;
                    for (n, p, s) in [("one", "text", 60usize), ("dir/two", "mix", 3000), ("three", "noise", 700)] {
                        c.files.push(F::with(n, content(p, s, 512), ZLIB, enc));
                    }
                    if let Ok(t) = c.build(ctx) {
                        let b = t.bytes();
                        if enc == Enc::No && v == 3 {
                            for at in [0x30usize, 0x70, 0x90, 0xb5] {
                                let mut d = b.clone();
                                d[at] ^= 1;
                                arch.push((format!("v4/{}{:?}damaged{}", k, tables, at), d));
                            }
                        }
                        arch.push((format!("v{}/{}{:?}{:?}", v + 1, k, tables, enc), b));
                    }
                }
            }
        }
        for hi in [false, true] {
            for user in [None, Some(16u32), Some(700)] {
                for pre in [0usize, 1024] {
                    let mut w = RefWriter::new(v as u16, 1);
                    w.hi_block = hi && v > 0;
                    w.user_data = user;
                    w.prefix = vec![7; pre];
                    w.extra_dead_blocks = 2;
                    w.files.push(RefFile::new("f", content("text", 1500, 512)));
                    w.files.push(RefFile::new("(listfile)", b"f\r\n".to_vec()));
                    arch.push((format!("ref{}/{}{:?}{}", v + 1, hi, user, pre), w.write()));
                }
            }
        }
    }
    ctx.par(&arch, |(k, b)| {
        ctx.case(&format!("info/{}", k), || {
            let root = dir(&ctx.file("i"));
            for name in ["i.mpq", "q\"u,o te.mpq"] {
                std::fs::write(root.join(name), b).unwrap();
                info(&cli, &root, name)?;
                let o = cli.run(&root, &["archive", "verify", name, "-o", "csv"])?;
                if o.code == 0 {
                    let rows = csv(&o.out)?;
                    if rows.iter().any(|r| r.len() != 2) || !rows.contains(&vec!["archive".into(), name.into()]) || !rows.contains(&vec!["passed".into(), "true".into()]) {
                        return Err(format!("verify (CSV): {:?}", rows));
                    }
                    let count = |k: &str| rows.iter().find(|r| r[0] == k).and_then(|r| r[1].parse::<u64>().ok());
                    let j = json(&cli.ok(&root, &["archive", "verify", name, "-o", "json"])?.out)?;
                    verify_report(&root.join(name), &j, false)?;
                    if count("total_files") != j["total_files"].as_u64() || count("verified_files") != j["verified_files"].as_u64() || count("errors") != Some(0) {
                        return Err(format!("verify: CSV {:?}, JSON {}", rows, j));
                    }
                }
            }
            if !k.contains("damaged") && !k.starts_with("ref") {
                let has_list = RefArchive::parse(b)?.lookup("(listfile)", 0).is_some();
                if has_list {
                    verbose(&cli, &root, "i.mpq", b)?;
                }
            }
            ctx.distinct(&("info", k));
            let _ = std::fs::remove_dir_all(&root);
            Ok(())
        });
    });
    // configuration histories
    let ops = conf_ops();
    let mut hist: Vec<(usize, Vec<usize>)> = vec![];
    let starts = [None, Some("default_version = 3"), Some("default_compression = \"lzma\"\ndefault_output = \"csv\"")];
    for s in 0..starts.len() {
        for a in 0..ops.len() {
            hist.push((s, vec![a]));
            for b in 0..ops.len() {
                hist.push((s, vec![a, b]));
                if ctx.thorough {
                    for c in 0..ops.len() {
                        hist.push((s, vec![a, b, c]));
                    }
                }
            }
        }
    }
    ctx.par(&hist, |(s, h)| {
        let key = format!("config/{}/{:?}", s, h);
        ctx.case(&key, || {
            ctx.distinct(&key);
            ctx.sample("config", || format!("{:?}", h.iter().map(|i| &ops[*i]).collect::<Vec<_>>()));
            ctx.add("config_histories", 1);
            conf_history(ctx, &cli, starts[*s], &h.iter().map(|i| &ops[*i]).collect::<Vec<_>>())
        });
    });
    // configuration files that mean nothing are refused, not ignored
    for (i, bad) in ["default_version = \"two\"", "default_version = 3\ndefault_block_size", "default_block_size = 99999999", "[[[", "default_compression = 5", "\0"].iter().enumerate() {
        ctx.case(&format!("config-bad/{}", i), || {
            let root = dir(&ctx.file("cb"));
            std::fs::write(root.join("f"), "content").unwrap();
            std::fs::write(root.join("conf.toml"), bad).unwrap();
            give(&root.join("conf.toml"));
            for args in [vec!["archive", "create", "o.mpq", "f"], vec!["config", "show"], vec!["config", "set", "default_version", "2"]] {
                let args: Vec<&str> = ["-C", "conf.toml"].into_iter().chain(args).collect();
                if cli.run(&root, &args)?.code == 0 {
                    return Err(format!("{:?} succeeded with the configuration {:?}", args, bad));
                }
            }
            if std::fs::read_to_string(root.join("conf.toml")).ok().as_deref() != Some(*bad) || root.join("o.mpq").exists() {
                return Err("a refused command had an effect".into());
            }
            Ok(())
        });
    }
    // symbolic links and external list files
    for follow in [false, true] {
        ctx.case(&format!("links/{}", follow), || {
            let root = dir(&ctx.file("l"));
            plant(&root.join("in"), &Tree::from([("a".to_string(), b"1".to_vec()), ("d/b".to_string(), b"22".to_vec())]));
            plant(&root.join("other"), &Tree::from([("x".to_string(), b"333".to_vec()), ("s/y".to_string(), b"4444".to_vec())]));
            std::os::unix::fs::symlink("../other", root.join("in/link")).unwrap();
            let mut args = vec!["archive", "create", "o.mpq", "in"];
            let mut want = Tree::from([("a".to_string(), b"1".to_vec()), ("d/b".to_string(), b"22".to_vec())]);
            if follow {
                args.push("--follow-symlinks");
                want.insert("link/x".into(), b"333".to_vec());
                want.insert("link/s/y".into(), b"4444".to_vec());
            }
            cli.ok(&root, &args)?;
            let mut names: BTreeSet<String> = want.keys().cloned().collect();
            names.insert("(listfile)".into());
            listings(&cli, &root, "o.mpq", &names, &[])?;
            cli.ok(&root, &["file", "extract", "o.mpq", "-p", "-t", "x"])?;
            let mut got = files(&tree(&root.join("x")));
            got.remove("(listfile)");
            tree_diff(&got, &want)?;
            // a loop must not hang it, nor make it claim success for something else
            std::os::unix::fs::symlink(".", root.join("in/loop")).unwrap();
            args[2] = "p.mpq";
            let o = cli.run(&root, &args)?;
            if o.code == 0 {
                listings(&cli, &root, "p.mpq", &names, &[])?;
            }
            Ok(())
        });
    }
    ctx.case("external-listfile", || {
        let root = dir(&ctx.file("e"));
        let t = Tree::from([("a".to_string(), b"1".to_vec()), ("d/b".to_string(), b"22".to_vec()), ("c".to_string(), b"3".to_vec())]);
        plant(&root.join("in"), &t);
        std::fs::write(root.join("names"), "a\nd/b\n").unwrap();
        cli.ok(&root, &["archive", "create", "o.mpq", "in", "--listfile", "names"])?;
        listings(&cli, &root, "o.mpq", &set(["a", "d/b"]), &[])?;
        for (k, d) in &t {
            cli.ok(&root, &["file", "extract", "o.mpq", k, "-t", "one"])?;
            diff(&std::fs::read(root.join("one")).map_err(|e| e.to_string())?, d)?;
        }
        cli.ok(&root, &["archive", "create", "o.mpq", "in", "-i", "a", "-i", "b"]).map(|_| ())?;
        listings(&cli, &root, "o.mpq", &set(["c", "(listfile)"]), &[])
    });
    // hashes
    let names = ["a.txt", "(listfile)", "A.TXT", "Scripts\\Common.j", "scripts/common.j", "q\"t", "\u{e9}", "", "x y,z"];
    let work = dir(&ctx.file("h"));
    for (i, n) in names.iter().enumerate() {
        ctx.case(&format!("hash/{}", i), || {
            let w: Vec<u32> = (0..5).map(|t| r::hash(n.as_bytes(), t)).collect();
            let allo = cli.ok(&work, &["hash", "generate", "--all", "--", n])?.out;
            for (t, label) in ["Table offset", "Name A", "Name B", "File key", "Key2 mix"].iter().enumerate() {
                let l = allo.lines().find(|l| l.trim_start().starts_with(label)).ok_or("missing line")?;
                if !l.ends_with(&format!("{:#010x}", w[t])) {
                    return Err(format!("{:?}: {} instead of {:#010x}", n, l, w[t]));
                }
            }
            for (t, ty) in ["table-offset", "name-a", "name-b", "file-key", "key2-mix"].iter().enumerate() {
                let o = cli.ok(&work, &["hash", "generate", "-t", ty, "--", n])?.out;
                if o.trim() != format!("{:#010x}", w[t]) {
                    return Err(format!("{:?} {}: {}", n, ty, o));
                }
                let j = json(&cli.ok(&work, &["hash", "generate", "-t", ty, "-o", "json", "--", n])?.out)?;
                if j["filename"].as_str() != Some(n) || j["value"].as_str() != Some(&format!("{:#010x}", w[t])) {
                    return Err(format!("{:?} {}: {}", n, ty, j));
                }
            }
            for m in names {
                let o = cli.ok(&work, &["hash", "compare", "-v", "--", n, m])?.out;
                for (t, label) in ["Table offset:", "Name A:", "Name B:", "File key:", "Key2 mix:"].iter().enumerate() {
                    let x = r::hash(m.as_bytes(), t as u32);
                    let l = o.lines().find(|l| l.starts_with(label)).ok_or("missing line")?;
                    if !l.ends_with(&format!("{:#010x} vs {:#010x} [{}]", w[t], x, if w[t] == x { "MATCH" } else { "DIFFER" })) {
                        return Err(format!("{:?} {:?}: {}", n, m, l));
                    }
                }
            }
            let j = cli.ok(&work, &["hash", "jenkins", "--", n])?.out;
            if !j.contains(&format!("{:#018x}", super::p06::jenkins(n.as_bytes()))) {
                return Err(format!("{:?}: {}", n, j));
            }
            ctx.distinct(&("hash", n));
            Ok(())
        });
    }
    // pairs of names that share a hash, or one half of it
    let mut pairs: Vec<(String, String)> = super::p02::TWINS.iter().map(|t| (t.1.to_string(), t.2.to_string())).collect();
    let pool: Vec<String> = (0..2000).map(|i| format!("n{}", i)).collect();
    for t in 0..5u32 {
        for half in [0u32, 16] {
            let mut seen = std::collections::HashMap::new();
            let mut found = 0;
            for n in &pool {
                let h = (r::hash(n.as_bytes(), t) >> half) as u16;
                if let Some(m) = seen.insert(h, n) {
                    pairs.push((m.clone(), n.clone()));
                    found += 1;
                    if found == 2 {
                        break;
                    }
                }
            }
        }
    }
    ctx.par(&pairs, |(a, b)| {
        ctx.case(&format!("hash-pair/{}/{}", a, b), || {
            let loud = cli.ok(&work, &["hash", "compare", "-v", "--", a, b])?.out;
            let still = cli.ok(&work, &["hash", "compare", "--", a, b])?.out;
            for (t, label) in ["Table offset:", "Name A:", "Name B:", "File key:", "Key2 mix:"].iter().enumerate() {
                let (x, y) = (r::hash(a.as_bytes(), t as u32), r::hash(b.as_bytes(), t as u32));
                let want = format!("{:#010x} vs {:#010x} [{}]", x, y, if x == y { "MATCH" } else { "DIFFER" });
                let l = loud.lines().find(|l| l.starts_with(label)).ok_or("missing line")?;
                if !l.ends_with(&want) {
                    return Err(format!("{} instead of {}", l, want));
                }
                let l = still.lines().find(|l| l.starts_with(label));
                if l.is_some_and(|l| !l.ends_with(&want)) || l.is_none() && x == y {
                    return Err(format!("without details: {:?} where {} is true", l, want));
                }
            }
            for n in [a, b] {
                if !cli.ok(&work, &["hash", "jenkins", "--", n])?.out.contains(&format!("{:#018x}", super::p06::jenkins(n.as_bytes()))) {
                    return Err(format!("extended hash of {}", n));
                }
            }
            ctx.distinct(&("hash-pair", a, b));
            Ok(())
        });
    });
    faults(ctx, &cli);
    ctx.assume("source names stay within what list files can express (P03)");
}

/// The counts of a verification report are those of the files the library lists and can read.
fn verify_report(p: &Path, j: &serde_json::Value, contents: bool) -> Result<(), String> {
    guarded(|| -> Result<(), String> {
        let mut a = mopaq::Archive::open(p).map_err(|e| e.to_string())?;
        let names: Vec<String> = a.list().map_err(|e| e.to_string())?.into_iter().map(|e| e.name).collect();
        let mut found = 0u64;
        let mut readable = 0u64;
        for n in &names {
            if !a.find_file(n).map_err(|e| e.to_string())?.is_some() {
                continue;
            }
            found += 1;
            let ok = a.read_file(n).is_ok();
            readable += ok as u64;
            if contents && !ok && !j["errors"].as_array().is_some_and(|e| e.iter().any(|e| e["file"].as_str() == Some(n))) {
                return Err(format!("{:?} cannot be read but is not among the errors: {}", n, j["errors"]));
            }
        }
        let f = &j["file_checks"];
        let n = |v: &serde_json::Value| v.as_u64();
        let i = a.get_info().map_err(|e| e.to_string())?;
        let t = &j["table_checks"];
        let loaded = |o: &Option<mopaq::archive::TableInfo>| o.as_ref().map(|t| !t.failed_to_load);
        let m = &t["md5_checksums"];
        if n(&j["format_version"]) != Some(i.format_version as u64 + 1)
            || t["hash_table_loaded"].as_bool() != Some(!i.hash_table_info.failed_to_load)
            || t["block_table_loaded"].as_bool() != Some(!i.block_table_info.failed_to_load)
            || t["het_table_loaded"].as_bool() != loaded(&i.het_table_info)
            || t["bet_table_loaded"].as_bool() != loaded(&i.bet_table_info)
            || m.is_object() != i.md5_status.is_some()
            || i.md5_status.as_ref().is_some_and(|s| {
                [("header", s.header_valid), ("hash_table", s.hash_table_valid), ("block_table", s.block_table_valid), ("hi_block_table", s.hi_block_table_valid), ("het_table", s.het_table_valid), ("bet_table", s.bet_table_valid)]
                    .iter()
                    .any(|(k, v)| m[format!("{}_valid", k)].as_bool() != Some(*v))
            })
            || !j["header_checks"]["signature_status"].as_str().is_some_and(|s| s.contains(&format!("{:?}", i.signature_status)))
        {
            return Err(format!("verification report {}; the library says {:?}", j, i));
        }
        if n(&j["total_files"]) != Some(names.len() as u64)
            || n(&j["verified_files"]) != Some(if contents { readable } else { found })
            || n(&f["files_found"]) != Some(found)
            || n(&f["files_missing"]) != Some(names.len() as u64 - found)
            || (contents && (n(&f["files_readable"]) != Some(readable) || n(&f["files_corrupted"]) != Some(found - readable)))
        {
            return Err(format!("verification report {}; the library lists {} files, finds {} and reads {}", j, names.len(), found, readable));
        }
        Ok(())
    })?
}

/// An analysis counts every file once and adds up its sizes, in every form.
fn analysis(cli: &Cli, root: &Path, a: &str, bytes: &[u8], names: &BTreeSet<String>) -> Result<(), String> {
    let an = json(&cli.ok(root, &["archive", "analyze", a, "-e", "-o", "json"])?.out)?;
    let ra = RefArchive::parse(bytes)?;
    let (mut cs, mut fs, n) = (0u64, 0u64, names.len() as u64);
    let mut ext: BTreeMap<String, u64> = BTreeMap::new();
    let det = if names.is_empty() { String::new() } else { cli.ok(root, &["archive", "analyze", a, "-d", "-s"])?.out };
    for k in names {
        let b = &ra.block[ra.lookup(k, 0).ok_or("analysis: lookup")?.block as usize];
        cs += b.csize as u64;
        fs += b.fsize as u64;
        let e = Path::new(k).extension().and_then(|e| e.to_str()).map_or("(no extension)".to_string(), |e| e.to_lowercase());
        *ext.entry(e).or_default() += 1;
        if !det.lines().any(|l| l.contains(k.as_str()) && l.contains(&format!("({} -> {} bytes", b.fsize, b.csize))) {
            return Err(format!("detailed analysis lacks {:?} ({} -> {} bytes): {}", k, b.fsize, b.csize, det));
        }
    }
    let methods: u64 = an["compression_methods"].as_object().ok_or("analysis")?.values().map(|m| m["count"].as_u64().unwrap_or(0)).sum();
    let by: BTreeMap<String, u64> = an["by_extension"].as_object().ok_or("analysis")?.iter().map(|(k, m)| (k.clone(), m.as_object().map_or(0, |m| m.values().map(|v| v.as_u64().unwrap_or(0)).sum()))).collect();
    if an["total_files"].as_u64() != Some(n) || an["total_compressed_size"].as_u64() != Some(cs) || an["total_uncompressed_size"].as_u64() != Some(fs) || methods != n || by != ext {
        return Err(format!("analysis: {} ({} files, {} -> {} bytes, {:?})", an, n, fs, cs, ext));
    }
    let rows = csv(&cli.ok(root, &["archive", "analyze", a, "-o", "csv"])?.out)?;
    if rows.is_empty() || rows.iter().any(|r| r.len() != rows[0].len()) || rows[1..].iter().map(|r| r.get(1).and_then(|c| c.parse::<u64>().ok()).unwrap_or(0)).sum::<u64>() != n {
        return Err(format!("analysis (CSV): {:?}", rows));
    }
    let field = |k: &str| det.lines().find_map(|l| l.trim().strip_prefix(k).map(|r| r.trim().to_string()));
    if n > 0 && (field("Total files:") != Some(n.to_string()) || field("Total uncompressed:") != Some(format!("{} bytes", fs)) || field("Total compressed:") != Some(format!("{} bytes", cs))) {
        return Err(format!("analysis (text): {} ({} files, {} -> {} bytes)", det, n, fs, cs));
    }
    Ok(())
}

/// The text and CSV forms of a verification report say what its JSON form says.
fn verify_forms(cli: &Cli, root: &Path, args: &[&str], j: &serde_json::Value, code: i32) -> Result<(), String> {
    let o = cli.run(root, args)?;
    let field = |k: &str| o.out.lines().find_map(|l| l.trim().strip_prefix(k).map(|r| r.trim().to_string()));
    let f = &j["file_checks"];
    let passed = j["passed"].as_bool() == Some(true);
    for (k, want) in [("Total Files:", &j["total_files"]), ("Files Found:", &f["files_found"]), ("Files Readable:", &f["files_readable"]), ("Files Missing:", &f["files_missing"]), ("Files Corrupted:", &f["files_corrupted"])] {
        if field(k).as_deref() != Some(&want.to_string()) {
            return Err(format!("verify (text): {} {:?} instead of {}", k, field(k), want));
        }
    }
    if !field("Verified:").is_some_and(|v| v.starts_with(&format!("{} / {} ", j["verified_files"], j["total_files"]))) || !field("Format:").is_some_and(|v| v == format!("MPQ v{}", j["format_version"])) {
        return Err(format!("verify (text): {}", o.out));
    }
    let m = &j["table_checks"]["md5_checksums"];
    for (k, n) in [("Header MD5:", "header_valid"), ("Hash Table MD5:", "hash_table_valid"), ("Block Table MD5:", "block_table_valid"), ("Hi-Block Table MD5:", "hi_block_table_valid"), ("HET Table MD5:", "het_table_valid"), ("BET Table MD5:", "bet_table_valid")] {
        let want = m[n].as_bool().map(|b| if b { "Valid" } else { "Invalid" });
        if field(k).as_deref() != want {
            return Err(format!("verify (text): {} {:?} instead of {:?}", k, field(k), want));
        }
    }
    for e in j["errors"].as_array().ok_or("errors")? {
        let (n, w) = (e["file"].as_str().unwrap_or("?"), e["error"].as_str().unwrap_or("?"));
        if !o.out.contains(&format!("{} - {}", n, w)) {
            return Err(format!("verify (text) does not name {:?}: {}", n, o.out));
        }
    }
    if o.code != code || passed != (code == 0) || o.out.contains("PASSED") != passed || o.out.contains("FAILED") == passed {
        return Err(format!("verify (text): exit {}, JSON said {} with exit {}: {}", o.code, passed, code, o.out));
    }
    let mut c = args.to_vec();
    c.extend(["-o", "csv"]);
    let o = cli.run(root, &c)?;
    let rows = csv(&o.out)?;
    let get = |k: &str| rows.iter().find(|r| r.len() == 2 && r[0] == k).map(|r| r[1].clone());
    let len = |k: &str| Some(j[k].as_array().map_or(0, |a| a.len()).to_string());
    let num = |k: &str| Some(j[k].to_string());
    if o.code != code || get("total_files") != num("total_files") || get("verified_files") != num("verified_files") || get("format_version") != num("format_version") || get("errors") != len("errors") || get("warnings") != len("warnings") || get("passed") != num("passed") {
        return Err(format!("verify (CSV): exit {}, {:?}; JSON {}", o.code, rows, j));
    }
    let mut q = args.to_vec();
    q.push("-q");
    let o = cli.run(root, &q)?;
    if o.code != code || !o.out.is_empty() {
        return Err(format!("verify -q: exit {} instead of {}, {:?}", o.code, code, o.out));
    }
    Ok(())
}

/// Every system call of creating, listing, describing and verifying an archive fails once.
fn faults(ctx: &'static Ctx, cli: &Cli) {
    let t: Tree = [("a.txt", content("text", 40, 512)), ("b/c.bin", content("mix", 9000, 512)), ("b/d/e", content("noise", 700, 512)), ("empty", vec![])].into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let complete = |b: &[u8], lf: bool| -> Result<(), String> {
        let a = RefArchive::parse(b)?;
        for (k, v) in &t {
            let h = a.lookup(k, 0).ok_or_else(|| format!("{:?} is not in the archive", k))?;
            let (_, d) = a.extract(&k.replace('/', "\\"), &a.block[h.block as usize])?;
            diff(&d, v).map_err(|e| format!("{:?}: {}", k, e))?;
        }
        let n = a.block.iter().filter(|b| b.flags & r::EXISTS != 0).count();
        if n != t.len() + lf as usize {
            return Err(format!("{} files instead of {}", n, t.len() + lf as usize));
        }
        Ok(())
    };
    for v in ["1", "2", "3", "4"] {
        for old in [false, true] {
            if !ctx.thorough && old != (v == "1" || v == "4") {
                continue;
            }
            cli.faults(
                ctx,
                &format!("faults/create/v{}/{}", v, old),
                &["archive", "create", "o.mpq", "src-tree", "--version", v],
                "src-tree",
                |d| {
                    plant(&d.join("src-tree"), &t);
                    if old {
                        std::fs::write(d.join("o.mpq"), "old content").unwrap();
                        give(&d.join("o.mpq"));
                    }
                },
                |unnoticed, o, d| {
                    if files(&tree(&d.join("src-tree"))) != t {
                        return Err("the sources were changed".into());
                    }
                    let got = std::fs::read(d.join("o.mpq")).ok();
                    if o.code != 0 {
                        if unnoticed {
                            return Err("creation failed".into());
                        }
                        return match got {
                            None if !old => Ok(()),
                            Some(g) if old && g == b"old content" => Ok(()),
                            Some(g) => complete(&g, true).map_err(|e| format!("creation failed and left something else behind: {}", e)),
                            None => Err("creation failed and removed what was there".into()),
                        };
                    }
                    complete(&got.ok_or("success was reported, but there is no archive")?, true).map_err(|e| format!("success was reported, but {}", e))
                },
            );
        }
    }
    // reading commands: what they say with success is what they say undisturbed
    for v in 0..4 {
        let mut c = Cfg::new(VERSIONS[v], 0);
        c.crc = true;
        for (i, (k, d)) in t.iter().enumerate() {
            c.files.push(F::with(&k.replace('/', "\\"), d.clone(), ZLIB, ENCS[i % 3]));
        }
        let Ok(good) = c.build(ctx).map(|t| t.bytes()) else { return ctx.case("faults/build", || Err("build failed".into())) };
        let mut bad = good.clone();
        {
            let a = RefArchive::parse(&good).unwrap();
            let n = "b\\d\\e";
            let h = a.lookup(n, 0).unwrap();
            let reg = super::p09::protected(&a, n, &a.block[h.block as usize]).into_iter().find(|x| x.2 == "data").unwrap();
            bad[reg.0 + reg.1 / 2] ^= 0x10;
        }
        for (what, bytes, args) in [
            ("list", &good, vec!["file", "list", "arch.mpq", "-o", "json"]),
            ("find", &good, vec!["file", "find", "arch.mpq", "*e*"]),
            ("file-info", &good, vec!["file", "info", "arch.mpq", "b\\c.bin"]),
            ("info", &good, vec!["archive", "info", "arch.mpq", "-o", "json"]),
            ("verify", &good, vec!["archive", "verify", "arch.mpq", "--check-contents"]),
            ("verify-bad", &bad, vec!["archive", "verify", "arch.mpq", "--check-contents"]),
        ] {
            if v % 3 != 0 && !ctx.thorough && !what.starts_with("verify") {
                continue;
            }
            let want = std::sync::OnceLock::new();
            let expect = if what == "verify-bad" { false } else { true };
            cli.faults(
                ctx,
                &format!("faults/{}/v{}", what, v + 1),
                &args,
                "arch.mpq",
                |d| std::fs::write(d.join("arch.mpq"), bytes).unwrap(),
                |unnoticed, o, d| {
                    if std::fs::read(d.join("arch.mpq")).ok().as_ref() != Some(bytes) {
                        return Err("the archive was changed".into());
                    }
                    let w: &String = want.get_or_init(|| o.out.clone());
                    if unnoticed && (o.code == 0) != expect {
                        return Err(format!("ends with {}", o.code));
                    }
                    if o.code == 0 && !expect {
                        return Err("a damaged archive was called intact".into());
                    }
                    // optional tables that cannot be read are reported as such
                    if (o.code == 0 || unnoticed) && o.out != *w && (unnoticed || what != "info") {
                        return Err(format!("says {:?} instead of {:?}", o.out.chars().take(300).collect::<String>(), w.chars().take(300).collect::<String>()));
                    }
                    Ok(())
                },
            );
        }
    }
}
