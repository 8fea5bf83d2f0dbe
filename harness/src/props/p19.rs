//! P19: extraction writes exactly the files of the archive, and only inside the target directory.
use super::cli::*;
use super::common::*;
use crate::engine::*;
use crate::refmpq::{RefArchive, RefFile, RefWriter};
use std::collections::{BTreeMap, BTreeSet};

const OK: &[u8] = b"an ordinary file";
const EVIL: &[u8] = b"content of the file with the unusual name";

fn archive(name: &str) -> Vec<u8> {
    let mut w = RefWriter::new(0, 0);
    w.files.push(RefFile::new("ok.txt", OK.to_vec()));
    w.files.push(RefFile::new(name, EVIL.to_vec()));
    w.files.push(RefFile::new("(listfile)", format!("{}\r\nok.txt\r\n", name).into_bytes()));
    w.write()
}

pub fn run(ctx: &'static Ctx) {
    ctx.level("exploration");
    ctx.rule("all stored names of up to 3 (4) components over parent, current, empty, drive, dotted and plain components x separators x leading separators and absolute paths, each extracted by the real tool with and without its path, alone and with the whole archive; all archive configurations extracted and compared; every kind of failure; non-trivial = distinct (name, mode) pairs and archives");
    let cli = Cli::new(ctx);
    // ---- names
    let comps = ["..", ".", "", "a", "x.bin", "...", "C:", "..x"];
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut names = BTreeSet::new();
    for d in 1..=depth {
        for code in 0..comps.len().pow(d as u32) {
            let mut c = code;
            let mut v = vec![];
            for _ in 0..d {
                v.push(comps[c % comps.len()]);
                c /= comps.len();
            }
            for sep in 0..3 {
                let mut s = String::new();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(if sep == 0 || (sep == 2 && i % 2 == 0) { '/' } else { '\\' });
                    }
                    s += x;
                }
                names.insert(s);
            }
        }
    }
    names.insert("ABS/evil.txt".into());
    names.insert("ABS/../evil.txt".into());
    names.insert("ABS\\evil.txt".into());
    names.insert("a/ABS/evil.txt".into());
    names.insert("../../../../a/x.bin".into());
    names.insert("a/../../../x.bin".into());
    names.insert("..\\..\\..\\x.bin".into());
    names.insert("C:\\a\\x.bin".into());
    names.insert("\\\\host\\share\\x.bin".into());
    let names: Vec<String> = names.into_iter().filter(|n| !n.is_empty() && n.trim() == n && *n != "ok.txt").collect();
    ctx.note("names", names.len() as u64);
    ctx.par(&names, |n| {
        for mode in 0..5 {
            ctx.case(&format!("name/{}/{}", n, mode), || {
                // case/l1/l2/work/target: four parents may be escaped to and are watched
                let root = dir(&ctx.file("case"));
                let l1 = dir(&root.join("l1"));
                let l2 = dir(&l1.join("l2"));
                let work = dir(&l2.join("work"));
                let target = dir(&work.join("target"));
                dir(&root.join("abs"));
                let n = n.replace("ABS", root.join("abs").to_str().unwrap());
                std::fs::write(root.join("archive.mpq"), archive(&n)).unwrap();
                for d in [&root, &l1, &l2, &work] {
                    std::fs::write(d.join("x.bin"), "canary").unwrap();
                    give(&d.join("x.bin"));
                }
                let before = tree(&root);
                let arch = root.join("archive.mpq");
                let a = arch.to_str().unwrap();
                let t = target.to_str().unwrap();
                let o = match mode {
                    0 => cli.run(&work, &["file", "extract", a, "-t", t, "-p"])?,
                    1 => cli.run(&work, &["file", "extract", a, "-t", t])?,
                    2 => cli.run(&target, &["file", "extract", a, "-p"])?,
                    3 => cli.run(&target, &["file", "extract", a, "-p", "--", &n])?,
                    _ => cli.run(&target, &["file", "extract", a, "--", &n])?,
                };
                let after = tree(&root);
                let inside = |k: &str| k == "l1/l2/work/target" || k.starts_with("l1/l2/work/target/");
                for (k, v) in before.iter().filter(|x| !inside(x.0)) {
                    if after.get(k) != Some(v) {
                        return Err(format!("extracting {:?} changed {:?}, outside the target directory", n, k));
                    }
                }
                if let Some(k) = after.keys().find(|k| !inside(k) && !before.contains_key(*k)) {
                    return Err(format!("extracting {:?} wrote {:?}, outside the target directory", n, k));
                }
                let got = files(&tree(&target));
                let all = mode < 3;
                // what was written is the content of one of the files
                for (k, v) in &got {
                    if v != OK && v != EVIL && k != "(listfile)" {
                        return Err(format!("{:?} holds something else", k));
                    }
                }
                if all && got.get("ok.txt").map(|v| &v[..]) != Some(OK) {
                    return Err(format!("the ordinary file next to {:?} was not extracted", n));
                }
                let parts: Vec<&str> = n.split(['/', '\\']).collect();
                let plain = parts.iter().all(|p| ["a", "x.bin", "..x"].contains(p));
                if plain {
                    let flat = mode == 1 || mode == 4;
                    let want = if flat { parts.last().unwrap().to_string() } else { parts.join("/") };
                    let mut w = BTreeMap::from([(want, EVIL.to_vec())]);
                    if all {
                        w.insert("ok.txt".into(), OK.to_vec());
                    }
                    let mut g = got.clone();
                    g.remove("(listfile)");
                    tree_diff(&g, &w).map_err(|e| format!("extracting {:?}: {}", n, e))?;
                    if o.code != 0 {
                        return Err(format!("extracting {:?} failed: {}", n, o.err));
                    }
                } else if o.code == 0 && !got.values().any(|v| v == EVIL) {
                    return Err(format!("extracting {:?} reported success, but the file was not written", n));
                }
                ctx.distinct(&(&n, mode));
                ctx.sample(if plain { "plain name" } else { "unusual name" }, || format!("{:?} mode {}: exit {}, wrote {:?}", n, mode, o.code, got.keys().collect::<Vec<_>>()));
                let _ = std::fs::remove_dir_all(&root);
                Ok(())
            });
        }
    });
    // ---- files that go to the same place: none silently replaces another
    let pool = ["one.bin", "a/one.bin", "a\\b/one.bin", "c\\one.bin", "a//one.bin", ".\\one.bin", "two", "a/two"];
    let mut sets: Vec<Vec<usize>> = vec![];
    for m in 0..1usize << pool.len() {
        let l: Vec<usize> = (0..pool.len()).filter(|i| m >> i & 1 == 1).collect();
        if (2..=if ctx.thorough { 5 } else { 3 }).contains(&l.len()) {
            sets.push(l);
        }
    }
    ctx.par(&sets, |l| {
        for keep in [false, true] {
            for equal in [false, true] {
                ctx.case(&format!("clash/{:?}/{}/{}", l, keep, equal), || {
                    let mut c = Cfg::new(VERSIONS[l[0] % 4], 0);
                    for &i in l {
                        c.files.push(F::with(pool[i], if equal { b"all the same".to_vec() } else { format!("contents {}", i).into_bytes() }, [0, ZLIB][i % 2], Enc::No));
                    }
                    let t = c.build(ctx)?;
                    let root = dir(&ctx.file("clash"));
                    std::fs::write(root.join("a.mpq"), t.bytes()).unwrap();
                    let mut args = vec!["file", "extract", "a.mpq", "-t", "x"];
                    if keep {
                        args.push("-p");
                    }
                    let o = cli.run(&root, &args)?;
                    let mut got = files(&tree(&root.join("x")));
                    got.remove("(listfile)");
                    let mut want: BTreeMap<String, Vec<&[u8]>> = BTreeMap::new();
                    for f in &c.files {
                        let p: Vec<&str> = f.name.split(['/', '\\']).filter(|x| !x.is_empty() && *x != ".").collect();
                        want.entry(if keep { p.join("/") } else { p.last().unwrap().to_string() }).or_default().push(&f.data);
                    }
                    if want.keys().ne(got.keys()) {
                        return Err(format!("extracted {:?} instead of {:?}", got.keys(), want.keys()));
                    }
                    for (k, d) in &want {
                        if !d.contains(&&got[k][..]) {
                            return Err(format!("{} holds none of the files that go there", k));
                        }
                    }
                    let lost = want.values().any(|d| d.iter().any(|x| *x != d[0]));
                    if (o.code == 0) == lost {
                        return Err(if lost { "a file was lost to another, but success was reported".into() } else { format!("failed: {}", o.err) });
                    }
                    ctx.distinct(&("clash", l, keep, equal));
                    let _ = std::fs::remove_dir_all(&root);
                    Ok(())
                });
            }
        }
    });
    // ---- many, deep and large files
    for v in 0..4 {
        ctx.case(&format!("scale/v{}", v + 1), || {
            let mut c = Cfg::new(VERSIONS[v], 3);
            for i in 0..if ctx.thorough { 20_000 } else { 2500 } {
                c.files.push(F::with(&format!("d{}\\f{}", i % 41, i), format!("file {}", i).into_bytes(), [0, ZLIB][i % 2], ENCS[i % 3]));
            }
            for i in 1..50 {
                c.files.push(F::with(&format!("{}leaf", "n/".repeat(i)), vec![i as u8; i], 0, Enc::No));
            }
            for (n, l) in [("l1", 70_000usize), ("l2", 1_100_000), ("l3", 17_000_000)] {
                c.files.push(F::with(n, content("mix", l, 4096), ZLIB, Enc::No));
            }
            let t = c.build(ctx)?;
            let root = dir(&ctx.file("scale"));
            std::fs::write(root.join("a.mpq"), t.bytes()).unwrap();
            cli.ok(&root, &["file", "extract", "a.mpq", "-p", "-t", "x"])?;
            let mut got = files(&tree(&root.join("x")));
            got.remove("(listfile)");
            let want: BTreeMap<String, Vec<u8>> = c.files.iter().map(|f| (f.name.replace('\\', "/"), f.data.clone())).collect();
            tree_diff(&got, &want)?;
            cli.ok(&root, &["file", "extract", "a.mpq", "l3", "-t", "one"])?;
            diff(&std::fs::read(root.join("one")).map_err(|e| e.to_string())?, &want["l3"])?;
            let _ = std::fs::remove_dir_all(&root);
            ctx.distinct(&("scale", v));
            Ok(())
        });
    }
    // ---- archives
    let mut jobs = vec![];
    for v in 0..4 {
        for m in [0, ZLIB, PKWARE, BZIP2, LZMA] {
            for enc in ENCS {
                for crc in [false, true] {
                    jobs.push((v, m, enc, crc));
                }
            }
        }
    }
    ctx.par(&jobs, |&(v, m, enc, crc)| {
        ctx.case(&format!("archive/v{}/{}/{:?}/{}", v + 1, mname(m), enc, crc), || {
            let mut c = Cfg::new(VERSIONS[v], 0);
            c.crc = crc;
            for (i, (n, p, s)) in [("root.txt", "text", 30usize), ("Dir\\one.bin", "mix", 1500), ("Dir\\Sub/two.bin", "noise", 600), ("other/one.bin", "zero", 1024), ("empty", "zero", 0), ("sp ace\\\u{e4}\u{f6}.txt", "ramp", 513)].into_iter().enumerate() {
                c.files.push(F::with(n, content(p, s, 512), m, if i == 0 { Enc::No } else { enc }));
            }
            let t = c.build(ctx)?;
            let root = dir(&ctx.file("arch"));
            let arch = root.join("a.mpq");
            std::fs::write(&arch, t.bytes()).unwrap();
            let a = arch.to_str().unwrap();
            // everything, with paths, to a directory that does not exist yet
            let tgt = root.join("new/deep");
            cli.ok(&root, &["file", "extract", a, "-p", "-t", tgt.to_str().unwrap()])?;
            let mut got = files(&tree(&tgt));
            got.remove("(listfile)");
            let want: BTreeMap<String, Vec<u8>> = c.files.iter().map(|f| (f.name.replace('\\', "/"), f.data.clone())).collect();
            tree_diff(&got, &want)?;
            // into a directory with other content: replaced, the rest untouched
            let tgt = dir(&root.join("used"));
            for (n, d) in [("root.txt", "older and longer content than the new one will be, so that a rest would show"), ("keep.txt", "kept")] {
                std::fs::write(tgt.join(n), d).unwrap();
                give(&tgt.join(n));
            }
            cli.ok(&root, &["file", "extract", a, "-p", "-t", "used"])?;
            let mut got = files(&tree(&tgt));
            got.remove("(listfile)");
            let mut w = want.clone();
            w.insert("keep.txt".into(), b"kept".to_vec());
            tree_diff(&got, &w)?;
            // one by one
            for f in &c.files {
                let out = format!("single/{}/out.bin", f.name.replace(['\\', '/', ' '], "_"));
                for n in [f.name.clone(), f.name.replace('\\', "/").to_ascii_uppercase()] {
                    cli.ok(&root, &["file", "extract", a, &n, "-t", &out])?;
                    let d = std::fs::read(root.join(&out)).map_err(|e| e.to_string())?;
                    diff(&d, &f.data).map_err(|e| format!("{}: {}", n, e))?;
                    // what is there already, longer than the file, is replaced the second time
                    std::fs::write(root.join(&out), vec![0x5A; 5000]).unwrap();
                    give(&root.join(&out));
                }
                let cwd = dir(&root.join("cwd"));
                let base = f.name.rsplit(['/', '\\']).next().unwrap();
                std::fs::write(cwd.join(base), vec![0x5A; 5000]).unwrap();
                give(&cwd.join(base));
                cli.ok(&cwd, &["file", "extract", a, &f.name])?;
                tree_diff(&files(&tree(&cwd)), &BTreeMap::from([(base.to_string(), f.data.clone())]))?;
                std::fs::remove_dir_all(&cwd).unwrap();
            }
            // what is not there
            let before = tree(&root);
            for args in [vec!["file", "extract", a, "nope"], vec!["file", "extract", "missing.mpq"], vec!["file", "extract", "used/keep.txt"], vec!["file", "extract", a, "nope", "-t", "z/q"]] {
                if cli.run(&root, &args)?.code == 0 {
                    return Err(format!("{:?} reported success", args));
                }
            }
            if tree(&root) != before {
                return Err("a failed extraction wrote something".into());
            }
            ctx.distinct(&("archive", v, m, format!("{:?}", enc), crc));
            // one damaged file among the others
            if crc {
                let bytes = t.bytes();
                for f in c.files.iter().filter(|f| !f.data.is_empty()) {
                    let mut d = bytes.clone();
                    {
                        let ra = RefArchive::parse(&bytes)?;
                        let h = ra.lookup(&f.name, 0).ok_or("lookup")?;
                        let b = &ra.block[h.block as usize];
                        let reg = super::p09::protected(&ra, &f.name, b).into_iter().find(|x| x.2 == "data").ok_or("region")?;
                        d[reg.0 + reg.1 / 2] ^= 0x10;
                    }
                    std::fs::write(root.join("bad.mpq"), &d).unwrap();
                    let o = cli.run(&root, &["file", "extract", "bad.mpq", "-p", "-t", "damaged"])?;
                    let mut got = files(&tree(&root.join("damaged")));
                    got.remove("(listfile)");
                    let key = f.name.replace('\\', "/");
                    let mut w = want.clone();
                    // an Adler-32 that does not notice, or a decoder that does not care, leaves the bytes as they were
                    if got.get(&key) == Some(&f.data) {
                        tree_diff(&got, &w)?;
                    } else {
                        w.remove(&key);
                        tree_diff(&got, &w).map_err(|e| format!("with {:?} damaged: {}", f.name, e))?;
                        if o.code == 0 {
                            return Err(format!("{:?} was not extracted, but success was reported", f.name));
                        }
                    }
                    if cli.run(&root, &["file", "extract", "bad.mpq", &f.name, "-t", "one"])?.code == 0 && std::fs::read(root.join("one")).ok().as_ref() != Some(&f.data) {
                        return Err(format!("the damaged {:?} was extracted as if it were intact", f.name));
                    }
                    let _ = std::fs::remove_dir_all(root.join("damaged"));
                    let _ = std::fs::remove_file(root.join("one"));
                    ctx.distinct(&("damaged", v, m, format!("{:?}", enc), &f.name));
                }
            }
            let _ = std::fs::remove_dir_all(&root);
            Ok(())
        });
    });
    faults(ctx, &cli);
    ctx.assume("names with parent, empty, current-directory or drive components may be refused or be extracted under another name inside the target directory");
    ctx.assume("without -p, files with the same last component overwrite each other, as they are documented to lose their path");
}

/// Extraction with every system call failing: success is reported only for complete extractions.
fn faults(ctx: &'static Ctx, cli: &Cli) {
    for v in 0..4 {
        let mut c = Cfg::new(VERSIONS[v], 0);
        c.crc = v % 2 == 1;
        for (i, (n, p, s)) in [("root.txt", "text", 30usize), ("Dir\\one.bin", "mix", 1500), ("Dir\\Sub/two.bin", "noise", 12_000), ("empty", "zero", 0)].into_iter().enumerate() {
            c.files.push(F::with(n, content(p, s, 512), ZLIB, ENCS[i % 3]));
        }
        let t = match c.build(ctx) {
            Ok(t) => t,
            Err(e) => return ctx.case(&format!("faults/v{}/build", v + 1), || Err(e)),
        };
        let bytes = t.bytes();
        let whole: BTreeMap<String, Vec<u8>> = c.files.iter().map(|f| (f.name.replace('\\', "/"), f.data.clone())).collect();
        let flat: BTreeMap<String, Vec<u8>> = c.files.iter().map(|f| (f.name.rsplit(['/', '\\']).next().unwrap().to_string(), f.data.clone())).collect();
        let one = BTreeMap::from([("two.bin".to_string(), c.files[2].data.clone())]);
        let named = BTreeMap::from([("out/x".to_string(), c.files[2].data.clone())]);
        let jobs: Vec<(&str, Vec<&str>, BTreeMap<String, Vec<u8>>, &str)> = vec![
            ("all", vec!["file", "extract", "arch.mpq", "-p", "-t", "out"], whole, "out"),
            ("flat", vec!["file", "extract", "arch.mpq", "-t", "out"], flat, "out"),
            ("one", vec!["file", "extract", "arch.mpq", "Dir\\Sub/two.bin"], one, ""),
            ("named", vec!["file", "extract", "arch.mpq", "dir\\sub\\TWO.BIN", "-t", "out/x"], named, ""),
        ];
        for (what, args, want, at) in jobs {
            if v > 0 && v < 3 && !ctx.thorough && what != "all" {
                continue;
            }
            cli.faults(
                ctx,
                &format!("faults/v{}/{}", v + 1, what),
                &args,
                "arch.mpq",
                |d| {
                    std::fs::write(d.join("arch.mpq"), &bytes).unwrap();
                    std::fs::write(d.join("keep"), "kept").unwrap();
                },
                |unnoticed, o, d| {
                    if std::fs::read(d.join("arch.mpq")).ok().as_ref() != Some(&bytes) || std::fs::read(d.join("keep")).ok() != Some(b"kept".to_vec()) {
                        return Err("another file was changed".into());
                    }
                    if unnoticed && o.code != 0 {
                        return Err("extraction failed".into());
                    }
                    if o.code != 0 {
                        return Ok(());
                    }
                    let mut got = files(&tree(&d.join(at)));
                    for k in ["(listfile)", "arch.mpq", "keep"] {
                        got.remove(k);
                    }
                    tree_diff(&got, &want).map_err(|e| format!("success was reported, but {}", e))
                },
            );
        }
    }
}
