//! C20: the program itself, run as a process in a scratch directory
use std::ffi::OsString;
use std::os::{fd::FromRawFd, unix::{ffi::{OsStrExt, OsStringExt}, process::CommandExt}};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use cniic::verif::{codec::Codec, hilbert};
use image::{DynamicImage, GenericImageView};
use super::{c14, script};
use crate::{common::*, engine::*};

struct Out { code: Option<i32>, err: String, how: String }

fn run_bin(bin: &Path, dir: &Path, args: &[String]) -> Result<Out, String> {
    run_os(bin, dir, &args.iter().map(OsString::from).collect::<Vec<_>>(), None)
}

/// limit: no file can grow beyond this size (writes fail with EFBIG)
fn run_os(bin: &Path, dir: &Path, args: &[OsString], limit: Option<u64>) -> Result<Out, String> {
    run_to(bin, dir, args, limit, Stdio::null(), Stdio::piped())
}

/// Where messages go: read or ignored, a full device, a pipe nobody reads
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Sink { Fine, Full, Closed }

impl Sink {
    fn get(self, fine: Stdio) -> Result<Stdio, String> {
        match self {
            Sink::Fine => Ok(fine),
            Sink::Full => std::fs::OpenOptions::new().write(true).open("/dev/full").map(Stdio::from).map_err(|e| format!("/dev/full: {}", e)),
            Sink::Closed => {
                let mut p = [0; 2];
                if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { return Err("no pipe".into()); }
                unsafe { libc::close(p[0]); Ok(Stdio::from(std::os::fd::OwnedFd::from_raw_fd(p[1]))) }
            }
        }
    }
}

fn run_to(bin: &Path, dir: &Path, args: &[OsString], limit: Option<u64>, stdout: Stdio, stderr: Stdio) -> Result<Out, String> {
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(stdout).stderr(stderr);
    c.env_remove("RUST_BACKTRACE").env("RAYON_NUM_THREADS", "3");
    unsafe { c.pre_exec(move || {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        if let Some(k) = limit {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: k, rlim_max: k };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
        Ok(())
    }); }
    let o = c.spawn().and_then(|c| c.wait_with_output()).map_err(|e| format!("the program could not be run: {}", e))?;
    Ok(Out { code: o.status.code(), err: String::from_utf8_lossy(&o.stderr).into_owned(), how: format!("{}", o.status) })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Outdir { Present, Absent, IsFile }

fn fresh(dir: &Path, out: Outdir) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    match out {
        Outdir::Present => std::fs::create_dir(dir.join("output")).unwrap(),
        Outdir::Absent => {}
        Outdir::IsFile => std::fs::write(dir.join("output"), b"in the way").unwrap(),
    }
}

fn listing(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir.join("output")).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}

fn must_fail(r: &Out, dir: &Path) -> Result<(), String> {
    match r.code {
        Some(0) => Err("exit status 0, expected a failure".into()),
        None => Err(format!("killed: {}", r.how)),
        Some(_) if r.err.trim().is_empty() => Err("failure without a message on standard error".into()),
        Some(_) => { let l = listing(dir); if l.is_empty() { Ok(()) } else { Err(format!("failed, but left {:?} in output/", l)) } }
    }
}
fn must_succeed(r: &Out) -> Result<(), String> {
    if r.code == Some(0) { Ok(()) } else { Err(format!("{}, expected success; standard error: {}", r.how, clip(&r.err, 300))) }
}

fn files(dir: &Path) -> (DynamicImage, DynamicImage) {
    let a = script::sample(0); let b = script::sample(1);
    a.save(dir.join("a.png")).unwrap();
    b.save(dir.join("b.png")).unwrap();
    std::fs::write(dir.join("corrupt.png"), b"\x89PNG nothing").unwrap();
    std::fs::write(dir.join("text.txt"), b"text").unwrap();
    std::fs::create_dir(dir.join("sub.png")).unwrap();
    (a, b)
}

fn check_csvs(dir: &Path, img: &DynamicImage, name: &str) -> Result<(), String> {
    let (w, h) = img.dimensions();
    let p = script::rgb(img);
    let at = |x: usize, y: usize| p[y * w as usize + x];
    let rect: Vec<C3> = hilbert::iter(w as usize, h as usize).map(|(x, y)| at(x, y)).collect();
    let big = w.max(h).next_power_of_two() as usize;
    let large: Vec<C3> = hilbert::iter(big, big).filter(|&(x, y)| x < w as usize && y < h as usize).map(|(x, y)| at(x, y)).collect();
    let mut sq = 1usize;
    while sq * 2 <= w.min(h) as usize { sq *= 2; }
    let small: Vec<C3> = hilbert::iter(sq, sq).map(|(x, y)| at(x, y)).collect();
    let stem = Path::new(name).file_stem().unwrap().to_string_lossy().into_owned();
    for (kind, want) in [("rect", rect), ("small", small), ("large", large)] {
        let f = dir.join("output").join(format!("{}.{}.hilbert.csv", stem, kind));
        let mut r = csv::ReaderBuilder::new().has_headers(false).flexible(true).from_path(&f).map_err(|e| format!("{}: {}", f.display(), e))?;
        let recs: Vec<Vec<String>> = r.records().map(|r| r.map(|r| r.iter().map(String::from).collect())).collect::<Result<_, _>>().map_err(|e| format!("{}: {}", f.display(), e))?;
        if recs.first().map(|h| h.join(",")) != Some("red,green,blue".into()) { return Err(format!("{} starts with {:?}", f.display(), recs.first())); }
        let got: Vec<String> = recs[1..].iter().map(|r| r.join(",")).collect();
        let want: Vec<String> = want.iter().map(|c| format!("{},{},{}", c[0], c[1], c[2])).collect();
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("{}: {} rows, expected {}; row {} is {:?}, expected {:?}", f.display(), got.len(), want.len(), k, got.get(k), want.get(k)));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let bin: PathBuf = ctx.root().join("work/bin/debug/cniic");
    assert!(bin.exists(), "the program has not been built");
    let bin = &bin;
    let dir = ctx.scratch().join("w");
    let dir = &dir;

    let good = ["hufman", "HUFMAN", "delta", "hilbert(rle)", "Hilbert(rle)", "hilbert(rle(0))", "hilbert(rle(1.5))", "hilbert(rle(1e9))", "hilbert(zip)", "Hilbert(zip)",
        "zip(dict)", "zip(back)", "cluster-colors(1)", "cluster-colors(2)", "ccol(3)", "clustercol(64)", "c-colors(99999999)", "voronoi(1)", "voronoi(3)", "voronoi(64)"];
    let lists: &[&[&str]] = &[&[], &["a.png"], &["a.png", "b.png"], &["missing.png"], &["a.png", "missing.png", "b.png"], &["corrupt.png", "b.png"], &["text.txt"], &["sub.png", "a.png"], &["a.png", ""], &["--codec=delta", "b.png"]];
    ctx.family("every codec on every list of files");
    for g in good { for l in lists { for out in [Outdir::Present, Outdir::Absent, Outdir::IsFile] {
        let args: Vec<String> = std::iter::once(format!("--codec={}", g)).chain(l.iter().map(|s| s.to_string())).collect();
        ctx.case(|| format!("{:?} output {:?}", args, out), |o| {
            fresh(dir, out);
            files(dir);
            let r = run_bin(bin, dir, &args)?;
            if out != Outdir::Present { must_fail(&r, dir)?; } else {
                must_succeed(&r)?;
                let c = codec(g);
                let c = c.get()?;
                let report = dir.join(format!("output/{}.csv", c.name()));
                let (head, rows) = script::read_report(&report)?;
                let mut want: Vec<String> = l.iter().filter(|f| ["a.png", "b.png"].contains(f)).map(|s| s.to_string()).collect();
                let mut got: Vec<String> = rows.iter().map(|r| r.0.clone()).collect();
                want.sort(); got.sort();
                if got != want { return Err(format!("the report has rows for {:?}, expected {:?}", got, want)); }
                if !want.is_empty() && head.map(|h| h.len()) != Some(4) { return Err("no header".into()); }
                if c.is_lossless() && rows.iter().any(|r| r.3 != 0.0) { return Err("errors reported for a lossless codec".into()); }
                // a message for every file that could not be processed
                if want.len() != l.len() && r.err.trim().is_empty() { return Err("a file could not be processed, but nothing was said".into()); }
                if listing(dir).iter().filter(|n| n.ends_with(".csv")).count() != 1 { return Err(format!("output/ contains {:?}", listing(dir))); }
            }
            o.trace(); o.steps(args.len()); o.state(&(&args, format!("{:?} {:?} {:?}", out, r.code, listing(dir))));
            Ok(())
        });
    } } }

    ctx.family("refused arguments");
    let mut bad: Vec<String> = vec!["".into(), "x".into(), "--codec".into(), "--codec=".into(), "-codec=hufman".into(), "codec=hufman".into(), "--Codec=hufman".into(), " --codec=hufman".into(), "hufman".into(),
        "--special".into(), "--special=".into(), "--special=x".into(), "--special=Hilbert".into(), "--special=hilbert ".into(), "--special= hilbert".into(), "--special=hilbert()".into(), "--special=hufman".into(), "--special".into(),
        "--help".into(), "-h".into(), "a.png".into(), "--codec=é".into(), "--codec=漢(字)".into(), "é".into()];
    for c in c14::BAD_CODECS { assert!(!c14::denotes_codec(c)); bad.push(format!("--codec={}", c)); }
    for n in [10usize, 1000, 20_000] { bad.push(format!("--codec={}", "(".repeat(n))); bad.push(format!("--codec=hilbert({}{}", "rle(".repeat(n), ")".repeat(n + 1))); bad.push(format!("--codec=voronoi({})", "9".repeat(n + 20))); }
    for b in &bad { for l in [&[][..], &["a.png"][..], &["a.png", "--codec=hufman"][..], &["--special=hilbert", "a.png"][..]] {
        let args: Vec<String> = std::iter::once(b.clone()).chain(l.iter().map(|s| s.to_string())).collect();
        ctx.case(|| format!("{:?}", args.iter().map(|a| clip(a, 80)).collect::<Vec<_>>()), |o| {
            fresh(dir, Outdir::Present);
            files(dir);
            let r = run_bin(bin, dir, &args)?;
            must_fail(&r, dir)?;
            o.trace(); o.steps(args.len()); o.state(&args);
            Ok(())
        });
    } }
    ctx.family("first arguments put together from pieces");
    let pieces = ["--codec=", "--special=", "hufman", "hilbert", "hilbert(zip)", "zip(", "dict)", "-", "=", " ", "(1)", "voronoi"];
    for n in 1..=ctx.pick(3usize, 4) { words(n, pieces.len(), |q| {
        let first: String = q.iter().map(|i| pieces[*i]).collect();
        ctx.case(|| format!("{:?}", first), |o| {
            fresh(dir, Outdir::Present);
            let r = run_bin(bin, dir, &[first.clone()])?;
            let good = first == "--special=hilbert" || first.strip_prefix("--codec=").is_some_and(c14::denotes_codec);
            if good { must_succeed(&r)?; } else { must_fail(&r, dir)?; }
            o.trace(); o.steps(1); o.state(&(&first, r.code));
            Ok(())
        });
    }); }
    ctx.family("no arguments");
    ctx.case(|| "no arguments".into(), |o| {
        fresh(dir, Outdir::Present);
        let r = run_bin(bin, dir, &[])?;
        must_fail(&r, dir)?;
        o.trace(); o.state("none");
        Ok(())
    });
    ctx.family("the report cannot be created");
    for g in good { ctx.case(|| format!("{} with a directory in place of the report", g), |o| {
        fresh(dir, Outdir::Present);
        files(dir);
        std::fs::create_dir(dir.join(format!("output/{}.csv", codec(g).get()?.name()))).unwrap();
        let r = run_bin(bin, dir, &[format!("--codec={}", g), "a.png".into()])?;
        if r.code == Some(0) || r.code.is_none() || r.err.trim().is_empty() { return Err(format!("{}: expected a failure with a message", r.how)); }
        o.trace(); o.state(&(g, "dir"));
        Ok(())
    }); }

    ctx.family("hilbert dumps: every shape");
    let n = ctx.pick(9u32, 20);
    for w in 1..=n { for h in 1..=n {
        ctx.case(|| format!("{}x{}", w, h), |o| {
            fresh(dir, Outdir::Present);
            let img = img_of(w, h, &(0..(w * h) as usize).map(colour).collect::<Vec<_>>());
            img.save(dir.join("x.png")).unwrap();
            must_succeed(&run_bin(bin, dir, &["--special=hilbert".into(), "x.png".into()])?)?;
            check_csvs(dir, &img, "x.png")?;
            if listing(dir).len() != 3 { return Err(format!("output/ contains {:?}", listing(dir))); }
            o.trace(); o.steps(3 * (w * h) as usize); o.state(&(w, h));
            Ok(())
        });
    } }
    ctx.family("hilbert dumps: larger images");
    for (w, h) in [(16u32, 16u32), (17, 16), (31, 33), (64, 64), (100, 1), (1, 100), (128, 100), (300, 5), (5, 300), (256, 256), (257, 255), (1100, 1000), (2100, 3)] {
        ctx.case(|| format!("{}x{}", w, h), |o| {
            fresh(dir, Outdir::Present);
            let img = img_of(w, h, &(0..(w * h) as usize).map(colour).collect::<Vec<_>>());
            img.save(dir.join("x.png")).unwrap();
            must_succeed(&run_bin(bin, dir, &["--special=hilbert".into(), "x.png".into()])?)?;
            check_csvs(dir, &img, "x.png")?;
            o.trace(); o.steps(3 * (w * h) as usize); o.state(&(w, h));
            Ok(())
        });
    }
    ctx.family("hilbert dumps: formats and names");
    for f in 0..8usize { for pat in 0..6u32 { for name in ["x.png", "a.b.png", "in/x.png", "sp ace.png", "säge.png"] {
        ctx.case(|| format!("format {} pattern {} {}", f, pat, name), |o| {
            fresh(dir, Outdir::Present);
            std::fs::create_dir(dir.join("in")).unwrap();
            format_img(f, 3, 2, pat).save(dir.join(name)).unwrap();
            let img = image::open(dir.join(name)).unwrap();
            std::fs::write(dir.join("output/x.rect.hilbert.csv"), "1,2,3\n".repeat(100)).unwrap();
            must_succeed(&run_bin(bin, dir, &["--special=hilbert".into(), name.into()])?)?;
            check_csvs(dir, &img, name)?;
            o.trace(); o.steps(18); o.state(&(f, pat, name));
            Ok(())
        });
    } } }
    ctx.family("hilbert dumps: lists of images");
    for n in 0..=4usize { for out in [Outdir::Present, Outdir::Absent, Outdir::IsFile] { for bad in std::iter::once(None).chain((0..=n).map(Some)) {
        ctx.case(|| format!("{} images, output {:?}, unreadable one at {:?}", n, out, bad), |o| {
            fresh(dir, out);
            let mut args = vec!["--special=hilbert".to_string()];
            let mut imgs = vec![];
            for i in 0..n {
                let img = img_of(2 + i as u32, 3, &(0..(2 + i) * 3).map(|k| colour(k * 7 + i)).collect::<Vec<_>>());
                let name = format!("i{}.png", i);
                img.save(dir.join(&name)).unwrap();
                imgs.push((name.clone(), img));
                args.push(name);
            }
            if let Some(k) = bad { args.insert(1 + k, "missing.png".into()); }
            let r = run_bin(bin, dir, &args)?;
            if bad.is_some() || (out != Outdir::Present && n > 0) {
                if r.code == Some(0) || r.code.is_none() || r.err.trim().is_empty() { return Err(format!("{}: expected a failure with a message", r.how)); }
            } else {
                must_succeed(&r)?;
                for (name, img) in &imgs { check_csvs(dir, img, name)?; }
                if out == Outdir::Present && listing(dir).len() != 3 * n { return Err(format!("output/ contains {:?}", listing(dir))); }
            }
            o.trace(); o.steps(n); o.state(&(n, format!("{:?}", out), bad));
            Ok(())
        });
    } } }

    ctx.family("hilbert dumps: images of the same stem");
    // They overwrite each other's files (a known finding); the last one's are left
    for l in [&["x.png", "in/x.png"][..], &["x.png", "x.bmp"], &["in/x.png", "x.bmp", "x.png"]] {
        let go = |o: &mut Obs| -> Result<DynamicImage, String> {
            fresh(dir, Outdir::Present);
            std::fs::create_dir(dir.join("in")).unwrap();
            let imgs: Vec<DynamicImage> = (0..l.len()).map(|i| img_of(3 + i as u32, 4, &(0..(3 + i) * 4).map(|k| colour(k * 5 + i)).collect::<Vec<_>>())).collect();
            for (f, i) in l.iter().zip(&imgs) { i.save(dir.join(f)).unwrap(); }
            must_succeed(&run_bin(bin, dir, &std::iter::once("--special=hilbert").chain(l.iter().copied()).map(String::from).collect::<Vec<_>>())?)?;
            o.trace(); o.state(&l);
            Ok(imgs.last().unwrap().clone())
        };
        ctx.case(|| format!("{:?}: the files overwrite each other", l), |o| {
            go(o)?;
            if listing(dir).len() != 3 * l.len() { return Err(format!("output/ contains {:?}", listing(dir))); }
            Ok(())
        });
        ctx.case(|| format!("{:?}: the last image", l), |o| { let img = go(o)?; check_csvs(dir, &img, l[l.len() - 1]) });
    }

    ctx.family("very many files");
    for n in ladder(20, 10_100) { for g in ["delta", "hilbert(rle(1e9))"] { for bad in [None, Some(0usize), Some(n / 2), Some(n - 1)] {
        if bad.is_some() && g != "delta" { continue; }
        if n > 530 && ctx.quick() && (bad.is_some() || n % 1024 != 1 && n % 1000 != 1) { continue; }
        ctx.case_limit(40_000, || format!("{} files, {}, unreadable one at {:?}", n, g, bad), |o| {
            fresh(dir, Outdir::Present);
            let mut args = vec![format!("--codec={}", g)];
            for i in 0..n { if bad != Some(i) { img_of(2, 1, &[colour(i), colour(i + 1)]).save(dir.join(format!("f{}.png", i))).unwrap(); } args.push(format!("f{}.png", i)); }
            let r = run_bin(bin, dir, &args)?;
            must_succeed(&r)?;
            let (_, rows) = script::read_report(&dir.join(format!("output/{}.csv", codec(g).get()?.name())))?;
            let mut got: Vec<String> = rows.iter().map(|r| r.0.clone()).collect();
            let mut want: Vec<String> = (0..n).filter(|i| bad != Some(*i)).map(|i| format!("f{}.png", i)).collect();
            got.sort(); want.sort();
            if got != want { return Err(format!("{} rows, {} expected, or for other files", got.len(), want.len())); }
            if bad.is_some() && r.err.trim().is_empty() { return Err("a file could not be processed, but nothing was said".into()); }
            if bad.is_none() && g == "delta" && listing(dir).len() != 1 { return Err("images saved that did not differ".into()); }
            o.trace(); o.steps(n); o.state(&(n, g, bad));
            Ok(())
        });
        if bad.is_none() && g == "delta" { ctx.case_limit(40_000, || format!("{} files, all but one missing", n), |o| {
            fresh(dir, Outdir::Present);
            let mut args = vec![format!("--codec={}", g)];
            img_of(2, 1, &[colour(1), colour(2)]).save(dir.join(format!("f{}.png", n / 2))).unwrap();
            args.extend((0..n).map(|i| format!("f{}.png", i)));
            let r = run_bin(bin, dir, &args)?;
            must_succeed(&r)?;
            let (_, rows) = script::read_report(&dir.join(format!("output/{}.csv", codec(g).get()?.name())))?;
            if rows.len() != 1 || rows[0].0 != format!("f{}.png", n / 2) { return Err(format!("{} rows, 1 expected, or for another file", rows.len())); }
            if r.err.trim().is_empty() { return Err("files could not be processed, but nothing was said".into()); }
            o.trace(); o.steps(n); o.state(&(n, g, "missing"));
            Ok(())
        }); }
        if bad.is_some() || g != "delta" || n > ctx.pick(140, 2100) { continue; }
        ctx.case_limit(40_000, || format!("{} hilbert dumps", n), |o| {
            fresh(dir, Outdir::Present);
            let mut args = vec!["--special=hilbert".to_string()];
            let imgs: Vec<DynamicImage> = (0..n).map(|i| img_of(3, 2, &(0..6).map(|k| colour(i + k)).collect::<Vec<_>>())).collect();
            for (i, img) in imgs.iter().enumerate() { img.save(dir.join(format!("f{}.png", i))).unwrap(); args.push(format!("f{}.png", i)); }
            must_succeed(&run_bin(bin, dir, &args)?)?;
            for (i, img) in imgs.iter().enumerate() { check_csvs(dir, img, &format!("f{}.png", i))?; }
            if listing(dir).len() != 3 * n { return Err(format!("{} files in output/", listing(dir).len())); }
            o.trace(); o.steps(n); o.state(&(n, "dump"));
            Ok(())
        });
    } } }

    ctx.family("the device is full from every byte on");
    let lossless = ["hufman", "delta", "hilbert(rle)", "hilbert(zip)", "zip(dict)", "zip(back)"];
    for g in lossless { for n in 1..=3usize {
        ctx.case(|| format!("{}, {} images", g, n), |o| {
            let args: Vec<OsString> = std::iter::once(format!("--codec={}", g)).chain((0..n).map(|i| ["a.png", "b.png", "a.png"][i].to_string())).map(OsString::from).collect();
            let name = codec(g).get()?.name();
            let mut full = None;
            for k in 0..4096u64 {
                fresh(dir, Outdir::Present);
                files(dir);
                let r = run_os(bin, dir, &args, Some(k))?;
                o.trace(); o.steps(1); o.state(&(g, n, k, r.code));
                let len = std::fs::metadata(dir.join(format!("output/{}.csv", name))).map(|m| m.len()).unwrap_or(0);
                match r.code {
                    Some(0) => {
                        let (head, rows) = script::read_report(&dir.join(format!("output/{}.csv", name)))?;
                        if head.is_none() || rows.len() != n { return Err(format!("success, but files could only have {} bytes and the report has {} rows", k, rows.len())); }
                        full = Some((k, len));
                    }
                    None => return Err(format!("killed: {}", r.how)),
                    _ if r.err.trim().is_empty() => return Err("failure without a message".into()),
                    _ => {}
                }
                if let Some((_, len)) = full { if k >= len { break; } }
            }
            match full { Some((k, len)) if k == len => Ok(()), x => Err(format!("succeeds from the limit (with the size) {:?} on", x)) }
        });
    } }
    for g in ["cluster-colors(1)", "voronoi(1)", "hilbert(rle(1e9))"] { for n in 1..=2usize {
        ctx.case(|| format!("{}, {} images, saved as PNG", g, n), |o| {
            let names = &["a.png", "b.png"][..n];
            let args: Vec<OsString> = std::iter::once(format!("--codec={}", g)).chain(names.iter().map(|s| s.to_string())).map(OsString::from).collect();
            let report = format!("output/{}.csv", codec(g).get()?.name());
            let go = |k: Option<u64>| -> Result<(Out, Vec<Option<Vec<C3>>>), String> {
                fresh(dir, Outdir::Present);
                files(dir);
                let r = run_os(bin, dir, &args, k)?;
                Ok((r, names.iter().map(|f| image::open(dir.join("output").join(f)).ok().map(|i| script::rgb(&i))).collect()))
            };
            let (r, want) = go(None)?;
            must_succeed(&r)?;
            if want.iter().any(|w| w.is_none()) { return Err("an image was not saved".into()); }
            let mut done = false;
            for k in 0..4096u64 {
                let (r, got) = go(Some(k))?;
                o.trace(); o.steps(1); o.state(&(g, n, k, r.code));
                if r.code.is_none() { return Err(format!("killed: {}", r.how)); }
                let mut missing = 0;
                if r.code == Some(0) {
                    let (_, rows) = script::read_report(&dir.join(&report))?;
                    missing = n - rows.len();
                    for i in 0..n { if rows.iter().any(|r| r.0 == names[i]) && got[i] != want[i] { return Err(format!("where files can have {} bytes, {} has a row but was not saved", k, names[i])); } }
                }
                if (r.code != Some(0) || missing > 0) && r.err.trim().is_empty() { return Err("failure without a message".into()); }
                if r.code == Some(0) && missing == 0 { done = true; break; }
            }
            if done { Ok(()) } else { Err("never succeeds".into()) }
        });
    } }
    for (w, h) in [(1u32, 1u32), (3, 2), (4, 5), (9, 9)] {
        ctx.case(|| format!("hilbert dump of {}x{}", w, h), |o| {
            let img = img_of(w, h, &(0..(w * h) as usize).map(colour).collect::<Vec<_>>());
            let mut done = false;
            for k in 0..20_000u64 {
                fresh(dir, Outdir::Present);
                img.save(dir.join("x.png")).unwrap();
                let r = run_os(bin, dir, &["--special=hilbert".into(), "x.png".into()], Some(k))?;
                o.trace(); o.steps(1); o.state(&(w, h, k, r.code));
                match r.code {
                    Some(0) => { check_csvs(dir, &img, "x.png").map_err(|e| format!("success where files can have {} bytes, but {}", k, e))?; done = true; break; }
                    None => return Err(format!("killed: {}", r.how)),
                    _ if r.err.trim().is_empty() => return Err("failure without a message".into()),
                    _ => {}
                }
            }
            if done { Ok(()) } else { Err("never succeeds".into()) }
        });
    }
    ctx.family("an output file that accepts nothing");
    for g in good { for l in [&["a.png"][..], &["a.png", "b.png"][..], &["missing.png", "b.png"][..]] { ctx.case(|| format!("{} on {:?}, report on a full device", g, l), |o| {
        fresh(dir, Outdir::Present);
        files(dir);
        std::os::unix::fs::symlink("/dev/full", dir.join(format!("output/{}.csv", codec(g).get()?.name()))).unwrap();
        let args: Vec<String> = std::iter::once(format!("--codec={}", g)).chain(l.iter().map(|s| s.to_string())).collect();
        let r = run_bin(bin, dir, &args)?;
        if r.code == Some(0) || r.code.is_none() || r.err.trim().is_empty() { return Err(format!("{}: expected a failure with a message", r.how)); }
        o.trace(); o.state(&(g, l, "full"));
        Ok(())
    }); } }
    for kind in ["rect", "small", "large"] { for (w, h) in [(1u32, 1u32), (3, 2), (200, 100)] { for first in [false, true] { ctx.case(|| format!("hilbert dump of {}x{}, {} on a full device, image {}", w, h, kind, if first { "first" } else { "last" }), |o| {
        fresh(dir, Outdir::Present);
        let img = img_of(w, h, &(0..(w * h) as usize).map(colour).collect::<Vec<_>>());
        img.save(dir.join("x.png")).unwrap(); img.save(dir.join("y.png")).unwrap();
        std::os::unix::fs::symlink("/dev/full", dir.join(format!("output/x.{}.hilbert.csv", kind))).unwrap();
        let r = run_bin(bin, dir, &if first { ["--special=hilbert".into(), "x.png".into(), "y.png".into()] } else { ["--special=hilbert".into(), "y.png".into(), "x.png".into()] })?;
        if r.code == Some(0) || r.code.is_none() || r.err.trim().is_empty() { return Err(format!("{}: expected a failure with a message", r.how)); }
        o.trace(); o.state(&(kind, w, h, first));
        Ok(())
    }); } } }

    ctx.family("messages that cannot be printed");
    let sinks: Vec<(Sink, Sink)> = [Sink::Fine, Sink::Full, Sink::Closed].iter().flat_map(|&a| [Sink::Fine, Sink::Full, Sink::Closed].map(|b| (a, b))).collect();
    let lists: &[&[&str]] = &[&["a.png"], &["a.png", "b.png", "a.png"], &["missing.png"], &["a.png", "missing.png", "corrupt.png", "b.png"], &["corrupt.png", "a.png", "sub.png"], &[]];
    for g in good { for l in lists { for &(so, se) in &sinks { ctx.case(|| format!("{} on {:?}, standard output {:?}, standard error {:?}", g, l, so, se), |o| {
        let args: Vec<OsString> = std::iter::once(format!("--codec={}", g)).chain(l.iter().map(|s| s.to_string())).map(OsString::from).collect();
        fresh(dir, Outdir::Present);
        files(dir);
        let r = run_to(bin, dir, &args, None, so.get(Stdio::null())?, se.get(Stdio::piped())?)?;
        must_succeed(&r)?;
        let (head, rows) = script::read_report(&dir.join(format!("output/{}.csv", codec(g).get()?.name())))?;
        if head.is_none() && l.iter().any(|f| *f == "a.png") { return Err("the report has no header".into()); }
        let want: Vec<&str> = l.iter().copied().filter(|f| *f == "a.png" || *f == "b.png").collect();
        let mut got: Vec<&str> = rows.iter().map(|r| r.0.as_str()).collect();
        got.sort();
        let mut sorted = want.clone();
        sorted.sort();
        if got != sorted { return Err(format!("rows for {:?}, expected {:?}", got, sorted)); }
        if se == Sink::Fine && want.len() < l.len() && r.err.trim().is_empty() { return Err("a file could not be processed, but nothing was said".into()); }
        o.trace(); o.steps(l.len()); o.state(&(g, l, so, se));
        Ok(())
    }); } } }
    for &(so, se) in &sinks { for l in [&["a.png"][..], &["a.png", "b.png"], &["missing.png"], &["a.png", "missing.png"], &["corrupt.png", "b.png"]] { ctx.case(|| format!("hilbert dump of {:?}, standard output {:?}, standard error {:?}", l, so, se), |o| {
        fresh(dir, Outdir::Present);
        let (a, b) = files(dir);
        let args: Vec<OsString> = std::iter::once("--special=hilbert").chain(l.iter().copied()).map(OsString::from).collect();
        let r = run_to(bin, dir, &args, None, so.get(Stdio::null())?, se.get(Stdio::piped())?)?;
        if l.iter().all(|f| *f == "a.png" || *f == "b.png") {
            must_succeed(&r)?;
            for f in l { check_csvs(dir, if *f == "a.png" { &a } else { &b }, f)?; }
        }
        else if r.code == Some(0) || r.code.is_none() { return Err(format!("{}: expected a failure", r.how)); }
        else if se == Sink::Fine && r.err.trim().is_empty() { return Err("failure without a message".into()); }
        o.trace(); o.state(&(l, so, se, "dump"));
        Ok(())
    }); } }
    for &(so, se) in &sinks { for f in ["", "hufman", "--codec=", "--codec=nothing", "--codec=voronoi", "--codec=cluster-colors(x)", "--codec=voronoi(0)", "--special=", "--special=x", "--codec=hilbert(rle(", "--help"] { ctx.case(|| format!("first argument {:?}, standard output {:?}, standard error {:?}", f, so, se), |o| {
        fresh(dir, Outdir::Present);
        files(dir);
        let r = run_to(bin, dir, &[f.into(), "a.png".into()], None, so.get(Stdio::null())?, se.get(Stdio::piped())?)?;
        if r.code == Some(0) || r.code.is_none() { return Err(format!("{}: expected a failure", r.how)); }
        if se == Sink::Fine && r.err.trim().is_empty() { return Err("failure without a message".into()); }
        let left = listing(dir);
        if !left.is_empty() { return Err(format!("failed, but left {:?} in output/", left)); }
        o.trace(); o.state(&(f, so, se, "refused"));
        Ok(())
    }); } }

    ctx.family("arguments that are not text");
    let odd: [&[u8]; 5] = [b"\xff.png", b"a\xc3.png", b"\xed\xa0\x80.png", b"in/\xfe.png", b"\xf0\x9f.x.png"];
    for f in odd { for g in ["delta", "hilbert(rle(1e9))", "cluster-colors(1)", "voronoi(1)", "zip(back)"] { for there in [false, true] { for pos in 0..3usize {
        ctx.case(|| format!("{} on {:?} ({}) at {}", g, String::from_utf8_lossy(f), if there { "present" } else { "missing" }, pos), |o| {
            fresh(dir, Outdir::Present);
            files(dir);
            std::fs::create_dir(dir.join("in")).unwrap();
            let name = OsString::from_vec(f.to_vec());
            if there { std::fs::copy(dir.join("a.png"), dir.join(&name)).unwrap(); }
            let mut args: Vec<OsString> = vec!["a.png".into(), "b.png".into()];
            args.insert(pos, name);
            args.insert(0, format!("--codec={}", g).into());
            let r = run_os(bin, dir, &args, None)?;
            must_succeed(&r)?;
            let c = codec(g);
            let (_, rows) = script::read_report(&dir.join(format!("output/{}.csv", c.get()?.name())))?;
            let known = rows.iter().filter(|r| r.0 == "a.png" || r.0 == "b.png").count();
            if known != 2 || rows.len() != 2 + there as usize { return Err(format!("rows for {:?}", rows.iter().map(|r| &r.0).collect::<Vec<_>>())); }
            if !there && r.err.trim().is_empty() { return Err("a file could not be processed, but nothing was said".into()); }
            o.trace(); o.state(&(f, g, there, pos));
            Ok(())
        });
    } } } }
    for f in odd { ctx.case(|| format!("hilbert dump of {:?}", String::from_utf8_lossy(f)), |o| {
        fresh(dir, Outdir::Present);
        std::fs::create_dir(dir.join("in")).unwrap();
        let img = img_of(3, 2, &(0..6).map(colour).collect::<Vec<_>>());
        img.save(dir.join("x.png")).unwrap();
        let name = OsString::from_vec(f.to_vec());
        let args = ["--special=hilbert".into(), name.clone()];
        let r = run_os(bin, dir, &args, None)?;
        must_fail(&r, dir)?;
        std::fs::rename(dir.join("x.png"), dir.join(&name)).unwrap();
        must_succeed(&run_os(bin, dir, &args, None)?)?;
        let n = std::fs::read_dir(dir.join("output")).unwrap().count();
        if n != 3 { return Err(format!("{} files in output/", n)); }
        for kind in ["rect", "small", "large"] {
            let stem = Path::new(&name).file_stem().unwrap().as_bytes().to_vec();
            let rows = std::fs::read(dir.join("output").join(OsString::from_vec([&stem[..], b".", kind.as_bytes(), b".hilbert.csv"].concat()))).map_err(|e| format!("{}: {}", kind, e))?;
            let want = if kind == "small" { 4 } else { 6 };
            let got = rows.split(|b| *b == b'\n').filter(|l| !l.is_empty()).count();
            if got != want + 1 { return Err(format!("{}: {} lines", kind, got)); }
        }
        o.trace(); o.state(f);
        Ok(())
    }); }
    for f in [&b"\xff"[..], b"--codec=\xff", b"--codec=hufman\xff", b"\xff--codec=hufman", b"--special=hilbert\xff", b"--special=\xff", b"--codec=hilbert(rle(1\xff))", b"--codec=\xc3("] { ctx.case(|| format!("first argument {:?}", String::from_utf8_lossy(f)), |o| {
        fresh(dir, Outdir::Present);
        files(dir);
        let r = run_os(bin, dir, &[OsString::from_vec(f.to_vec()), "a.png".into()], None)?;
        must_fail(&r, dir)?;
        o.trace(); o.state(f);
        Ok(())
    }); }
}
