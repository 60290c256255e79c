//! C16: the benchmark's report against a scripted codec
use std::path::{Path, PathBuf};
use cniic::verif::bench::measure_all;
use cniic::verif::codec::Codec;
use image::{DynamicImage, GenericImageView, RgbImage, Rgb};
use super::script::*;
use crate::{common::{codec, colour, img_of, LOSSLESS}, engine::*};

fn fresh(dir: &Path) {
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("output")).unwrap();
    std::env::set_current_dir(dir).unwrap();
}

fn nop() {}

fn judge(items: &[Item], list: &[usize], lossless: bool, o: &mut Obs) -> Result<(), String> {
    let sc = Script { name: "script".into(), lossless, items, point: &nop };
    let paths: Vec<PathBuf> = list.iter().map(|&k| items[k].path.clone()).collect();
    guarded(|| measure_all(&sc, paths.into_iter()))?.map_err(|e| format!("the benchmark failed: {:?}", e))?;
    check_report(Path::new("output/script.csv"), &expected(items, list, lossless))?;
    check_saved(items, list)?;
    o.trace();
    o.steps(list.len());
    o.state(&(format!("{:?}", list.iter().map(|&k| (k, items[k].beh)).collect::<Vec<_>>()), lossless));
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let dir = ctx.scratch().join("w");
    ctx.family("all lists of files over all behaviours");
    for n in 0..=ctx.pick(4usize, 5) {
        crate::common::words(n, BEHS.len(), |w| for lossless in [false, true] {
            if !ctx.wants() { ctx.skip(); continue; }
            let w = &w.to_vec();
            let dir = &dir;
            ctx.case(|| format!("lossless={} {:?}", lossless, w.iter().map(|&b| BEHS[b]).collect::<Vec<_>>()), move |o| {
                fresh(dir);
                let items: Vec<Item> = w.iter().enumerate().map(|(i, &b)| prepare(Path::new(&format!("in/f{}.png", i)), &sample(i), BEHS[b], 1 + 7 * i)).collect();
                judge(&items, &(0..items.len()).collect::<Vec<_>>(), lossless, o)
            });
        });
    }

    ctx.family("many files, one of which misbehaves");
    for n in ctx.pick(vec![8usize, 33], vec![5, 8, 16, 33, 100]) { for k in 0..n { for b in BEHS {
        if n > 10 && !ctx.quick() && k % 3 != 0 && n == 100 { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        let dir = &dir;
        ctx.case(|| format!("{} files, number {} is {:?}", n, k, b), move |o| {
            fresh(dir);
            let items: Vec<Item> = (0..n).map(|i| prepare(Path::new(&format!("f{}.png", i)), &sample(i), if i == k { b } else { Beh::Exact }, 1 + i % 300)).collect();
            judge(&items, &(0..n).collect::<Vec<_>>(), k % 2 == 0, o)
        });
    } } }

    ctx.family("very many files");
    for n in crate::common::ladder(40, 10_100) { for pat in 0..4usize {
        if n > ctx.pick(1100, 4200) && (pat == 1 || pat == 2) { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        let dir = &dir;
        ctx.case_limit(40_000, || format!("{} files, pattern {}", n, pat), move |o| {
            fresh(dir);
            let items: Vec<Item> = (0..n).map(|i| {
                let b = match pat { 0 => Beh::Exact, 1 => BEHS[i % BEHS.len()], 3 => if i == n / 2 { Beh::Exact } else if i % 2 == 0 { Beh::DecNone } else { Beh::EncErr }, _ => if i + 1 == n { Beh::Near } else if i % 50 == 49 { Beh::DecNone } else { Beh::Exact } };
                prepare(Path::new(&format!("f{}.png", i)), &img_of(2, 1, &[colour(i), colour(i + 1)]), b, 4 + i % 700)
            }).collect();
            judge(&items, &(0..n).collect::<Vec<_>>(), false, o)
        });
    } }

    ctx.family("file lists with repetitions, in any order");
    crate::common::words(ctx.pick(3, 5), 3, |w| {
        let w = &w.to_vec();
        let dir = &dir;
        ctx.case(|| format!("{:?}", w), move |o| {
            fresh(dir);
            let items: Vec<Item> = [Beh::Exact, Beh::Near, Beh::DecNone].iter().enumerate().map(|(i, &b)| prepare(Path::new(&format!("r{}.png", i)), &sample(i), b, 3 + i)).collect();
            // writing the same PNG twice at once is not the subject here
            if w.iter().filter(|&&k| k == 1).count() > 1 { return Ok(()); }
            judge(&items, &w, false, o)
        });
    });

    ctx.family("files of the same stem");
    // The report is not concerned; their decoded images overwrite each other (a known finding)
    let groups: &[&[&str]] = &[&["x.png", "in/x.png"], &["x.png", "x.bmp"], &["in/x.png", "sub/x.png", "sub/x.tiff"]];
    let report = |items: &[Item], o: &mut Obs| -> Result<(), String> {
        let sc = Script { name: "script".into(), lossless: false, items, point: &nop };
        let paths: Vec<PathBuf> = items.iter().map(|i| i.path.clone()).collect();
        guarded(|| measure_all(&sc, paths.into_iter()))?.map_err(|e| format!("the benchmark failed: {:?}", e))?;
        o.trace();
        check_report(Path::new("output/script.csv"), &expected(items, &(0..items.len()).collect::<Vec<_>>(), false))
    };
    let report = &report;
    for l in groups { for b in BEHS { for k in 0..l.len() {
        let dir = &dir;
        ctx.case(|| format!("{:?}, number {} is {:?}, the others are exact", l, k, b), move |o| {
            fresh(dir);
            let items: Vec<Item> = l.iter().enumerate().map(|(i, f)| prepare(Path::new(f), &sample(i), if i == k { b } else { Beh::Exact }, 5 + i)).collect();
            report(&items, o)?;
            let saved = image::open("output/x.png").ok().map(|i| rgb(&i));
            let want = if matches!(b, Beh::Near | Beh::Far) { decoded(&items[k].img, b).map(|d| rgb(&d)) } else { None };
            if saved != want { return Err(format!("output/x.png {}", if saved.is_some() { "is not the decoded image" } else { "is missing" })); }
            Ok(())
        });
    } } }
    for l in groups {
        let dir = &dir;
        for lists in ["the decoded images overwrite each other", "the report"] {
            ctx.case(|| format!("{:?}, all decoded with a difference: {}", l, lists), move |o| {
                fresh(dir);
                let items: Vec<Item> = l.iter().enumerate().map(|(i, f)| prepare(Path::new(f), &sample(i), Beh::Near, 5 + i)).collect();
                report(&items, o)?;
                let n = std::fs::read_dir("output").unwrap().filter(|e| e.as_ref().unwrap().file_name() != "script.csv").count();
                if lists != "the report" && n != l.len() { return Err(format!("{} images saved", n)); }
                Ok(())
            });
        }
    }

    ctx.family("file names and formats");
    let names = ["a,b.png", "quo\"te.png", "two words.png", "new\nline.png", "säge.png", "漢字.png", "a.b.c.png", ".hidden.png", "-dash.png", "#.png", "UPPER.PNG",
        "deep/er/x.png", "./dot.png", "bmp.bmp", "t.tiff", "g.gif", "=1+1.png", "'.png", " lead.png", "x;y.png", "tab\t.png", "script.png",
        "d//two.png", "d/./dot.png", "d/../up.png", ".//x.png", "./d/.//..//d/x.png", "link/x.png", "\u{e9}.png", "e\u{301}.png", "%20.png", "~.png", "$HOME.png", "*.png", "[a].png", "?.png", "a\\b.png"];
    let long = format!("{}.png", "n".repeat(250));
    let deep = format!("{}x.png", "dddddddddd/".repeat(90));
    for n in names.into_iter().chain([&long[..], &deep[..]]) { for b in BEHS {
        let dir = &dir;
        ctx.case(|| format!("{:?} {:?}", n, b), move |o| {
            fresh(dir);
            let img = DynamicImage::ImageRgb8(RgbImage::from_fn(3, 3, |x, y| Rgb([(x * 51) as u8, (y * 102) as u8, 0])));
            if n.starts_with("link/") { std::fs::create_dir("target").unwrap(); std::os::unix::fs::symlink("target", "link").unwrap(); }
            let img = if n.ends_with("gif") { DynamicImage::ImageRgba8(img.to_rgba8()) } else { img };
            let items = vec![prepare(Path::new("first.png"), &sample(0), Beh::Exact, 5), prepare(Path::new(n), &img, b, 9), prepare(Path::new("last.png"), &sample(1), Beh::Near, 2)];
            judge(&items, &[0, 1, 2], false, o)?;
            judge(&items, &[1], false, o)
        });
    } }
    ctx.family("absolute paths, previous contents of output/");
    for b in BEHS { for lossless in [false, true] {
        let dir = &dir;
        ctx.case(|| format!("{:?} {}", b, lossless), move |o| {
            fresh(dir);
            std::fs::write("output/script.csv", "name,compressed_size,compression_ratio,error\n".repeat(500)).unwrap();
            let items = vec![prepare(&dir.join("in/abs.png"), &sample(3), b, 100)];
            judge(&items, &[0], lossless, o)
        });
    } }

    ctx.family("sizes and ratios");
    for (w, h) in [(1u32, 1u32), (1, 2), (7, 3), (255, 1), (256, 1), (1, 257), (300, 300), (65536, 1), (1, 66000)] { for size in [1usize, 2, 3, 255, 256, 1000, 65535, 65536, 65537, 1_000_003] {
        let dir = &dir;
        ctx.case(|| format!("{}x{} as {} bytes", w, h, size), move |o| {
            fresh(dir);
            let img = img_of(w, h, &(0..(w * h) as usize).map(colour).collect::<Vec<_>>());
            let items = vec![prepare(Path::new("s.png"), &img, if size % 2 == 0 { Beh::Exact } else { Beh::Near }, size)];
            judge(&items, &[0], false, o)
        });
    } }
    ctx.family("the error of every difference");
    for c in 0..3usize { for a in (0..=255u8).step_by(ctx.pick(5, 1)) {
        let dir = &dir;
        ctx.case(|| format!("channel {} {}", c, a), move |o| {
            fresh(dir);
            // the inverse differs by |255 - 2a| in channel c and by 255 in the others, or by 1 at one pixel
            let mut p = [[0u8, 0, 255]; 6];
            p[1][c] = a; p[4][c] = a;
            let img = img_of(3, 2, &p);
            for b in [Beh::Far, Beh::Near] {
                let items = vec![prepare(Path::new("e.png"), &img, b, 4)];
                judge(&items, &[0], false, o)?;
            }
            let items = vec![prepare(Path::new("e.png"), &img_of(1, 1, &[p[1]]), Beh::Far, 4)];
            judge(&items, &[0], false, o)
        });
    } }
    ctx.family("errors of large images");
    for (w, h) in [(1000u32, 1000u32), (70000, 1), (1, 70000), (256, 257)] { for b in [Beh::Near, Beh::Far] {
        let dir = &dir;
        ctx.case(|| format!("{}x{} {:?}", w, h, b), move |o| {
            fresh(dir);
            let img = img_of(w, h, &(0..(w * h) as usize).map(|i| if i % 3 == 0 { [0, 255, 0] } else { [255, 0, (i % 255) as u8] }).collect::<Vec<_>>());
            let items = vec![prepare(Path::new("big.png"), &img, b, 77)];
            judge(&items, &[0], false, o)
        });
    } }

    ctx.family("one wrong pixel in images of every size");
    for n in crate::common::ladder(1, ctx.pick(2_100_000, 20_000_000)) { for b in [Beh::Near, Beh::One(0), Beh::One(1), Beh::One(2), Beh::One(3), Beh::Far, Beh::Exact] {
        if !ctx.wants() { ctx.skip(); continue; }
        let dir = &dir;
        ctx.case_limit(120_000, || format!("{} pixels {:?}", n, b), move |o| {
            fresh(dir);
            let h = (1..=n.div_ceil(1000).max(1)).find(|h| n % h == 0 && n / h < 60_000).unwrap_or(1);
            let img = img_of((n / h) as u32, h as u32, &(0..n).map(|i| if i % 5 == 0 { [0, 255, 0] } else { [255, 0, (i / 300 % 255) as u8] }).collect::<Vec<_>>());
            let items = vec![prepare(Path::new("big.tiff"), &img, b, 1 + n / 3)];
            judge(&items, &[0], false, o)
        });
    } }

    ctx.family("real codecs on real files");
    let args: Vec<String> = LOSSLESS.iter().map(|s| s.to_string()).chain(["hilbert(rle(0))", "hilbert(rle(30))", "hilbert(rle(500))", "cluster-colors(2)", "cluster-colors(64)", "voronoi(3)", "voronoi(64)"].map(String::from)).collect();
    for a in &args {
        let dir = &dir;
        ctx.case(|| a.clone(), move |o| {
            fresh(dir);
            let c = codec(a);
            let c = c.get()?;
            let imgs: Vec<(PathBuf, DynamicImage)> = (0..9usize).map(|i| {
                let p = PathBuf::from(format!("i{}.png", i));
                let img = if i < 6 { sample(i) } else { img_of(9, 7 + i as u32, &(0..9 * (7 + i)).map(|k| colour(k / (i - 5))).collect::<Vec<_>>()) };
                img.save(&p).unwrap();
                (p.clone(), image::open(&p).unwrap())
            }).collect();
            guarded(|| measure_all(c, imgs.iter().map(|x| x.0.clone())))?.map_err(|e| format!("{:?}", e))?;
            let (_, rows) = read_report(Path::new(&format!("output/{}.csv", c.name())))?;
            if rows.len() != imgs.len() { return Err(format!("{} rows for {} files", rows.len(), imgs.len())); }
            for (p, img) in &imgs {
                let row = rows.iter().find(|r| r.0 == p.to_str().unwrap()).ok_or(format!("no row for {:?}", p))?;
                let saved = Path::new("output").join(p);
                let e = if saved.exists() { mse(img, &image::open(&saved).unwrap()) } else { 0.0 };
                if !close(row.3, e) { return Err(format!("{:?}: error {} reported, but the saved image gives {}", p, row.3, e)); }
                if saved.exists() && e == 0.0 { return Err(format!("{:?} was saved without need", p)); }
                if saved.exists() && c.is_lossless() { return Err(format!("{:?} did not survive", p)); }
                let (w, h) = img.dimensions();
                if !close(row.2, 100.0 * row.1 as f64 / (3.0 * w as f64 * h as f64)) { return Err(format!("{:?}: ratio {} for {} bytes", p, row.2, row.1)); }
                if !a.starts_with("cluster") {
                    let n = crate::common::encode(c, img)?.len();
                    if n != row.1 { return Err(format!("{:?}: {} bytes reported, {} produced", p, row.1, n)); }
                }
                o.steps((w * h) as usize);
            }
            o.trace();
            o.state(a);
            Ok(())
        });
    }
    std::env::set_current_dir("/").unwrap();
}
