use crate::{common::*, engine::*};

const PAL: [C3; 4] = [[0, 0, 0], [255, 0, 255], [1, 128, 254], [0, 0, 255]];

pub fn run(ctx: &mut Ctx) {
    ctx.isolate = true;
    let cs = lossless();
    let ctx_quick = ctx.quick();

    for c in &cs {
        ctx.family("lossless codecs exist and say so");
        ctx.case(|| c.arg.clone(), |o| {
            use cniic::verif::codec::Codec;
            o.trace();
            if c.get()?.is_lossless() { Ok(()) } else { Err("does not claim to be lossless".into()) }
        });
    }

    // every image of small area
    let one = |ctx: &mut Ctx, only: Option<&[&str]>, w: u32, h: u32, mk: &(dyn Fn() -> Vec<C3> + Sync)| {
        // one case = one image through all the codecs
        if !ctx.wants() { ctx.skip(); return; }
        let img = img_of(w, h, &mk());
        ctx.case_limit(60_000, || show(&img), |o| {
            for c in &cs {
                if only.map_or(false, |l| !l.contains(&c.arg.as_str())) { continue; }
                let s = roundtrip(c.get()?, &img, o).map_err(|e| format!("{}: {}", c.arg, e))?;
                o.state(&(&c.arg, s));
            }
            Ok(())
        });
    };

    ctx.family("all images of area <= A over 3 colours");
    let a3 = ctx.pick(6, 8);
    for area in 1..=a3 { for (w, h) in shapes(area) {
        words(area as usize, 3, |t| { let t = t.to_vec(); one(ctx, None, w, h, &move || t.iter().map(|&i| PAL[i]).collect()) });
    } }
    ctx.family("all images of larger area over 2 colours");
    let a2: &[u32] = ctx.pick(&[8, 9, 12], &[9, 10, 12, 14, 15, 16]);
    for &area in a2 { for (w, h) in shapes(area) {
        words(area as usize, 2, |t| { let t = t.to_vec(); one(ctx, None, w, h, &move || t.iter().map(|&i| PAL[i * 2]).collect()) });
    } }

    ctx.family("every shape up to N x N, four patterns");
    let n = ctx.pick(24u32, 64);
    for w in 1..=n { for h in 1..=n { for pat in 0..4usize {
        one(ctx, None, w, h, &move || (0..(w * h) as usize).map(|i| {
            let (x, y) = (i as u32 % w, i as u32 / w);
            match pat {
                0 => colour(i),
                1 => PAL[((x + y) % 2) as usize],
                2 => [x as u8, y as u8, (x ^ y) as u8],
                _ => PAL[((x / 3 + y / 5) % 4) as usize],
            }
        }).collect());
    } } }

    ctx.family("solid runs of every length");
    for n in (1..=520u32).chain([764, 765, 766, 1019, 1020, 1021, 1274, 1275, 1276]) {
        one(ctx, None, n, 1, &move || vec![[7, 200, 7]; n as usize]);
        one(ctx, None, 1, n, &move || vec![[255, 255, 255]; n as usize]);
    }
    ctx.family("pairs and triples of runs around the run limit");
    let ls = [1usize, 2, 253, 254, 255, 256, 257, 509, 510, 511];
    for &a in &ls { for &b in &ls {
        one(ctx, None, (a + b) as u32, 1, &move || [vec![PAL[1]; a], vec![PAL[2]; b]].concat());
        one(ctx, None, (a + b + 1) as u32, 1, &move || [vec![PAL[1]; a], vec![PAL[2]; b], vec![PAL[1]; 1]].concat());
    } }
    ctx.family("one odd pixel at every position");
    let n = ctx.pick(7u32, 12);
    for w in 1..=n { for h in 1..=n { for k in 0..w * h {
        one(ctx, None, w, h, &move || { let mut v = vec![[9, 9, 9]; (w * h) as usize]; v[k as usize] = [9, 10, 9]; v });
    } } }

    ctx.family("every two-pixel transition of each channel");
    for ch in 0..3 { for a in 0..=255u8 {
        // one case = 256 images
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case(|| format!("channel {} from {} to every value", ch, a), |o| {
            for b in 0..=255u8 {
                let mut p = [[3, 3, 3], [3, 3, 3]];
                p[0][ch] = a; p[1][ch] = b;
                let img = img_of(2, 1, &p);
                for arg in ["delta", "hufman", "hilbert(rle)"] {
                    let c = cs.iter().find(|c| c.arg == arg).unwrap();
                    roundtrip(c.get()?, &img, o).map_err(|e| format!("{} {}->{}: {}", arg, a, b, e))?;
                    o.state(&(arg, ch, a, b));
                }
            }
            Ok(())
        });
    } }
    ctx.family("every pair of colours with extreme channels");
    const EDGE: [u8; 6] = [0, 1, 127, 128, 254, 255];
    let edge = |i: usize| -> C3 { [EDGE[i % 6], EDGE[i / 6 % 6], EDGE[i / 36]] };
    for a in 0..216 { for arg in LOSSLESS {
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case(|| format!("{}: from {:?} to every one, and back", arg, edge(a)), |o| {
            let c = cs.iter().find(|c| c.arg == arg).unwrap();
            for b in 0..216 { for (w, h, n) in [(1, 3, 3), (2, 1, 2)] {
                if ctx_quick && n == 2 { continue; }
                let img = img_of(w, h, &[edge(a), edge(b), edge(a)][..n]);
                roundtrip(c.get()?, &img, o).map_err(|e| format!("{:?} {:?}: {}", edge(a), edge(b), e))?;
                o.state(&(arg, a, b, n));
            } }
            Ok(())
        });
    } }
    ctx.family("every colour");
    for r in 0..=255u8 { for arg in LOSSLESS {
        if arg == "zip(back)" && ctx.quick() && r % 16 != 1 { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case_limit(60_000, || format!("{}: images of all colours of red {} and a green", arg, r), |o| {
            let c = cs.iter().find(|c| c.arg == arg).unwrap();
            for g in 0..=255u8 {
                if ctx_quick && arg != "hilbert(rle)" && g % 4 != r % 4 { continue; }
                let img = img_of(64, 4, &(0..=255u8).map(|b| [r, g, b]).collect::<Vec<_>>());
                roundtrip(c.get()?, &img, o).map_err(|e| format!("green {}: {}", g, e))?;
                o.state(&(arg, r, g));
            }
            Ok(())
        });
    } }
    ctx.family("all 65536 transitions of a channel in one image");
    let most: &[&str] = if ctx.quick() { &["hufman", "delta", "hilbert(rle)", "hilbert(zip)", "zip(dict)"] } else { &LOSSLESS };
    for k in 0..5usize { for arg in most {
        one(ctx, Some(&[arg]), 65537, 1, &move || all_pairs_walk(256).into_iter().map(|v| {
            let v = v as u8;
            match k { 0 => [v, 0, 0], 1 => [255, v, 255], 2 => [8, 8, v], 3 => [v, v, v], _ => [v, 255 - v, v.wrapping_mul(7)] }
        }).collect());
    } }

    ctx.family("n distinct colours");
    let big: &[usize] = &[511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097];
    for n in (1..=300usize).chain(big.iter().copied()) {
        one(ctx, None, n as u32, 1, &move || (0..n).map(colour).collect());
        one(ctx, None, 1, (n + n / 2 + 1) as u32, &move || (0..n + n / 2 + 1).map(|i| colour(i % n)).collect());
    }
    for &n in &[32767usize, 32768, 32769, 65535, 65536, 65537, 70000] { for arg in most {
        one(ctx, Some(&[arg]), 1, n as u32, &move || (0..n).map(colour).collect());
    } }
    ctx.family("Fibonacci colour frequencies (deep codes)");
    for k in 2..=ctx.pick(22usize, 27) { for arg in ["hufman", "delta"] {
        let n: usize = fib(k).iter().sum();
        let h = ((n as f64).sqrt() as usize).max(1);
        let w = n.div_ceil(h);
        one(ctx, Some(&[arg]), w as u32, h as u32, &move || {
            let mut v: Vec<C3> = fib(k).iter().enumerate().flat_map(|(i, &f)| std::iter::repeat_n(colour(i + 1), f)).collect();
            v.resize(w * h, colour(1));
            if k % 2 == 0 { v.reverse(); }
            v
        });
    } }

    ctx.family("large dimensions");
    let dims: &[(u32, u32)] = &[(65535, 1), (65536, 1), (65537, 1), (1, 65535), (1, 65536), (1, 65537), (256, 256), (255, 257), (257, 256), (300, 219), (32768, 2), (2, 32769), (131, 500)];
    for &(w, h) in dims { for arg in most {
        one(ctx, Some(&[arg]), w, h, &move || (0..(w * h) as usize).map(colour).collect());
        if *arg != "zip(back)" {
            one(ctx, Some(&[arg]), w, h, &move || (0..(w * h) as usize).map(|i| PAL[(i / 700) % 4]).collect());
        }
    } }
    ctx.family("images of every size");
    for n in ladder(2000, ctx.pick(1_100_000, 5_000_000)) { for arg in LOSSLESS { for pat in 0..5usize {
        let slow = match arg { "zip(back)" => match pat { 0 | 3 => 3_000, 2 => 9_000, _ => 21_000 }, "zip(dict)" | "hilbert(zip)" => 300_000, _ => usize::MAX };
        if n > slow.saturating_mul(ctx.pick(1, 4)) || (n > 300_000 && ctx.quick() && pat == 1 && arg != "delta") { continue; }
        let w = [n, 1, 1000, 257][n % 4].min(n);
        let h = n.div_ceil(w);
        one(ctx, Some(&[arg]), w as u32, h as u32, &move || (0..w * h).map(|i| match pat {
            // solid; all different; few colours in long stretches; solid but for one pixel; noise over few colours
            0 => PAL[1], 1 => colour(i), 2 => PAL[(i / 777) % 4], 3 => if i == n - 1 { PAL[2] } else { PAL[1] }, _ => colour((i ^ (i >> 7) ^ (i * i >> 11)) % 300) }).collect());
    } } }
    // more pixels than a float counts
    for (arg, pat) in [("hufman", 0), ("delta", 0), ("hilbert(rle)", 0), ("hufman", 1), ("delta", 1)] {
        one(ctx, Some(&[arg]), 4111, 4112, &move || (0..4111usize * 4112).map(|i| if pat == 0 { PAL[(i % 5003 == 7) as usize] } else { PAL[i % 3] }).collect());
    }
    // more distinct strings than codes: the dictionary fills up
    ctx.family("dictionary exhaustion");
    for (w, h, m) in [(320u32, 320u32, 1u64 << 24), (500, 500, 4096), (700, 600, 64)] { for arg in ["zip(dict)", "hilbert(zip)"] {
        one(ctx, Some(&[arg]), w, h, &move || {
            let mut r = XorShift(88172645463325252);
            (0..w * h).map(|_| { let x = r.below(m) * ((1 << 24) / m); [x as u8, (x >> 8) as u8, (x >> 16) as u8] }).collect()
        });
    } }
    ctx.family("repetitions at the edge of the lookback window");
    for p in 5955..=ctx.pick(5961usize, 5965) { for n in ctx.pick(vec![2 * p + 50, 3 * p + 7], vec![2 * p + 50, 3 * p + 7, 7 * p]) {
        one(ctx, Some(&["zip(back)"]), n as u32, 1, &move || (0..n).map(|i| colour(i % p)).collect());
    } }

    ctx.family("every loadable pixel format");
    let shp = [(1u32, 1u32), (2, 1), (1, 2), (2, 2), (3, 2), (5, 7), (40, 33), (257, 256)];
    for &(w, h) in &shp { for f in 0..10usize { for pat in 0..ctx.pick(12u32, 40) {
        if w > 5 && pat % 6 != 5 { continue; }
        if !ctx.wants() { ctx.skip(); continue; }
        let img = format_img(f, w, h, pat);
        ctx.case(|| format!("format {} pattern {} seen as {}", f, pat, show(&img)), |o| {
            for c in &cs { roundtrip(c.get()?, &img, o).map_err(|e| format!("{}: {}", c.arg, e))?; o.state(&(f, w, h, pat, &c.arg)); }
            Ok(())
        });
    } } }
}

pub fn fib(k: usize) -> Vec<usize> {
    let mut v = vec![1usize, 1];
    while v.len() < k { v.push(v[v.len() - 1] + v[v.len() - 2]); }
    v.truncate(k);
    v
}
