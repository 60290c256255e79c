//! C02 (all codecs decode their output), C12 (colour reduction), C13 (voronoi)
use std::collections::{BTreeMap, BTreeSet, HashMap};
use cniic::verif::codec::{AnyCodec, Codec, Img};
use crate::{common::*, engine::*};

const PAL: [C3; 5] = [[0, 0, 0], [255, 255, 255], [10, 0, 0], [11, 1, 0], [0, 128, 255]];

/// The image spaces shared by the three properties: calls f(image) in a fixed order
fn image_space(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &(dyn Fn() -> Img + Sync))) {
    ctx.family("all images of area <= A over 3 colours");
    for area in 1..=ctx.pick(6u32, 7) { for (w, h) in shapes(area) {
        words(area as usize, 3, |t| { let t = t.to_vec(); f(ctx, &move || img_of(w, h, &t.iter().map(|&i| PAL[[0, 1, 2][i]]).collect::<Vec<_>>())) });
    } }
    ctx.family("all images of area A over 4-5 colours");
    let k = ctx.pick(4usize, 5);
    for area in 2..=ctx.pick(5u32, 6) { for (w, h) in shapes(area) {
        words(area as usize, k, |t| { let t = t.to_vec(); f(ctx, &move || img_of(w, h, &t.iter().map(|&i| PAL[i]).collect::<Vec<_>>())) });
    } }
    ctx.family("all images of area A over 2 colours");
    for area in ctx.pick(vec![6u32, 8], vec![8, 9, 10, 12]) { for (w, h) in shapes(area) {
        words(area as usize, 2, |t| { let t = t.to_vec(); f(ctx, &move || img_of(w, h, &t.iter().map(|&i| PAL[2 + i]).collect::<Vec<_>>())) });
    } }
    ctx.family("every shape up to N x N, three patterns");
    let n = ctx.pick(12u32, 20);
    for w in 1..=n { for h in 1..=n { for pat in 0..3usize {
        f(ctx, &move || img_of(w, h, &(0..(w * h) as usize).map(|i| { let (x, y) = (i as u32 % w, i as u32 / w); match pat {
            0 => colour(i), 1 => [(x * 255 / w.max(1)) as u8, (y * 255 / h) as u8, 0], _ => PAL[((x + y) % 5) as usize] } }).collect::<Vec<_>>()));
    } } }
    ctx.family("collinear gradients and clusters of near-equal colours");
    for n in (1..=ctx.pick(80usize, 120)).chain([255, 256, 257, 300]) { for pat in 0..3usize {
        f(ctx, &move || line_img(&(0..n).map(|i| match pat { 0 => [i as u8, (i >> 8) as u8, 0], 1 => [(i / 2) as u8, 0, 255 - (i / 3) as u8], _ => { let q = colour(i / 4); [q[0] ^ (i % 4) as u8, q[1], q[2]] } }).collect::<Vec<_>>()));
    } }
    ctx.family("colour multiplicities 1..300, 256 and 65536 included");
    for m in [1usize, 2, 3, 100, 254, 255, 256, 257, 300, 511, 512, 513] {
        f(ctx, &move || line_img(&[vec![[0, 0, 0]; m], vec![[2, 255, 1]; 1], vec![[200, 7, 9]; m / 2]].concat()));
        f(ctx, &move || line_img(&[vec![[0, 0, 0]; m], vec![[0, 0, 3]; 1]].concat()));
    }
    for m in [65535usize, 65536, 65537, 70000] {
        f(ctx, &move || img_of(2, (m as u32 + 2) / 2, &{ let mut v = vec![[250, 251, 252]; m / 2 * 2]; v.push([0, 1, 3]); v.push([254, 0, 255]); v.truncate((m + 2) / 2 * 2); v }));
    }
    ctx.family("long and thin");
    for (w, h) in [(600u32, 1u32), (1, 600), (257, 3), (3, 258), (66000, 1), (1, 66000)] {
        f(ctx, &move || img_of(w, h, &(0..w * h).map(|i| [(i * 255 / (w * h)) as u8, 100, (i / 300) as u8]).collect::<Vec<_>>()));
    }
    // each case has a hash order of its own
    ctx.family("colours whose rounded means cycle, in many orders");
    let cyc: [([u8; 3], usize); 10] = [([2, 2, 1], 4), ([1, 0, 1], 5), ([2, 2, 0], 2), ([1, 1, 0], 5), ([0, 2, 2], 2), ([2, 1, 1], 2), ([0, 0, 0], 2), ([1, 0, 2], 3), ([2, 0, 0], 1), ([1, 1, 1], 4)];
    for _ in 0..ctx.pick(300, 5000) { f(ctx, &move || img_of(6, 5, &cyc.iter().flat_map(|(c, n)| vec![*c; *n]).collect::<Vec<_>>())); }
    ctx.family("more clusters than a byte counts");
    for n in [256usize, 257, 300, 511, 512, 513, 700] { for pat in 0..2usize { f(ctx, &move || line_img(&(0..n).map(|i| if pat == 0 { [i as u8, (i >> 8) as u8 * 100, 7] } else { colour(i * 3) }).collect::<Vec<_>>())); } }
    ctx.family("every loadable pixel format");
    for fm in 0..10usize { for pat in 0..6u32 { for (w, h) in [(1u32, 1u32), (2, 2), (3, 2)] { f(ctx, &move || format_img(fm, w, h, pat)); } } }
}

type Check<'a> = &'a (dyn Fn(&str, &Img, &[u8], &Img) -> Result<(), String> + Sync);

fn run_codecs(ctx: &mut Ctx, args: &dyn Fn(&Img) -> Vec<String>, check: Check) {
    ctx.isolate = true;
    let mut cache: HashMap<String, Named> = HashMap::new();
    image_space(ctx, &mut |ctx, mk| {
        if !ctx.wants() { ctx.skip(); return; }
        let img = mk();
        let list = args(&img);
        for a in &list { if !cache.contains_key(a) { let c = codec(a); cache.insert(a.clone(), c); } }
        let cache = &cache;
        ctx.case_limit(30_000, || show(&img), |o| {
            for a in &list { one(cache[a].get()?, a, &img, check, o)?; }
            Ok(())
        });
    });
}

fn one(c: &AnyCodec, a: &str, img: &Img, check: Check, o: &mut Obs) -> Result<(), String> {
    let e = |m: String| format!("{}: {}", a, m);
    let s = guarded(|| encode(c, img)).and_then(|x| x).map_err(e)?;
    let d = guarded(|| decode(c, &s)).map_err(e)?.ok_or_else(|| e("the codec's own output does not decode".into()))?;
    same_size(img, &d).map_err(e)?;
    check(a, img, &s, &d).map_err(e)?;
    o.trace();
    o.steps((d.width() * d.height()) as usize);
    o.state(&(a.to_string(), s));
    Ok(())
}

/// One codec on one (large) image
fn single(ctx: &mut Ctx, a: String, what: String, mk: &(dyn Fn() -> Img + Sync), check: Check) {
    if !ctx.wants() { ctx.skip(); return; }
    ctx.case_limit(300_000, || format!("{} on {}", a, what), |o| one(codec(&a).get()?, &a, &mk(), check, o));
}

/// Layouts of `n` distinct colours: along a line, spread over the cube, in close groups, one far outlier
fn spread(n: usize, pat: usize) -> Vec<C3> {
    (0..n).map(|i| match pat {
        0 => [i as u8, (i >> 8) as u8, (i >> 16) as u8],
        1 => colour(i),
        2 => { let q = colour(i / 64); [q[0] & 0xFC | (i % 4) as u8, q[1] & 0xFC | (i / 4 % 4) as u8, q[2] & 0xFC | (i / 16 % 4) as u8] }
        _ => if i == n / 2 { [255, 255, 255] } else { [(i % 64) as u8, (i / 64 % 64) as u8, (i / 4096) as u8] }
    }).collect()
}

/// Rows of at most 1000 pixels
fn block_img(p: &[C3]) -> Img {
    let w = p.len().min(1000);
    let h = p.len().div_ceil(w);
    let mut q = p.to_vec();
    q.resize(w * h, p[0]);
    img_of(w as u32, h as u32, &q)
}

/// Sizes at which counters, sums or tables could run over, few clusters
fn many_colours(ctx: &mut Ctx, name: &str, check: Check) {
    ctx.family("many colours, few clusters");
    for n in ladder(1000, ctx.pick(140_000, 1_100_000)) { for k in [1usize, 2, 5] { for pat in 0..4usize {
        if n > 50_000 && (k == 5 || ctx.quick() && pat == 1 && k > 1) { continue; }
        single(ctx, format!("{}({})", name, k), format!("{} colours of pattern {}", n, pat), &move || block_img(&spread(n, pat)), check);
    } } }
    ctx.family("few colours, many pixels");
    // channel sums exceed 32 bits from 16.9 million pixels on
    for n in ladder(60_000, ctx.pick(1_100_000, 20_000_000)).into_iter().chain([16_900_000]) { for k in [1usize, 2] { for pat in 0..2usize {
        if ctx.quick() && n > 1_100_000 && (k, pat) != (1, 0) { continue; }
        single(ctx, format!("{}({})", name, k), format!("{} pixels of pattern {}", n, pat), &move || block_img(&(0..n).map(|i| if pat == 0 { [255, 254, 255 - (i * 8 / n) as u8] } else if i == n - 1 { [255, 0, 3] } else { [(i % 3) as u8, 255, 9] }).collect::<Vec<_>>()), check);
    } } }
}

/// Numbers of clusters up to a thousand and more
fn many_clusters(ctx: &mut Ctx, name: &str, check: Check) {
    ctx.family("many clusters");
    for n in ladder(20, ctx.pick(1100, 4200)) { for k in [n - 1, n, n + 1, n / 2 + 1, n * 2 / 3] { for pat in 0..4usize {
        if ctx.quick() && n > 300 && pat % 2 == 1 { continue; }
        single(ctx, format!("{}({})", name, k), format!("{} points of pattern {}", n, pat), &move || {
            let w = (n as f64).sqrt() as usize;
            let mut c = spread(n, pat);
            c.resize(w * n.div_ceil(w), [7, 0, 7]);
            img_of(w as u32, n.div_ceil(w) as u32, &c)
        }, check);
    } } }
}

/// Wide and tall images: large coordinates
fn wide(ctx: &mut Ctx, name: &str, check: Check) {
    ctx.family("wide and tall");
    for n in ladder(1000, ctx.pick(300_000, 3_000_000)) { for k in [1usize, 2] { for pat in 0..2usize { for tall in [false, true] {
        single(ctx, format!("{}({})", name, k), format!("{} pixels of pattern {} in a {}", n, pat, if tall { "column" } else { "row" }), &move || {
            let p: Vec<C3> = (0..n).map(|i| if pat == 0 { [(i * 255 / n) as u8, 100, (i / 300) as u8] } else { [255, (i % 2) as u8, 255] }).collect();
            if tall { img_of(1, n as u32, &p) } else { img_of(n as u32, 1, &p) }
        }, check);
    } } } }
}

fn dedup(mut v: Vec<String>) -> Vec<String> { v.sort(); v.dedup(); v }

fn cluster_counts(img: &Img) -> Vec<usize> {
    let p = pixels(img);
    let colours = p.iter().collect::<BTreeSet<_>>().len();
    let mut v = vec![1, 2, 3, 4, 5, 8, colours.saturating_sub(1), colours, colours + 1, (colours + 1) / 2];
    if p.len() <= 64 { v.extend([16, 255, 256, 257, 1000, usize::MAX]); }
    else if p.len() <= 300 { v.extend([16, 64, 253, 255, 256, 257, 298]); }
    else if p.len() <= 1100 { v.extend([16, 257]); }
    // costs grow with points x clusters
    if p.len() > 5000 { v.retain(|n| *n <= 8); }
    v.retain(|n| *n >= 1);
    v.sort(); v.dedup(); v
}

pub fn c02(ctx: &mut Ctx) {
    let ds = ["0", "-0", "0.5", "1", "1.5", "2", "3.7", "100", "441.6", "442", "1e308", "inf", "-1", "nan", "1e-320"];
    run_codecs(ctx, &|img| {
        let mut v: Vec<String> = LOSSLESS.iter().map(|s| s.to_string()).collect();
        v.extend(ds.iter().map(|d| format!("hilbert(rle({}))", d)));
        for n in cluster_counts(img) { v.push(format!("cluster-colors({})", n)); v.push(format!("voronoi({})", n)); }
        if img.width() * img.height() > 5000 { v.retain(|a| a != "zip(back)"); }
        dedup(v)
    }, &|_, _, _, _| Ok(()));
    for n in ["voronoi", "cluster-colors"] { large(ctx, n, &|_, _, _, _| Ok(())); }
}

fn large(ctx: &mut Ctx, name: &str, check: Check) {
    many_clusters(ctx, name, check);
    if name == "voronoi" { wide(ctx, name, check); } else { many_colours(ctx, name, check); }
}

fn param(a: &str) -> usize { a[a.find('(').unwrap() + 1..a.len() - 1].parse().unwrap() }

fn d2<const D: usize>(a: &[i64; D], b: &[i64; D]) -> i64 { (0..D).map(|d| (a[d] - b[d]).pow(2)).sum() }

fn mean_of<const D: usize>(pt: &[[i64; D]], wt: &[i64], mask: usize) -> [i64; D] {
    let (mut sum, mut n) = ([0i64; D], 0);
    for (i, q) in pt.iter().enumerate() { if mask >> i & 1 == 1 { for d in 0..D { sum[d] += q[d] * wt[i]; } n += wt[i]; } }
    sum.map(|x| x / n)
}

/// The divisions of a few points in two groups (either possibly empty) in which every point is at least as close to the
/// rounded mean of its own group as to the other's; None if rounded means could make the search for one go round in circles.
/// (Where no cycle exists, alternating between groups and means ends in one of these from anywhere.)
fn two_groups<const D: usize>(pt: &[[i64; D]], wt: &[i64]) -> Option<Vec<usize>> {
    let n = pt.len();
    let full = (1usize << n) - 1;
    // where one more round can lead: points at equal distances may stay or go; an empty group is represented by any point
    let succ = |m: usize| -> Vec<usize> {
        let mut cs = vec![];
        if m == 0 || m == full { let all = mean_of(pt, wt, full); for q in pt { cs.push(if m == 0 { (all, *q) } else { (*q, all) }); } }
        else { cs.push((mean_of(pt, wt, full & !m), mean_of(pt, wt, m))); }
        let mut out = vec![];
        for (c0, c1) in cs {
            let mut ms = vec![0usize];
            for (i, q) in pt.iter().enumerate() {
                let (a, b) = (d2(q, &c0), d2(q, &c1));
                if b < a { ms.iter_mut().for_each(|x| *x |= 1 << i); } else if a == b { let mut t = ms.clone(); t.iter_mut().for_each(|x| *x |= 1 << i); ms.extend(t); }
            }
            out.extend(ms);
        }
        out.sort(); out.dedup(); out
    };
    let graph: Vec<Vec<usize>> = (0..=full).map(succ).collect();
    // a cycle of more than one division?
    let mut indeg = vec![0usize; full + 1];
    for (m, g) in graph.iter().enumerate() { for &t in g { if t != m { indeg[t] += 1; } } }
    let mut ready: Vec<usize> = (0..=full).filter(|m| indeg[*m] == 0).collect();
    let mut done = 0;
    while let Some(m) = ready.pop() { done += 1; for &t in &graph[m] { if t != m { indeg[t] -= 1; if indeg[t] == 0 { ready.push(t); } } } }
    if done <= full { return None; }
    Some((0..=full).filter(|m| graph[*m].contains(m)).collect())
}

pub fn c12(ctx: &mut Ctx) {
    ctx.family("two groups: colours of a small cube, every choice of up to k of them");
    let cube: Vec<C3> = (0..18).map(|i| [[0, 3, 7][i % 3], [50, 54][i / 3 % 2], [255, 251, 246][i / 6]]).collect();
    for k in 3..=ctx.pick(5usize, 6) { for heavy in 0..2usize { choose(18, k, &mut |t| {
        if !ctx.wants() { ctx.skip(); return; }
        let p: Vec<C3> = t.iter().enumerate().flat_map(|(j, &i)| vec![cube[i]; if j == 1 { 1 + 6 * heavy } else { 1 }]).collect();
        ctx.case(|| format!("cluster-colors(2) on {:?}", p), |o| one(codec("cluster-colors(2)").get()?, "cluster-colors(2)", &line_img(&p), &|a, img, _, d| judge12(a, img, d), o));
    }); } }
    run_codecs(ctx, &|img| dedup(cluster_counts(img).iter().map(|n| format!("cluster-colors({})", n)).collect()), &|a, img, _, d| judge12(a, img, d));
    large(ctx, "cluster-colors", &|a, img, _, d| judge12(a, img, d));
}

pub fn judge12(a: &str, img: &Img, d: &Img) -> Result<(), String> {
        let n = param(a);
    let (p, q) = (pixels(img), pixels(d));
    let out: BTreeSet<_> = q.iter().collect();
    if out.len() > n { return Err(format!("{} distinct colours in the result", out.len())); }
    let mut map: BTreeMap<C3, C3> = BTreeMap::new();
    let mut groups: BTreeMap<C3, ([u64; 3], u64)> = BTreeMap::new();
    for (x, y) in p.iter().zip(&q) {
        let e = map.entry(*x).or_insert(*y);
        if e != y { return Err(format!("colour {:?} became both {:?} and {:?}", x, e, y)); }
        let g = groups.entry(*y).or_insert(([0; 3], 0));
        for i in 0..3 { g.0[i] += x[i] as u64; }
        g.1 += 1;
    }
    for (c, (sum, k)) in &groups {
        let mean = sum.map(|s| (s / k) as u8);
        if mean != *c { return Err(format!("the {} pixels that became {:?} have the mean {:?}", k, c, mean)); }
    }
    if n == 2 && map.len() > 2 && map.len() <= 7 && out.len() == 2 {
        let pt: Vec<[i64; 3]> = map.keys().map(|c| c.map(|x| x as i64)).collect();
        let wt: Vec<i64> = map.keys().map(|c| p.iter().filter(|x| *x == c).count() as i64).collect();
        if let Some(fix) = two_groups(&pt, &wt) {
            let one = **out.iter().next().unwrap();
            let m: usize = map.values().enumerate().filter(|(_, v)| **v == one).map(|(i, _)| 1 << i).sum();
            if !fix.contains(&m) { return Err(format!("a colour is closer to the other group's mean: {:?}", map)); }
        }
    }
    if map.len() <= n && p != q { return Err(format!("the image has only {} colours but was changed", map.len())); }
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    run_codecs(ctx, &|img| dedup(cluster_counts(img).iter().chain(&[(img.width() * img.height()) as usize, (img.width() * img.height()) as usize + 1])
            .filter(|n| img.width() * img.height() <= 700 || **n <= 8)
            .map(|n| format!("voronoi({})", n)).collect()), &|a, img, s, d| judge13(a, img, s, d));
    large(ctx, "voronoi", &judge13);
    // channel sums exceed 32 bits
    single(ctx, "voronoi(1)".into(), "4111x4112 pixels, almost white".into(), &|| img_of(4111, 4112, &(0..4111 * 4112).map(|i| [255, 254, 255 - (i / 11_000_000) as u8]).collect::<Vec<_>>()), &judge13);
    ctx.family("two groups: colours as close to each other as the pixels");
    let near: [C3; 4] = [[100, 100, 100], [102, 100, 100], [100, 103, 101], [101, 100, 104]];
    for area in 3..=ctx.pick(6u32, 7) { for (w, h) in shapes(area) { for set in 0..2usize {
        words(area as usize, 3, |t| {
            if !ctx.wants() { ctx.skip(); return; }
            let p: Vec<C3> = t.iter().map(|&i| near[i + set]).collect();
            ctx.case(|| format!("voronoi(2) on {}x{} {:?}", w, h, p), |o| one(codec("voronoi(2)").get()?, "voronoi(2)", &img_of(w, h, &p), &judge13, o));
        });
    } } }
    ctx.family("streams with many centroids");
    for k in ladder(1, ctx.pick(2100, 70_000)) { for pat in 0..6usize { for (w, h) in [(40u32, 40u32), (300, 3), (3, 300)] {
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case_limit(300_000, || format!("{} centroids of layout {} in {}x{}", k, pat, w, h), |o| {
            let cs: Vec<(u32, u32, C3)> = (0..k).map(|i| {
                let a = (w * h) as usize;
                let at = |p: usize| (p as u32 % w, p as u32 / w);
                let (x, y) = match pat {
                    // in reading order, scattered, all in a corner but the last, but the first, on a diagonal, from the end
                    0 => at(i * a / k), 1 => at(i * 7919 % a),
                    2 => if i + 1 == k { (w - 1, h - 1) } else { ((i % 4) as u32 % w, (i / 4 % 4) as u32 % h) },
                    3 => if i == 0 { (0, 0) } else { (w - 1 - (i % 4) as u32 % w, h - 1 - (i / 4 % 4) as u32 % h) },
                    4 => ((i as u64 * w as u64 / k as u64) as u32, (i as u64 * h as u64 / k as u64) as u32),
                    _ => at(a - 1 - i % a) };
                (x, y, colour(i + 1))
            }).collect();
            let mut s = vec![];
            s.extend(w.to_le_bytes()); s.extend(h.to_le_bytes()); s.extend((k as u64).to_le_bytes());
            for (x, y, c) in &cs { s.extend(x.to_le_bytes()); s.extend(y.to_le_bytes()); s.extend(3u64.to_le_bytes()); s.extend(c); }
            let d = guarded(|| decode(codec("voronoi(9)").get()?, &s).ok_or("not decoded".to_string()))??;
            if (d.width(), d.height()) != (w, h) { return Err(format!("decoded to {}x{}", d.width(), d.height())); }
            painted(&cs, &d)?;
            o.trace(); o.steps(k); o.state(&s);
            Ok(())
        });
    } } }
}

/// Can the pixels be divided into groups that have these means? Tried: each pixel to its nearest centroid in space and
/// colour, then all divisions of a small image; for one or two centroids the totals decide whether any division could.
fn means(cs: &[(u32, u32, C3)], w: u32, p: &[C3]) -> Result<(), String> {
    let pt: Vec<[i64; 5]> = p.iter().enumerate().map(|(i, c)| [(i as u32 % w) as i64, (i as u32 / w) as i64, c[0] as i64, c[1] as i64, c[2] as i64]).collect();
    let ct: Vec<[i64; 5]> = cs.iter().map(|(x, y, c)| [*x as i64, *y as i64, c[0] as i64, c[1] as i64, c[2] as i64]).collect();
    let k = ct.len();
    let fits = |sum: &[[i64; 5]], size: &[i64]| (0..k).all(|g| if size[g] == 0 { pt.contains(&ct[g]) } else { (0..5).all(|d| sum[g][d] / size[g] == ct[g][d]) });
    let dist = |a: &[i64; 5], b: &[i64; 5]| (0..5).map(|d| (a[d] - b[d]).pow(2)).sum::<i64>();
    if pt.len() * k <= 4_000_000 {
        let (mut sum, mut size) = (vec![[0i64; 5]; k], vec![0i64; k]);
        for q in &pt {
            let g = (0..k).min_by_key(|&g| dist(q, &ct[g])).unwrap();
            for d in 0..5 { sum[g][d] += q[d]; }
            size[g] += 1;
        }
        if fits(&sum, &size) { return Ok(()); }
    }
    let bad = || Err(format!("no division of the pixels has the means {:?}", cs));
    let all = (pt.len() as f64).mul_add((k as f64).ln(), 0.0) < (2e6f64).ln();
    if all {
        let (mut sum, mut size, mut at) = (vec![[0i64; 5]; k], vec![0i64; k], vec![]);
        // depth-first over the group of every pixel
        let mut next = 0usize;
        loop {
            if at.len() == pt.len() && fits(&sum, &size) { return Ok(()); }
            if at.len() < pt.len() && next < k {
                for d in 0..5 { sum[next][d] += pt[at.len()][d]; }
                size[next] += 1;
                at.push(next);
                next = 0;
            } else {
                let Some(g) = at.pop() else { return bad() };
                for d in 0..5 { sum[g][d] -= pt[at.len()][d]; }
                size[g] -= 1;
                next = g + 1;
            }
        }
    }
    if k <= 2 {
        let mut tot = [0i64; 5];
        for q in &pt { for d in 0..5 { tot[d] += q[d]; } }
        let n = pt.len() as i64;
        // each group's total lies below its rounded mean plus one times its size
        let ok = (0..=n).any(|m| {
            let sizes = if k == 1 { vec![n] } else { vec![m, n - m] };
            (0..k).all(|g| sizes[g] > 0 || pt.contains(&ct[g]))
                && (0..5).all(|d| { let low: i64 = (0..k).map(|g| sizes[g] * ct[g][d]).sum(); low <= tot[d] && tot[d] <= low + sizes.iter().map(|s| (s - 1).max(0)).sum::<i64>() })
        });
        if !ok { return bad(); }
    }
    Ok(())
}

fn painted(cs: &[(u32, u32, C3)], d: &Img) -> Result<(), String> {
    let q = pixels(d);
    let w = d.width();
    for y in 0..d.height() { for x in 0..w {
        let dist = |c: &(u32, u32, C3)| (c.0 as i64 - x as i64).pow(2) + (c.1 as i64 - y as i64).pow(2);
        let best = cs.iter().map(dist).min().unwrap();
        let got = q[(y * w + x) as usize];
        if !cs.iter().any(|c| dist(c) == best && c.2 == got) {
            return Err(format!("pixel ({}, {}) painted {:?}, no nearest centroid has that colour", x, y, got));
        }
    } }
    Ok(())
}

pub fn judge13(a: &str, img: &Img, s: &[u8], d: &Img) -> Result<(), String> {
        let n = param(a);
    let (w, h) = (img.width(), img.height());
    let p = pixels(img);
    let want = n.min(p.len());
    let u32_at = |i: usize| u32::from_le_bytes(s[i..i + 4].try_into().unwrap());
    let u64_at = |i: usize| u64::from_le_bytes(s[i..i + 8].try_into().unwrap());
    if s.len() != 16 + want * 19 { return Err(format!("the stream has {} bytes, expected {} for {} centroids", s.len(), 16 + want * 19, want)); }
    if (u32_at(0), u32_at(4)) != (w, h) { return Err(format!("dimensions stored as {:?}", (u32_at(0), u32_at(4)))); }
    if u64_at(8) != want as u64 { return Err(format!("{} centroids announced, expected {}", u64_at(8), want)); }
    let mut lo = [255u8; 3]; let mut hi = [0u8; 3];
    for c in &p { for i in 0..3 { lo[i] = lo[i].min(c[i]); hi[i] = hi[i].max(c[i]); } }
    let mut cs: Vec<(u32, u32, C3)> = vec![];
    for k in 0..want {
        let b = 16 + k * 19;
        let (x, y) = (u32_at(b), u32_at(b + 4));
        if u64_at(b + 8) != 3 { return Err("colour of unexpected length".into()); }
        let c = [s[b + 16], s[b + 17], s[b + 18]];
        if x >= w || y >= h { return Err(format!("centroid at ({}, {}) outside of {}x{}", x, y, w, h)); }
        for i in 0..3 { if c[i] < lo[i] || c[i] > hi[i] { return Err(format!("centroid colour {:?} outside of the image's range {:?}..{:?}", c, lo, hi)); } }
        cs.push((x, y, c));
    }
    means(&cs, w, &p)?;
    if want == 2 && p.len() <= 7 {
        let pt: Vec<[i64; 5]> = p.iter().enumerate().map(|(i, c)| [(i as u32 % w) as i64, (i as u32 / w) as i64, c[0] as i64, c[1] as i64, c[2] as i64]).collect();
        let wt = vec![1; pt.len()];
        let ct: Vec<[i64; 5]> = cs.iter().map(|(x, y, c)| [*x as i64, *y as i64, c[0] as i64, c[1] as i64, c[2] as i64]).collect();
        if let Some(fix) = two_groups(&pt, &wt) {
            let full = (1usize << pt.len()) - 1;
            if !fix.iter().any(|&m| if m == 0 || m == full { ct.contains(&mean_of(&pt, &wt, full)) } else { mean_of(&pt, &wt, full & !m) == ct[0] && mean_of(&pt, &wt, m) == ct[1] }) {
                return Err(format!("the stored centroids {:?} are not those of two groups of which each pixel is with the nearer one", cs));
            }
        }
    }
    painted(&cs, d)?;
    if n >= p.len() && p != pixels(d) { return Err("as many centroids as pixels, but the image was changed".into()); }
    Ok(())
}

#[allow(dead_code)]
fn _t(c: &AnyCodec) -> String { c.name() }
