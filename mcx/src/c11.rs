//! C11: k-means on all small point sequences, cluster counts and random outcomes
use std::cell::Cell;
use cniic::verif::geom::Distance;
use cniic::verif::kmeans::{self, Point};
use crate::{common::{ladder, words}, engine::*, rng};

// distances and means left until the run counts as endless
thread_local!(static CALLS: Cell<u64> = const { Cell::new(u64::MAX) });
fn allow(n: u64) { CALLS.with(|c| c.set(n)) }
const D: usize = 5;
const MEAN: u32 = u32::MAX;

fn tick() {
    CALLS.with(|c| { let n = c.get(); if n == 0 { c.set(u64::MAX); panic!("no end"); } c.set(n - 1); });
}

/// Integer coordinates over a common denominator; EXACT: means are kept as fractions, else rounded down
#[derive(Clone, Copy, Debug)]
struct P<const EXACT: bool> { id: u32, num: [i64; D], den: i64, weight: i64 }
impl<const EXACT: bool> P<EXACT> {
    fn xy(&self) -> [f64; D] { self.num.map(|v| v as f64 / self.den as f64) }
    fn same(&self, o: &Self) -> bool { (0..D).all(|i| self.num[i] * o.den == o.num[i] * self.den) && self.weight == o.weight }
}
impl<const EXACT: bool> Distance for P<EXACT> {
    fn dist(&self, o: &Self) -> f64 {
        tick();
        let (a, b) = (self.xy(), o.xy());
        (0..D).map(|i| (a[i] - b[i]).powi(2)).sum::<f64>().sqrt()
    }
}
impl<const EXACT: bool> Point for P<EXACT> {
    fn weight(&self) -> f64 { self.weight as f64 }
    fn mean(points: &[Self]) -> Option<Self> {
        tick();
        if points.is_empty() { return None; }
        if points.len() == 1 { return Some(P { id: MEAN, ..points[0] }); }
        let w: i64 = points.iter().map(|p| p.weight).sum();
        let mut num = [0i64; D];
        for p in points { for i in 0..D { assert_eq!(p.den, 1, "the mean of means was asked for"); num[i] += p.num[i] * p.weight; } }
        Some(if EXACT { P { id: MEAN, num, den: w, weight: w } } else { P { id: MEAN, num: num.map(|v| v.div_euclid(w)), den: 1, weight: w } })
    }
}

/// Rounded means may let the two groups change for ever: does repeating the step from here come to an end?
fn settles<const E: bool>(groups: &[(P<E>, Vec<P<E>>)]) -> bool {
    let mut g = [groups[0].1.clone(), groups[1].1.clone()];
    for _ in 0..500 + g[0].len() + g[1].len() {
        let (Some(a), Some(b)) = (P::mean(&g[0]), P::mean(&g[1])) else { return false };
        let mut next = [vec![], vec![]];
        let mut moved = false;
        for i in 0..2 { for p in &g[i] {
            let (own, other) = if i == 0 { (&a, &b) } else { (&b, &a) };
            let go = p.dist(other) < p.dist(own);
            moved |= go;
            next[if go { 1 - i } else { i }].push(*p);
        } }
        if !moved { return true; }
        g = next;
    }
    false
}

fn judge<const E: bool>(pts: &[P<E>], n: usize, groups: &[(P<E>, Vec<P<E>>)]) -> Result<(), String> {
    let want = n.min(pts.len());
    if groups.len() != want { return Err(format!("{} groups for {} clusters of {} points", groups.len(), n, pts.len())); }
    let mut seen = vec![false; pts.len()];
    for (_, g) in groups { for p in g {
        if p.id == MEAN { return Err("a mean was returned as a point".into()); }
        if std::mem::replace(&mut seen[p.id as usize], true) { return Err(format!("point {} occurs twice", p.id)); }
        if !p.same(&pts[p.id as usize]) { return Err(format!("point {} was changed to {:?}", p.id, p)); }
    } }
    if let Some(i) = seen.iter().position(|s| !s) { return Err(format!("point {} got lost", i)); }
    for (c, g) in groups {
        if let Some(m) = P::mean(g) { if !m.same(c) { return Err(format!("centroid {:?} of a group whose mean is {:?}", c, m)); } }
    }
    if want <= 2 {
        for (i, (c, g)) in groups.iter().enumerate() { for (j, (d, h)) in groups.iter().enumerate() { if i != j && !h.is_empty() { for p in g {
            if p.dist(d) < p.dist(c) * (1.0 - 1e-12) && (E || settles(groups)) { return Err(format!("point {:?} is closer to the other mean {:?} than to its own {:?}", p.num, d.xy(), c.xy())); }
        } } } }
    }
    Ok(())
}

/// All random outcomes with at most `draws` departures from the default sequence
fn all_outcomes<const E: bool>(pts: &[P<E>], n: usize, draws: usize, o: &mut Obs) -> Result<(), String> {
    let mut todo: Vec<(Vec<usize>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, d)) = todo.pop() {
        let (l, k) = (pts.len() as u64, n.min(pts.len()) as u64);
        // some 2000 iterations and two for each point, each with all distances between points and centroids and among centroids
        allow(10_000 + (2000 + 2 * l) * (l * k + k * k * 4 + l + k));
        rng::reset_turn();
        rng::data_begin(prefix.clone(), 1_000_000);
        let r = guarded(|| kmeans::cluster(pts.to_vec(), n).into_iter().collect::<Vec<_>>());
        let trace = rng::data_end();
        let show = || format!("{} clusters, random choices {:?}", n, trace.iter().take(40).map(|t| t.1).collect::<Vec<_>>());
        let groups = r.map_err(|e| format!("{}: {}", show(), e))?;
        allow(u64::MAX);
        judge(pts, n, &groups).map_err(|e| format!("{}: {}", show(), e))?;
        o.trace();
        o.steps(trace.len() + pts.len());
        o.state(&(n, pts.iter().map(|p| (p.num, p.weight)).collect::<Vec<_>>(), groups.iter().map(|g| g.1.iter().map(|p| p.id).collect::<Vec<_>>()).collect::<Vec<_>>(), E));
        if d < draws { for i in prefix.len()..trace.len().min(60) { for alt in 1..trace[i].0 {
            let mut q: Vec<usize> = trace[..i].iter().map(|t| t.1).collect();
            q.push(alt);
            todo.push((q, d + 1));
        } } }
    }
    Ok(())
}

fn up<const K: usize>(p: [i64; K]) -> [i64; D] { let mut q = [0; D]; q[..K].copy_from_slice(&p); q }

fn both<const K: usize>(pts: &[([i64; K], i64)], ns: &[usize], draws: usize, o: &mut Obs) -> Result<(), String> {
    let a: Vec<P<true>> = pts.iter().enumerate().map(|(i, p)| P { id: i as u32, num: up(p.0), den: 1, weight: p.1 }).collect();
    let b: Vec<P<false>> = pts.iter().enumerate().map(|(i, p)| P { id: i as u32, num: up(p.0), den: 1, weight: p.1 }).collect();
    for &n in ns {
        all_outcomes(&a, n, draws, o).map_err(|e| format!("exact means, {}", e))?;
        all_outcomes(&b, n, draws, o).map_err(|e| format!("means rounded down, {}", e))?;
    }
    Ok(())
}

/// Heavy points at both ends and `n` light ones half-way, each of which is on the wrong side of the boundary only
/// when all before it have moved: two-means needs a pass for each
fn chain(n: usize, w: i64, eps: f64, mirror: bool) -> Vec<([i64; 2], i64)> {
    const L: i64 = 1_000_000_000;
    let (l, wf) = (L as f64, w as f64);
    let d = l / (2.0 * wf);
    let mut xs: Vec<f64> = (0..n).map(|i| l / 2.0 - n as f64 * (l / 2.0) / (2.0 * wf) + i as f64 * d).collect();
    for _ in 0..60 {
        let (mut m0, mut s0, mut m1, mut s1) = (wf + 1.0, -l / 2.0, wf + n as f64, wf * l + xs.iter().sum::<f64>());
        let mut next = vec![];
        for x in &xs {
            next.push((s0 / m0 + s1 / m1) / 2.0 - eps * d);
            s0 += x; m0 += 1.0; s1 -= x; m1 -= 1.0;
        }
        xs = next;
    }
    // the first point of each half is an initial centroid
    let mut low = vec![(-L / 2, 1), (0, w)];
    let mut high = vec![(L, w)];
    for (i, x) in xs.iter().enumerate() { if i < n / 2 { low.push((*x as i64, 1)) } else { high.push((*x as i64, 1)) } }
    if mirror { std::mem::swap(&mut low, &mut high); }
    while low.len() < high.len() { low.push(high.pop().unwrap()); }
    while high.len() + 1 < low.len() { high.push(low.pop().unwrap()); }
    low.extend(high);
    low.iter().map(|p| ([p.0, 0], p.1)).collect()
}

pub fn run(ctx: &mut Ctx) {
    ctx.family("points on a line");
    for (len, k) in ctx.pick(vec![(1, 7), (2, 7), (3, 7), (4, 7), (5, 5), (6, 3), (7, 2)], vec![(1, 9), (2, 9), (3, 9), (4, 9), (5, 9), (6, 7), (7, 5), (8, 3), (9, 3), (10, 2)]) {
        words(len, k, |w| {
            if !ctx.wants() { ctx.skip(); return; }
            let w = w.to_vec();
            ctx.case(|| format!("{:?}", w), |o| {
                let p: Vec<_> = w.iter().map(|&x| ([x as i64, 0], 1)).collect();
                both(&p, &(1..=len + 1).collect::<Vec<_>>(), 2, o)
            });
        });
    }
    ctx.family("points on a line, unevenly spaced");
    for len in 2..=ctx.pick(5usize, 6) {
        const X: [i64; 7] = [0, 1, 3, 8, 9, 20, 200];
        words(len, ctx.pick(6, 7), |w| {
            if !ctx.wants() { ctx.skip(); return; }
            let w = w.to_vec();
            ctx.case(|| format!("{:?}", w.iter().map(|&x| X[x]).collect::<Vec<_>>()), |o| {
                let p: Vec<_> = w.iter().map(|&x| ([X[x], 0], 1)).collect();
                both(&p, &(1..=len).collect::<Vec<_>>(), 1, o)
            });
        });
    }
    ctx.family("weighted points on a line");
    for len in 2..=ctx.pick(4usize, 5) {
        let k = ctx.pick(5, 6);
        words(len, k * 3, |w| {
            if !ctx.wants() { ctx.skip(); return; }
            let w = w.to_vec();
            let p: Vec<_> = w.iter().map(|&x| ([[0, 1, 2, 4, 7, 12][x / 3], 0], [1, 2, 5][x % 3])).collect();
            ctx.case(|| format!("{:?}", p), |o| both(&p, &(1..=len).collect::<Vec<_>>(), 1, o));
        });
    }
    ctx.family("points in the plane");
    for (len, g) in ctx.pick(vec![(2, 4), (3, 4), (4, 3), (5, 2)], vec![(3, 5), (4, 4), (5, 3), (6, 3), (7, 2), (8, 2)]) {
        words(len, g * g, |w| {
            if !ctx.wants() { ctx.skip(); return; }
            let w = w.to_vec();
            let p: Vec<_> = w.iter().map(|&x| ([(x % g) as i64, (x / g) as i64], 1)).collect();
            ctx.case(|| format!("{:?}", p.iter().map(|p| p.0).collect::<Vec<_>>()), |o| both(&p, &(1..=len).collect::<Vec<_>>(), 1, o));
        });
    }
    ctx.family("sets that cycle when means are rounded down, in many orders");
    // (points, weights, clusters); found by a search over random sets
    let cyc: [(&[[i64; 5]], &[i64]); 3] = [
        (&[[2,2,1,0,0],[1,0,1,0,0],[2,2,0,0,0],[1,1,0,0,0],[0,2,2,0,0],[2,1,1,0,0],[0,0,0,0,0],[1,0,2,0,0],[2,0,0,0,0],[1,1,1,0,0]], &[4,5,2,5,2,2,2,3,1,4]),
        (&[[0,0,0,0,0],[1,0,1,0,1],[0,1,1,1,0],[0,1,0,0,0],[1,0,0,1,0],[1,0,1,1,0],[1,1,0,1,1],[0,0,0,1,1],[1,0,1,0,1],[0,1,1,0,1]], &[1; 10]),
        (&[[1,0,0,0,0],[1,1,1,1,0],[1,1,0,1,1],[1,1,1,0,1],[1,1,1,1,1],[1,1,1,1,1],[1,1,0,0,1],[1,0,1,1,1],[0,1,1,1,1],[1,1,0,1,0],[1,0,0,0,0]], &[2,2,1,2,2,2,1,1,2,2,1]),
    ];
    for (c, (pts, ws)) in cyc.iter().enumerate() { for swap in 0..=ctx.pick(2usize, 3) {
        // every order reached by `swap` exchanges
        let n = pts.len();
        words(2 * swap, n, |w| {
            if w.chunks(2).any(|x| x[0] >= x[1]) { return; }
            if !ctx.wants() { ctx.skip(); return; }
            let mut p: Vec<_> = pts.iter().zip(*ws).map(|(p, w)| (*p, *w)).collect();
            for x in w.chunks(2) { p.swap(x[0], x[1]); }
            ctx.case(|| format!("set {}: {:?}", c, p), |o| both(&p, &[2, 3, 4], 0, o));
        });
    } }
    ctx.family("larger sets, every number of clusters");
    for len in ctx.pick(vec![10usize, 17, 30, 60], vec![10, 17, 30, 60, 100, 150]) { for pat in 0..8usize { for n in (1..=len.min(ctx.pick(40, 150))).chain([len + 1, 1000]) {
        if !ctx.wants() { ctx.skip(); continue; }
        let p: Vec<_> = (0..len as i64).map(|i| (match pat {
            0 => [i, 0], 1 => [i * i, 0], 2 => [i % 3, i % 5], 3 => [i % 7 * 10, i / 7], 4 => [0, 0], 5 => [1 << (i % 20), 0], 6 => [i * 7919 % 101, i * 104729 % 97], _ => [(i / 4) * 100, i % 4] }, 1 + (i % 3) * (pat as i64 % 2))).collect();
        let draws = ctx.pick(if len <= 17 { 1 } else { 0 }, if len <= 60 { 1 } else { 0 });
        ctx.case(|| format!("{} points of pattern {}, {} clusters", len, pat, n), |o| both(&p, &[n], draws, o));
    } } }
    ctx.family("a large group and a few points that leave it one by one, two clusters");
    // the large group spans one unit of a thousand; all choices of outliers, each in turn being the first of the second half
    const AT: [i64; 12] = [20, 30, 36, 40, 45, 51, 56, 63, 75, 90, 100, 140];
    for m in ctx.pick(vec![60i64, 112, 210, 300, 520, 1030], vec![30, 60, 112, 150, 210, 300, 400, 520, 700, 1030, 2100]) { for k in 2..=ctx.pick(4usize, 5) {
        for set in 0..1u32 << AT.len() { if set.count_ones() as usize == k && !(ctx.quick() && m > 300 && set % 3 != 0) { for first in 0..k { for tail in [true, false] {
            if !ctx.wants() { ctx.skip(); continue; }
            let mut out: Vec<i64> = (0..AT.len()).filter(|i| set >> i & 1 == 1).map(|i| AT[i]).collect();
            let f = out.remove(first);
            ctx.case(|| format!("{} points near 0, {:?} at the {}, {} in the middle", m, out, if tail { "end" } else { "beginning" }, f), |o| {
                let mut p: Vec<i64> = (0..m).map(|i| i * 1000 / m).collect();
                for (i, x) in out.iter().enumerate() { p.insert(if tail { p.len() } else { i }, x * 1000); }
                // the second half of the points makes the first cluster, its first point the centroid
                let n = p.len() + 1;
                p.insert(n - n / 2, f * 1000);
                let p: Vec<_> = p.iter().map(|&x| ([x, 0], 1)).collect();
                both(&p, &[2], 0, o)
            });
        } } } }
    } }
    ctx.family("two clusters that exchange one point in each pass");
    for n in ctx.pick(vec![10usize, 30, 49, 60, 99, 120, 200, 300, 520, 1030], vec![10, 20, 30, 40, 49, 50, 60, 80, 97, 98, 99, 100, 101, 120, 150, 200, 254, 255, 256, 257, 300, 400, 520, 700, 1030, 1500, 2100, 2600]) {
        for r in [3i64, 10] { for eps in [1i64, 4, 10] { for mirror in [false, true] {
            if !ctx.wants() { ctx.skip(); continue; }
            ctx.case_limit(240_000, || format!("a chain of {} points, weight {} at both ends, margin {}/20, mirrored {}", n, r * n as i64, eps, mirror), |o| both(&chain(n, r * n as i64, eps as f64 / 20.0, mirror), &[2], 0, o));
        } } }
    }
    ctx.family("a light point almost as close to one mean as to the other");
    // two heavy groups at 0 and L; the light point, when in its own group, is closer (or not) to the other mean by 2^-k
    for k in 2..=ctx.pick(30i32, 34) { for sign in [1.0f64, -1.0] { for (wh, wl) in [(100i64, 1i64), (1, 1), (1000, 1), (7, 3), (1, 4)] { for start in [-1i64, 1] { for place in 0..3 { for shape in 0..4 {
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case(|| format!("margin {}2^-{}, weights {} and {}, first centroid {}, place {}, shape {}", if sign > 0.0 { "" } else { "-" }, k, wh, wl, start, place, shape), |o| {
            const L: i64 = 1 << 36;
            let delta = sign * 2f64.powi(-k);
            let near = [([start * L / 8, 0], wh), ([-start * L / 8, 0], wh), ([0, 0], wh)];
            let far = [([L - start * L / 8, 0], wh), ([L + start * L / 8, 0], wh), ([L, 0], wh)];
            let s = wl as f64 / (3 * wh + wl) as f64;
            let x = ([((1.0 + delta) * L as f64 / (2.0 + delta - s)).round() as i64, 0], wl);
            let mut p = near.to_vec();
            p.insert(place + 1, x);
            p.extend(far);
            for q in p.iter_mut() { match shape { 0 => {}, 1 => q.0[0] = -q.0[0], 2 => q.0 = [q.0[1], q.0[0]], _ => q.0 = [q.0[0] - L / 2, L] } }
            both(&p, &[2], 0, o)?;
            // the other way round: the light point in the second half
            let mut p: Vec<_> = far.to_vec();
            p.extend(near);
            p.insert(4 + place, x);
            for q in p.iter_mut() { if shape == 1 { q.0[0] = -q.0[0]; } }
            both(&p, &[2], 0, o)
        });
    } } } } } }
    // the same at the scale of a picture: the means differ from whole numbers by some 10^-k
    for k in 2..=8u32 { for j in -3i64..=3 { for scale in [1i64, 3, 100] { for place in 1..3 { for shape in 0..3 {
        if !ctx.wants() { ctx.skip(); continue; }
        ctx.case(|| format!("means {}e-{} off a tie, scale {}, place {}, shape {}", j, k, scale, place, shape), |o| {
            let w = 10i64.pow(k);
            let (x, n1) = (2 * scale, 5);
            let n2 = n1 + x - j;
            let w = w.max(1000 * scale);
            let mut p = vec![([1, 0], n1), ([0, 0], w - 1 - n1), ([2 * x, 0], w - n2), ([2 * x - 1, 0], n2)];
            p.insert(place, ([x, 0], 1));
            if place == 2 { p.insert(3, ([2 * x, 0], 1)); p[4].1 -= 1; }
            for q in p.iter_mut() { match shape { 0 => {}, 1 => q.0[0] = 2 * x - q.0[0], _ => q.0 = [7, q.0[0] - x] } }
            both(&p, &[2], 0, o)
        });
    } } } } }
    ctx.family("large sets, few clusters");
    for len in ladder(200, ctx.pick(5000, 70_000)) { for pat in 0..8i64 { for n in [1usize, 2, 3, 7] {
        if !ctx.wants() { ctx.skip(); continue; }
        let p: Vec<_> = (0..len as i64).map(|i| (match pat {
            0 => [i, 0], 1 => [i * i % 10007, 0], 2 => [i % 3, i % 5], 3 => [i % 7 * 10, i / 7], 4 => [(i == 7) as i64, 0], 5 => [1 << (i % 20), 0], 6 => [i * 7919 % 101, i * 104729 % 97], _ => [(i / 64) * 100, i % 64] }, 1 + (i % 3) * (pat % 2))).collect();
        ctx.case_limit(120_000, || format!("{} points of pattern {}, {} clusters", len, pat, n), |o| both(&p, &[n], 0, o));
    } } }
    ctx.family("large sets, many clusters");
    for len in ladder(100, ctx.pick(1100, 4200)) { for pat in 0..4i64 { for n in [len, len - 1, len / 2, len * 2 / 3, len / 10] {
        if !ctx.wants() { ctx.skip(); continue; }
        let p: Vec<_> = (0..len as i64).map(|i| (match pat { 0 => [i, 0], 1 => [i % 32, i / 32], 2 => [i * 7919 % 1009, i * 104729 % 997], _ => [i % 5, i % 7] }, 1)).collect();
        ctx.case_limit(120_000, || format!("{} points of pattern {}, {} clusters", len, pat, n), |o| both(&p, &[n], 0, o));
    } } }
}
