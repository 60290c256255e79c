//! Huffman coding
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::hash::{Hash, Hasher};
use std::io;
use cniic::verif::{huf, ser::{Deserialize, Serialize}};
use crate::{common::*, engine::*};
use super::c01::fib;

/// A symbol whose hash is chosen by the harness, to drive hash-map order (and so tie-breaking)
macro_rules! symbol {
    ($name:ident, $hash:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
        struct $name(u32);
        impl Hash for $name { fn hash<H: Hasher>(&self, h: &mut H) { let f: fn(u32) -> u64 = $hash; h.write_u64(f(self.0)) } }
        impl Serialize for $name { fn serialize<W: io::Write>(&self, w: &mut W) -> io::Result<()> { w.write_all(&self.0.to_le_bytes()) } }
        impl Deserialize for $name { fn deserialize<I: Iterator<Item = u8>>(s: &mut I) -> Option<Self> { Some($name(u32::from_le_bytes([s.next()?, s.next()?, s.next()?, s.next()?]))) } }
        impl From<u32> for $name { fn from(x: u32) -> Self { $name(x) } }
        impl From<$name> for u32 { fn from(x: $name) -> u32 { x.0 } }
    };
}
symbol!(Plain, |x| x as u64);
symbol!(Collide, |_| 0);
symbol!(Reversed, |x| !(x as u64));

fn parse_tree(s: &[u8], at: &mut usize, depth: u32, leaves: &mut BTreeMap<u32, (u32, u64)>, code: u64) -> Result<(), String> {
    let k = *s.get(*at).ok_or("the tree is truncated")?;
    *at += 1;
    match k {
        0 => {
            if *at + 4 > s.len() { return Err("the tree is truncated".into()); }
            let v = u32::from_le_bytes(s[*at..*at + 4].try_into().unwrap());
            *at += 4;
            if leaves.insert(v, (depth, code)).is_some() { return Err(format!("symbol {} occurs twice in the tree", v)); }
            Ok(())
        }
        1 => { parse_tree(s, at, depth + 1, leaves, code << 1)?; parse_tree(s, at, depth + 1, leaves, code << 1 | 1) }
        x => Err(format!("{} is not a tree node", x)),
    }
}

/// Cost of an optimal prefix code
fn optimal(freqs: &[u64]) -> u64 {
    let mut h: BinaryHeap<Reverse<u64>> = freqs.iter().map(|f| Reverse(*f)).collect();
    let mut cost = 0;
    while h.len() > 1 { let a = h.pop().unwrap().0; let b = h.pop().unwrap().0; cost += a + b; h.push(Reverse(a + b)); }
    cost
}

fn check_as<T: From<u32> + Into<u32> + Copy + Eq + Ord + Hash + Clone + Serialize + Deserialize + std::fmt::Debug>(seq: &[u32], o: &mut Obs) -> Result<(), String> {
    let mut s: Vec<u8> = vec![];
    huf::encode_all(|| seq.iter().map(|x| T::from(*x)), &mut s).map_err(|e| format!("encoding failed: {:?}", e))?;
    let mut freq: BTreeMap<u32, u64> = BTreeMap::new();
    for x in seq { *freq.entry(*x).or_insert(0) += 1; }
    let mut at = 0;
    let mut leaves = BTreeMap::new();
    parse_tree(&s, &mut at, 0, &mut leaves, 0)?;
    if !leaves.keys().eq(freq.keys()) { return Err(format!("the tree holds {:?}, the input {:?}", leaves.keys().collect::<Vec<_>>(), freq.keys().collect::<Vec<_>>())); }
    let cost: u64 = freq.iter().map(|(k, f)| f * leaves[k].0 as u64).sum();
    let best = optimal(&freq.values().copied().collect::<Vec<_>>());
    if cost != best { return Err(format!("{} bits, the optimum is {} (frequencies {:?}, lengths {:?})", cost, best, freq.values().collect::<Vec<_>>(), leaves.values().map(|x| x.0).collect::<Vec<_>>())); }
    if (s.len() - at) as u64 != cost.div_ceil(8) { return Err(format!("{} payload bytes for {} bits", s.len() - at, cost)); }
    // the payload, bit by bit
    let mut bit = 0usize;
    let get = |b: usize| (s[at + b / 8] >> (7 - b % 8)) & 1;
    for (i, x) in seq.iter().enumerate() {
        let (len, code) = leaves[x];
        for j in (0..len).rev() {
            if len <= 64 && get(bit) as u64 != (code >> j) & 1 { return Err(format!("payload bit {} (symbol {}) is wrong", bit, i)); }
            bit += 1;
        }
    }
    while bit % 8 != 0 { if get(bit) != 0 { return Err("padding is not zero".into()); } bit += 1; }
    let d: Vec<u32> = huf::decode_all::<_, T>(s.iter().copied()).ok_or("the tree does not deserialise")?.take(seq.len()).map(|x| x.into()).collect();
    if d != seq {
        let k = d.iter().zip(seq).position(|(a, b)| a != b).unwrap_or(d.len());
        return Err(format!("symbol {} of {} decoded as {:?}", k, seq.len(), d.get(k)));
    }
    o.trace();
    o.steps(seq.len());
    o.state(&leaves.iter().map(|(k, v)| (*k, *v, freq[k])).collect::<Vec<_>>());
    Ok(())
}

fn check(seq: &[u32], o: &mut Obs) -> Result<(), String> {
    check_as::<Plain>(seq, o)?;
    check_as::<Collide>(seq, o).map_err(|e| format!("(colliding hashes) {}", e))?;
    check_as::<Reversed>(seq, o).map_err(|e| format!("(reversed hashes) {}", e))
}

/// Sequence with the given frequencies, in one of several orders
fn layout(fr: &[usize], order: usize) -> Vec<u32> {
    let sorted: Vec<u32> = fr.iter().enumerate().flat_map(|(i, &f)| std::iter::repeat_n(i as u32 * 257, f)).collect();
    match order {
        0 => sorted,
        1 => sorted.into_iter().rev().collect(),
        _ => { let mut left = fr.to_vec(); let mut v = vec![]; while left.iter().any(|x| *x > 0) { for (i, l) in left.iter_mut().enumerate() { if *l > 0 { *l -= 1; v.push(i as u32 * 257); } } } v }
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.isolate = true;
    ctx.family("all sequences over 4 symbols");
    for n in 1..=ctx.pick(8usize, 10) {
        let inner = n.min(5);
        words(n - inner, 4, |p| {
            if !ctx.wants() { ctx.skip(); return; }
            let p = p.to_vec();
            ctx.case(|| format!("all sequences of {} symbols starting {:?}", n, p), |o| {
                let mut r = Ok(());
                words(inner, 4, |q| if r.is_ok() { let s: Vec<u32> = p.iter().chain(q).map(|x| *x as u32 + 250).collect(); r = check(&s, o).map_err(|e| format!("{:?}: {}", s, e)); });
                r
            });
        });
    }
    let (nmax, fmax) = ctx.pick((6usize, 5usize), (7, 6));
    for n in 1..=nmax {
        ctx.family("all frequency vectors of up to N symbols");
        words(n - n.min(2), fmax, |p| {
            if !ctx.wants() { ctx.skip(); return; }
            let p = p.to_vec();
            ctx.case(|| format!("all vectors of {} frequencies 1..{} starting {:?} (+1)", n, fmax, p), |o| {
                let mut r = Ok(());
                words(n.min(2), fmax, |q| for order in 0..3 { if r.is_ok() {
                    let fr: Vec<usize> = p.iter().chain(q).map(|x| x + 1).collect();
                    r = check(&layout(&fr, order), o).map_err(|e| format!("{:?} order {}: {}", fr, order, e));
                } });
                r
            });
        });
    }
    ctx.family("all vectors of 8 to 11 frequencies in {1, 2, 5}");
    for n in 8..=ctx.pick(9usize, 11) { words(n - 3, 3, |p| {
        if !ctx.wants() { ctx.skip(); return; }
        let p = p.to_vec();
        ctx.case(|| format!("{} frequencies starting {:?}", n, p), |o| {
            let mut r = Ok(());
            words(3, 3, |q| if r.is_ok() { let fr: Vec<usize> = p.iter().chain(q).map(|x| [1, 2, 5][*x]).collect(); r = check(&layout(&fr, 2), o); });
            r
        });
    }); }
    ctx.family("n equally frequent symbols");
    for n in (1..=ctx.pick(300usize, 600)).chain([1023, 1024, 1025, 4096, 65535]) { for f in [1usize, 3] {
        ctx.case(|| format!("{} symbols, {} times each", n, f), |o| { let s: Vec<u32> = (0..n * f).map(|i| (i % n) as u32).collect(); if n < 5000 { check(&s, o) } else { check_as::<Plain>(&s, o) } });
    } }
    ctx.family("many symbols, evenly and unevenly frequent");
    for n in ladder(500, ctx.pick(1 << 17, 1 << 20)) { for pat in 0..4usize {
        if n > 70000 && pat > ctx.pick(1, 3) { continue; }
        ctx.case_limit(120_000, || format!("{} symbols, pattern {}", n, pat), |o| {
            let mut s: Vec<u32> = (0..n as u32).collect();
            match pat {
                0 => s.extend(std::iter::repeat_n(3, 2 * n)), // one that outweighs the others
                1 => for i in 0..n { s.extend(std::iter::repeat_n(i as u32, i * 31 % 7)); },
                2 => for i in 0..n { if i % 100 == 0 { s.extend(std::iter::repeat_n(i as u32, 50)); } },
                _ => {}
            }
            check_as::<Plain>(&s, o)
        });
    } }
    ctx.family("one dominant symbol");
    for n in [1usize, 2, 3, 9, 100] { for f in [1usize, 2, 254, 255, 256, 257, 65535, 65536, 65537, 100000] {
        ctx.case(|| format!("{} rare symbols, one {} times", n, f), |o| { let mut fr = vec![1; n]; fr.push(f); check_as::<Plain>(&layout(&fr, 2), o)?; check_as::<Collide>(&layout(&fr, 0), o) });
    } }
    ctx.family("code lengths up to 33 bits and more (Fibonacci and doubling frequencies)");
    for k in 2..=ctx.pick(24usize, 30) { for order in 0..2 {
        ctx.case(|| format!("{} Fibonacci frequencies, order {}", k, order), |o| check_as::<Plain>(&layout(&fib(k), order), o));
    } }
    for k in 2..=ctx.pick(16usize, 21) {
        ctx.case(|| format!("{} doubling frequencies", k), |o| check_as::<Plain>(&layout(&(0..k).map(|i| 1 << i).collect::<Vec<_>>(), 0), o));
        ctx.case(|| format!("{} doubling frequencies, reversed", k), |o| check_as::<Plain>(&layout(&(0..k).rev().map(|i| 1 << i).collect::<Vec<_>>(), 0), o));
    }
    for k in ctx.pick(vec![34usize], vec![33, 34, 35, 36]) {
        ctx.case_limit(120_000, || format!("{} Fibonacci frequencies", k), |o| check_as::<Plain>(&layout(&fib(k), 1), o));
    }
}
