//! Argument grammar (C14) and codec selection (C15)
use std::str::FromStr;
use cniic::verif::{codec::{AnyCodec, Codec}, prs};
use crate::{common::{ladder, words}, engine::*};

/// Reference: recursive descent over the grammar
///   call := name '(' [ arg { ',' arg } ] ')'      name: no '(' ')' ','; args non-empty, parens balanced
fn ref_call(s: &str) -> Option<(&str, Vec<&str>)> {
    let open = s.find(['(', ')', ','])?;
    if open == 0 || s.as_bytes()[open] != b'(' || !s.ends_with(')') || s.len() < open + 2 { return None; }
    let body = &s[open + 1..s.len() - 1];
    if body.is_empty() { return Some((&s[..open], vec![])); }
    let mut args = vec![];
    let mut depth = 0i64;
    let mut start = 0;
    for (i, c) in body.bytes().enumerate() {
        match c {
            b'(' => depth += 1,
            b')' => { depth -= 1; if depth < 0 { return None; } }
            b',' if depth == 0 => { args.push(&body[start..i]); start = i + 1; }
            _ => {}
        }
    }
    if depth != 0 { return None; }
    args.push(&body[start..]);
    if args.iter().any(|a| a.is_empty()) { return None; }
    Some((&s[..open], args))
}

fn check_call(s: &str, o: &mut Obs) -> Result<(), String> {
    let want = ref_call(s);
    let got = guarded(|| prs::fun_call(s)).map_err(|e| format!("{:?}: {}", s, e))?;
    if got != want { return Err(format!("{:?} parsed as {:?}, expected {:?}", s, got, want)); }
    o.steps(s.chars().count());
    o.trace();
    o.state(&want);
    Ok(())
}

fn alphabet_words(ctx: &mut Ctx, n: usize, alpha: &[&str], inner: usize, f: &(dyn Fn(&str, &mut Obs) -> Result<(), String> + Sync)) {
    let inner = inner.min(n);
    words(n - inner, alpha.len(), |p| {
        if !ctx.wants() { ctx.skip(); return; }
        let pre: String = p.iter().map(|i| alpha[*i]).collect();
        ctx.case(|| format!("{:?} and all continuations of {} symbols over {:?}", pre, inner, alpha), |o| {
            let mut r = Ok(());
            words(inner, alpha.len(), |q| if r.is_ok() { let s: String = pre.clone() + &q.iter().map(|i| alpha[*i]).collect::<String>(); r = f(&s, o); });
            r
        });
    });
}

pub fn c14(ctx: &mut Ctx) {
    ctx.family("all strings over 5 symbols");
    for n in 0..=ctx.pick(9usize, 11) { alphabet_words(ctx, n, &["a", "(", ")", ",", "é"], 5, &check_call); }
    ctx.family("all strings over 8 symbols");
    for n in 0..=ctx.pick(7usize, 8) { alphabet_words(ctx, n, &["(", ")", ",", "x", " ", "\n", "日", "𝄞"], 4, &check_call); }
    ctx.family("all bodies of a call over 4 symbols");
    for n in 0..=ctx.pick(10usize, 12) { alphabet_words(ctx, n, &["(", ")", ",", "ü"], 5, &|s, o| check_call(&format!("f({})", s), o)); }
    ctx.family("deep nesting and many arguments");
    for d in (1..=300usize).chain([1000, 32767, 32768, 65535, 65536, 65537, 100000]) { ctx.case(|| format!("depth / count {}", d), |o| {
        let nest = "(".repeat(d) + &")".repeat(d);
        for s in [format!("f{}", nest), format!("f({})", nest), format!("f{})", nest), format!("f({}", nest), format!("f(g{},h{})", nest, nest), format!("f({})", vec!["é"; d].join(",")), format!("f({},)", vec!["b"; d].join(","))] {
            check_call(&s, o).map_err(|e| clip(&e, 200))?;
        }
        Ok(())
    }); }
    ctx.family("long names and arguments");
    for d in ladder(1, ctx.pick(1_100_000, 20_000_000)) { for unit in ["x", "é", "日", "𝄞", "()", "(,)"] {
        if d > 70_000 && unit.len() > 2 && ctx.quick() { continue; }
        ctx.case_limit(120_000, || format!("{} times {:?}", d, unit), |o| {
            let u = unit.repeat(d);
            for s in [format!("f({})", u), format!("f(a,{},b)", u), format!("f(é{},(b))", u), format!("{}(a)", u), format!("f({}", u), format!("f({})x", u), format!("f({},)", u), format!("f(,{})", u), u.clone()] {
                check_call(&s, o).map_err(|e| clip(&e, 200))?;
            }
            if unit.len() <= 4 && unit != "()" && unit != "(,)" {
                for (p, t, ok) in [(".*", u.clone(), true), (".*x", u.clone(), unit == "x"), (".*", format!("{}\n", u), false), ("x*", u.clone(), unit == "x"), ("x|xx", u.clone(), unit == "x" && d <= 2)] {
                    if d > 70_000 && p.len() > 2 { continue; }
                    if guarded(|| prs::matches_fully(&t, p).is_some())? != ok { return Err(format!("{} times {:?} ~ {:?}", d, unit, p)); }
                }
            }
            Ok(())
        });
    } }
    ctx.family("patterns match whole texts only");
    let pats: [(&str, fn(&str) -> bool); 12] = [
        ("a", |s| s == "a"), ("a|b", |s| s == "a" || s == "b"), ("ab|a", |s| s == "ab" || s == "a"), ("a|ab", |s| s == "ab" || s == "a"), ("b|ab|ba", |s| s == "b" || s == "ab" || s == "ba"),
        ("[ab]b", |s| s == "ab" || s == "bb"), ("a*", |s| s.bytes().all(|c| c == b'a')), ("", |s| s.is_empty()), ("a+b?", |s| { let t = s.strip_suffix('b').unwrap_or(s); !t.is_empty() && t.bytes().all(|c| c == b'a') }),
        ("(?:ab)*|x", |s| s == "x" || (s.len() % 2 == 0 && s.as_bytes().chunks(2).all(|c| c == b"ab"))), ("x|", |s| s == "x" || s.is_empty()), ("é|ab", |s| s == "é" || s == "ab"),
    ];
    for (p, f) in pats {
        for n in 0..=ctx.pick(6usize, 7) { alphabet_words(ctx, n, &["a", "b", "x", "\n", "é"], 4, &|s, o| {
            let got = guarded(|| prs::matches_fully(s, p)).map_err(|e| format!("{:?} ~ {:?}: {}", s, p, e))?;
            let want = if f(s) { Some(s) } else { None };
            if got != want { return Err(format!("{:?} ~ {:?} gives {:?}", s, p, got)); }
            let named = prs::expect_name(s, p).ok();
            if named != want { return Err(format!("{:?} as the name {:?} gives {:?}", s, p, named)); }
            o.steps(2); o.trace(); o.state(&(p, s));
            Ok(())
        }); }
    }
}

/// The documented syntax: (name, lossless) of the codec denoted by s
fn ref_codec(s: &str) -> Option<(String, bool)> {
    if s.to_ascii_lowercase() == "hufman" { return Some(("Hufman".into(), true)); }
    match s {
        "delta" => return Some(("delta".into(), true)),
        "zip(dict)" => return Some(("zip-dict".into(), true)),
        "zip(back)" => return Some(("zip-back".into(), true)),
        _ => {}
    }
    for h in ["hilbert(", "Hilbert("] {
        if let Some(a) = s.strip_prefix(h).and_then(|a| a.strip_suffix(")")) {
            if a == "rle" { return Some(("hilbert-rle".into(), true)); }
            if a == "zip" { return Some(("hilbert-zip".into(), true)); }
            let d = a.strip_prefix("rle(")?.strip_suffix(")")?;
            if d.contains(['(', ')', ',']) { return None; }
            let d: f64 = d.parse().ok()?;
            return Some(if d == 0.0 { ("hilbert-rle".into(), true) } else { (format!("hilbert-rle-approx_{}", d), false) });
        }
    }
    let number = |t: &str| -> Option<usize> { if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) { return None; } t.parse().ok().filter(|n| *n > 0) };
    if let Some(a) = s.strip_prefix("voronoi(").and_then(|a| a.strip_suffix(")")) { return number(a).map(|n| (format!("voronoi_{}", n), false)); }
    for c in ["c", "cluster"] { for m in ["", "-"] { for l in ["col", "colors"] {
        if let Some(a) = s.strip_prefix(&format!("{}{}{}(", c, m, l)).and_then(|a| a.strip_suffix(")")) { return number(a).map(|n| (format!("cluster-colors_{}", n), false)); }
    } } }
    None
}

fn check_codec(s: &str, o: &mut Obs) -> Result<(), String> {
    let want = ref_codec(s);
    let got = guarded(|| AnyCodec::from_str(s).ok().map(|c| (c.name(), c.is_lossless()))).map_err(|e| format!("{:?}: {}", s, e))?;
    if got != want { return Err(format!("{:?} selects {:?}, expected {:?}", s, got, want)); }
    o.steps(1); o.trace(); o.state(&(s, want));
    Ok(())
}

pub fn c15(ctx: &mut Ctx) {
    let seeds = ["hufman", "Hufman", "HUFMAN", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "Hilbert(rle)", "hilbert(zip)", "Hilbert(zip)", "hilbert(rle(1.5))", "hilbert(rle(0))", "Hilbert(rle(16))",
        "ccol(4)", "c-col(4)", "ccolors(7)", "c-colors(7)", "clustercol(12)", "cluster-col(3)", "clustercolors(5)", "cluster-colors(256)", "voronoi(64)"];
    ctx.family("the documented spellings");
    for s in seeds { ctx.case(|| s.to_string(), |o| { if ref_codec(s).is_none() { return Err("HARNESS: seed refused".into()); } check_codec(s, o) }); }
    ctx.family("numeric parameters");
    let nums = ["", "0", "00", "1", "01", "007", "10", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", "-0", "1.0", "0.0", "-0.0", "0.5", ".5", "5.", "1e3", "1e-3", "1E400", "-1e400", "inf", "-inf", "+inf", "infinity", "nan", "NaN", "-nan", "1_000", " 1", "1 ", "0x10", "１", "٣", "1,2", "1)(2", "(1)", "a", "1a", "1e", "--1", "0.1000000000000000055511151231257827", "1e-320", "4.9e-324", "2e-324"];
    for n in nums { for f in ["cluster-colors({})", "ccol({})", "c-colors({})", "clustercol({})", "voronoi({})", "hilbert(rle({}))", "Hilbert(rle({}))", "hilbert({})", "zip({})", "hufman({})", "delta({})", "hilbert(zip({}))", "hilbert(rle,{})", "hilbert(rle({},1))"] {
        let s = f.replace("{}", n);
        ctx.case(|| s.clone(), |o| check_codec(&s, o));
    } }
    for n in 0..=ctx.pick(3000usize, 30_000) { ctx.case(|| format!("number {}", n), |o| { for f in ["ccol({})", "voronoi({})", "hilbert(rle({}))", "hilbert(rle({}.5))", "hilbert(rle(0.{}))"] { check_codec(&f.replace("{}", &n.to_string()), o)?; } Ok(()) }); }
    ctx.family("numbers of every magnitude");
    for n in ladder(1, usize::MAX) { ctx.case(|| format!("number {}", n), |o| {
        for f in ["ccol({})", "cluster-colors({})", "voronoi({})", "voronoi(0{})", "voronoi(000000000000000000000000{})", "voronoi({}0)", "ccol({}00)", "hilbert(rle({}))", "hilbert(rle(-{}))", "hilbert(rle({}.25))", "hilbert(rle(1e-{}))", "hilbert(rle(1e{}))", "hilbert(rle(0.000{}))", "hilbert(rle({}e-30))"] { check_codec(&f.replace("{}", &n.to_string()), o)?; }
        Ok(())
    }); }
    for d in ladder(1, ctx.pick(3000, 100_000)) { ctx.case(|| format!("{} digits", d), |o| {
        for f in ["ccol({})", "voronoi(1{})", "hilbert(rle({}))", "hilbert(rle(0.{}))", "hilbert(rle(0.{}1))", "hilbert(rle(1{}.5))"] { for g in ["0", "9", "٣"] { check_codec(&f.replace("{}", &g.repeat(d)), o)?; } }
        Ok(())
    }); }
    ctx.family("letter case");
    for s in ["hufman", "delta", "hilbert(rle)", "zip(dict)"] { let letters: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_alphabetic()).map(|(i, _)| i).collect(); for m in 0..1usize << letters.len() {
        if !ctx.wants() { ctx.skip(); continue; }
        let t: String = s.char_indices().map(|(i, c)| if letters.iter().position(|l| *l == i).map_or(false, |k| m >> k & 1 == 1) { c.to_ascii_uppercase() } else { c }).collect();
        ctx.case(|| t.clone(), |o| check_codec(&t, o));
    } }
    let alpha: Vec<char> = (' '..='~').chain(['\n', '\t', '\0', 'é', '\u{212A}', 'ſ', '٣']).collect();
    ctx.family("every single-character edit of a documented spelling");
    for s in seeds {
        let cs: Vec<char> = s.chars().collect();
        for i in 0..=cs.len() {
            if !ctx.wants() { ctx.skip(); continue; }
            ctx.case(|| format!("edits of {:?} at {}", s, i), |o| {
                let mk = |pre: &[char], mid: &[char], post: &[char]| pre.iter().chain(mid).chain(post).collect::<String>();
                for a in &alpha {
                    check_codec(&mk(&cs[..i], &[*a], &cs[i..]), o)?;
                    if i < cs.len() { check_codec(&mk(&cs[..i], &[*a], &cs[i + 1..]), o)?; }
                }
                if i < cs.len() { check_codec(&mk(&cs[..i], &[], &cs[i + 1..]), o)?; }
                if i + 1 < cs.len() { check_codec(&mk(&cs[..i], &[cs[i + 1], cs[i]], &cs[i + 2..]), o)?; }
                // prefixes, suffixes, repetitions
                check_codec(&mk(&cs[..i], &[], &[]), o)?;
                check_codec(&mk(&[], &[], &cs[i..]), o)?;
                check_codec(&mk(&cs, &[], &cs[..i]), o)?;
                Ok(())
            });
        }
    }
    ctx.family("every combination of two documented pieces");
    let pieces = ["hufman", "delta", "zip", "dict", "back", "hilbert", "Hilbert", "rle", "voronoi", "ccol", "cluster-colors", "(", ")", ",", "1", "(1)", "(rle)", "(zip)", "(dict)", "(back)", "()", "", " ", "-", "|"];
    let depth = ctx.pick(2usize, 3);
    words(depth, pieces.len(), |p| {
        if !ctx.wants() { ctx.skip(); return; }
        let p = p.to_vec();
        ctx.case(|| format!("{:?} and one more", p.iter().map(|i| pieces[*i]).collect::<Vec<_>>()), |o| { for q in pieces { let s: String = p.iter().map(|i| pieces[*i]).collect::<String>() + q; check_codec(&s, o)?; } Ok(()) });
    });
    if !ctx.quick() {
        ctx.family("every two-character edit of the short spellings");
        let small: Vec<char> = "()-,.|^$0+ aehilrz".chars().collect();
        for s in ["delta", "ccol(4)", "zip(dict)", "voronoi(6)", "hilbert(rle)", "hufman"] {
            let cs: Vec<char> = s.chars().collect();
            for i in 0..=cs.len() { for a in &small {
                if !ctx.wants() { ctx.skip(); continue; }
                ctx.case(|| format!("two edits of {:?} at {} with {:?}", s, i, a), |o| {
                    for sub in [false, true] { if sub && i == cs.len() { continue; }
                        let mut v = cs.clone();
                        if sub { v[i] = *a; } else { v.insert(i, *a); }
                        for j in 0..=v.len() { for b in &small {
                            let mut w = v.clone(); w.insert(j, *b);
                            check_codec(&w.iter().collect::<String>(), o)?;
                            if j < v.len() { let mut w = v.clone(); w[j] = *b; check_codec(&w.iter().collect::<String>(), o)?; }
                        } }
                    }
                    Ok(())
                });
            } }
        }
    }
}

/// Arguments that denote no codec (each is confirmed by the reference above when used)
pub const BAD_CODECS: &[&str] = &["huf", "hufmann", "hufman()", "Delta", "delta()", "zip", "zip()", "zip(dict,back)", "zip(Dict)", "Zip(dict)", "zip(dict))", "zip((dict))",
    "hilbert", "hilbert()", "hilbert(rle", "hilbert(rle())", "hilbert(rle(x))", "hilbert(rle(1)(2))", "hilbert(rle,zip)", "hilbert(zip(1))", "xhilbert(rle)", "HILBERT(rle)",
    "cluster-colors", "cluster-colors()", "cluster-colors(0)", "cluster-colors(-1)", "cluster-colors(x)", "cluster-colors(1)x", "xcluster-colors(1)", "cluster-colors(99999999999999999999999)", "colors(3)", "clust-col(3)",
    "voronoi", "voronoi()", "voronoi(0)", "voronoi(1.5)", "Voronoi(3)", "voronoi(3)(4)", "voronoi(3", "voronoi(18446744073709551616)", "hufman delta", "hufman,delta", "hufman\n", " "];
pub fn denotes_codec(s: &str) -> bool { ref_codec(s).is_some() }
