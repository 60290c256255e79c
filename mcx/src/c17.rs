//! C17: the benchmark under all interleavings of its workers
use std::path::{Path, PathBuf};
use cniic::verif::bench::measure_all;
use std::sync::atomic::Ordering;
use crate::{common::*, engine::*, explore::*, script::*};

fn go(ctx: &mut Ctx, dir: &Path, behs: &[Beh], workers: usize, lossless: bool, b: Bounds) {
    if !ctx.wants() { ctx.skip(); return; }
    ctx.case_limit(300_000, || format!("{:?}, {} workers, lossless={}, {} preemptions", behs, if workers == 0 { behs.len() } else { workers }, lossless, b.preemptions), |o| {
        std::env::set_current_dir("/").unwrap();
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir.join("output")).unwrap();
        std::env::set_current_dir(dir).unwrap();
        let items: Vec<Item> = behs.iter().enumerate().map(|(i, &b)| prepare(Path::new(&format!("f{}.png", i)), &sample(i), b, 1 + 7 * i)).collect();
        let list: Vec<usize> = (0..items.len()).collect();
        let want = expected(&items, &list, lossless);
        let tag = fp(&(format!("{:?}", behs), workers, lossless));
        vrayon::WORKERS.store(workers, Ordering::Relaxed);
        let items = &items;
        explore(tag, b, o,
            &|| { for e in std::fs::read_dir("output").unwrap().flatten() { let _ = std::fs::remove_file(e.path()); } },
            &|| {
                let sc = Script { name: "script".into(), lossless, items, point: &vstd::ctl::point };
                measure_all(&sc, items.iter().map(|i| i.path.clone())).map_err(|e| format!("the benchmark failed: {:?}", e))
            },
            &|| {
                check_report(Path::new("output/script.csv"), &want)?;
                check_saved(items, &list)?;
                // the order of the rows: part of the outcome
                Ok(fp(&read_report(Path::new("output/script.csv"))?.1.iter().map(|r| r.0.clone()).collect::<Vec<_>>()))
            })?;
        Ok(())
    });
}

pub fn run(ctx: &mut Ctx) {
    crate::explore::QUICK.store(ctx.quick(), std::sync::atomic::Ordering::Relaxed);
    let dir = ctx.scratch().join("w");
    let b = |p| Bounds { preemptions: p, draws: 0, max_steps: 20_000, max_execs: 2_000_000, departures: usize::MAX };
    ctx.family("two files, all behaviours, a worker each");
    for x in BEHS { for y in BEHS { for l in [false, true] { go(ctx, &dir, &[x, y], 0, l, b(ctx.pick(1, 2))); } } }
    use Beh::*;
    ctx.family("two files, more preemptions");
    for x in [Exact, Near, DecNone] { for y in [Exact, Near] { go(ctx, &dir, &[x, y], 0, false, b(ctx.pick(2, 3))); } }
    ctx.family("three files, a worker each");
    let some = [Exact, Near, EncErr, DecNone, WrongDims(0), Missing];
    for x in some { for y in some { for z in some {
        if ctx.quick() && ![x, y, z].contains(&Exact) { continue; }
        go(ctx, &dir, &[x, y, z], 0, false, b(ctx.pick(0, 1)));
    } } }
    ctx.family("three files, two workers");
    for x in some { for y in some { for z in some {
        if ctx.quick() && ![x, y, z].contains(&Exact) { continue; }
        go(ctx, &dir, &[x, y, z], 2, x == y, b(ctx.pick(0, 1)));
    } } }
    ctx.family("three files, one preemption or more");
    for w in [[Exact, Exact, Exact], [Exact, Near, DecNone], [EncErr, Exact, Exact], [Near, Near, Near]] { for k in [0, 2] {
        go(ctx, &dir, &w, k, false, b(ctx.pick(1, 2)));
    } }
    ctx.family("one worker for all");
    for n in 0..=ctx.pick(4usize, 5) {
        words(n, 4, |w| { let v: Vec<Beh> = w.iter().map(|&i| [Exact, Near, DecNone, Corrupt][i]).collect(); go(ctx, &dir, &v, 1, false, b(1)); });
    }
    ctx.family("four and five files");
    for n in [4usize, 5] { for k in [0, 2, 3] {
        let v: Vec<Beh> = (0..n).map(|i| [Exact, Exact, Near, DecNone, Exact][i]).collect();
        go(ctx, &dir, &v, k, false, b(if n == 4 { ctx.pick(0, 1) } else { 0 }));
    } }
    ctx.family("many files, few departures from the default schedule");
    for (n, dep) in ctx.pick(vec![(8usize, 2usize), (20, 1), (40, 1), (70, 0)], vec![(6, 3), (8, 3), (12, 2), (20, 2), (40, 1), (70, 1), (140, 1), (250, 0)]) { for k in [2, 3, 5] {
        if ctx.quick() && n == 8 && k == 5 { continue; }
        for pat in 0..2 {
            let v: Vec<Beh> = (0..n).map(|i| if pat == 0 { [Exact, Exact, Near, DecNone, Exact, Missing][i % 6] } else { Exact }).collect();
            go(ctx, &dir, &v, k, false, Bounds { departures: dep, max_steps: 200_000, ..b(1) });
        }
    } }
    std::env::set_current_dir("/").unwrap();
    notes(ctx);
}
