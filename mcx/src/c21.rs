//! C21: the histories of mc's c21, then pairs of operations on two threads in all interleavings
use crate::{common::*, engine::*, explore::*, seq21::*};

pub fn run(ctx: &mut Ctx) {
    crate::explore::QUICK.store(ctx.quick(), std::sync::atomic::Ordering::Relaxed);
    crate::seq21::run(ctx);
    use What::*;
    let args = ["hufman", "delta", "hilbert(rle)", "hilbert(rle(40))", "hilbert(zip)", "zip(dict)", "zip(back)", "cluster-colors(2)", "voronoi(2)"];
    let w = world(&args, vec![
        img_of(2, 2, &[[0, 0, 0], [0, 0, 0], [255, 1, 2], [9, 9, 9]]),
        img_of(3, 1, &[[255, 1, 2], [30, 20, 10], [31, 20, 10]]),
    ]);
    let wr = &w;
    let _ = HOOK.set(vstd::ctl::point);
    let alpha = ops(&w, &[Enc, Dec]);
    let pre = ctx.pick(1, 2);
    ctx.family("two operations at the same time");
    for (i, p) in alpha.iter().enumerate() { for q in &alpha[i..] {
        if !ctx.wants() { ctx.skip(); continue; }
        // with more preemptions: operations of the same codec; else one
        let pre = if p.codec == q.codec { pre } else { 1 };
        ctx.case_limit(300_000, || format!("{} | {}, {} preemptions", wr.name(p), wr.name(q), pre), |o| {
            explore(fp(&(p.codec, p.img, p.what as u8, q.codec, q.img, q.what as u8)), Bounds { preemptions: pre, draws: 0, max_steps: 1_000_000, max_execs: 300_000, departures: usize::MAX }, o, &|| (),
                &|| {
                    let (a, b) = vstd::thread::scope(|s| {
                        let h = s.spawn(|| guarded(|| wr.perform(p)).and_then(|x| x));
                        let k = s.spawn(|| guarded(|| wr.perform(q)).and_then(|x| x));
                        (h.join(), k.join())
                    });
                    for (x, op) in [(a, p), (b, q)] {
                        if let Err(e) = x.unwrap_or_else(|_| Err("panic".into())) { return Err(format!("{}: {}", wr.name(op), e)); }
                    }
                    Ok(())
                }, &|| Ok(0))?;
            Ok(())
        });
    } }
    notes(ctx);
}
