//! C17 without the controlled build (used only if mcx does not build on the tree): the real thread
//! pool, with the codec's operations as gates that are opened in every order
use std::path::Path;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use cniic::verif::bench::measure_all;
use super::script::*;
use crate::{common::*, engine::*};

#[derive(Default)]
struct State { parked: Vec<u64>, next: u64, open: Option<u64>, over: bool }
#[derive(Default)]
struct Gate { m: Mutex<State>, cv: Condvar }
impl Gate {
    fn point(&self) {
        let mut s = self.m.lock().unwrap();
        let id = s.next;
        s.next += 1;
        s.parked.push(id);
        self.cv.notify_all();
        while s.open != Some(id) { s = self.cv.wait(s).unwrap(); }
        s.open = None;
        self.cv.notify_all();
    }
    /// Lets one thread after the other pass, in the order given by the choices
    fn conduct(&self, choices: &[usize]) {
        let mut k = 0;
        loop {
            let mut s = self.m.lock().unwrap();
            while (s.parked.is_empty() || s.open.is_some()) && !s.over { s = self.cv.wait(s).unwrap(); }
            if s.over { return; }
            // until nobody else arrives
            loop {
                let n = s.parked.len();
                drop(s);
                std::thread::sleep(Duration::from_millis(2));
                s = self.m.lock().unwrap();
                if s.parked.len() == n { break; }
            }
            s.parked.sort();
            let c = choices.get(k).copied().unwrap_or(0) % s.parked.len();
            k += 1;
            let id = s.parked.remove(c);
            s.open = Some(id);
            self.cv.notify_all();
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    use Beh::*;
    ctx.note("REDUCED: the controlled build failed on this tree; the real thread pool was used, ordered at the codec's operations only");
    let dir = ctx.scratch().join("w");
    let dir = &dir;
    std::env::set_var("RAYON_NUM_THREADS", "3");
    ctx.family("three files, the codec's operations in every order");
    for behs in [[Exact, Exact, Exact], [Exact, Near, DecNone], [EncErr, Exact, Exact], [Near, Missing, Exact], [Exact, WrongDims(0), Near]] {
        words(ctx.pick(5, 6), 3, |w| {
            if !ctx.wants() { ctx.skip(); return; }
            let w = &w.to_vec();
            ctx.case(|| format!("{:?} in order {:?}", behs, w), move |o| {
                std::env::set_current_dir("/").unwrap();
                let _ = std::fs::remove_dir_all(dir);
                std::fs::create_dir_all(dir.join("output")).unwrap();
                std::env::set_current_dir(dir).unwrap();
                let items: Vec<Item> = behs.iter().enumerate().map(|(i, &b)| prepare(Path::new(&format!("f{}.png", i)), &sample(i), b, 1 + 7 * i)).collect();
                let list: Vec<usize> = (0..items.len()).collect();
                let g = Arc::new(Gate::default());
                let (h, w2) = (g.clone(), w.clone());
                let t = std::thread::spawn(move || h.conduct(&w2));
                let g2 = g.clone();
                let point = move || g2.point();
                let sc = Script { name: "script".into(), lossless: false, items: &items, point: &point };
                let r = guarded(|| measure_all(&sc, items.iter().map(|i| i.path.clone())));
                g.m.lock().unwrap().over = true;
                g.cv.notify_all();
                let _ = t.join();
                r?.map_err(|e| format!("the benchmark failed: {:?}", e))?;
                check_report(Path::new("output/script.csv"), &expected(&items, &list, false))?;
                check_saved(&items, &list)?;
                o.trace(); o.steps(6); o.state(&(format!("{:?}", behs), w));
                Ok(())
            });
        });
    }
    std::env::set_current_dir("/").unwrap();
}
