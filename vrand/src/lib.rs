pub use rand_real::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

/// How many values (evenly spread over the whole range) a draw can have
pub static SPREAD: AtomicUsize = AtomicUsize::new(12);

thread_local!(static TURN: Cell<usize> = const { Cell::new(0) });
pub fn reset_turn() { TURN.with(|t| t.set(0)) }

/// By default the values come round in turn (so a loop that waits for a particular one ends);
/// the explorer's choices shift a draw to any other value.
#[derive(Clone, Copy, Debug, Default)]
pub struct ThreadRng { _private: () }
fn draw() -> f64 {
    // equidistributed: every value that can come up does, sooner or later
    let k = SPREAD.load(Ordering::Relaxed).max(1);
    let t = TURN.with(|t| { let v = t.get(); t.set(v.wrapping_add(1)); v });
    let j = vstd::ctl::choose(k);
    ((t as f64 + 0.5) * 0.618_033_988_749_894_9 + j as f64 / k as f64).fract()
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 { (draw() * 4294967296.0) as u32 }
    fn next_u64(&mut self) -> u64 { (draw() * 18446744073709551616.0) as u64 }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = (draw() * 256.0) as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
impl CryptoRng for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng::default() }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { thread_rng().gen() }

pub mod rngs {
    pub use rand_real::rngs::*;
    pub use super::ThreadRng;
}
pub mod prelude {
    pub use rand_real::prelude::*;
    pub use super::{random, thread_rng, ThreadRng};
}
