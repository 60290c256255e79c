pub use vrand::reset_turn;
pub use vstd::ctl::{data_begin, data_end};
