#![allow(ambiguous_glob_reexports, hidden_glob_reexports)]
pub use ::std::*;

pub mod ctl;
pub mod sync;
pub mod thread;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() { crate::ctl::give_way(); ::std::hint::spin_loop(); }
}
