#![allow(dead_code, unused_imports)]
mod common;
mod engine;
mod rng;
mod props;

fn main() { std::process::exit(engine::main_entry(&props::all())); }
