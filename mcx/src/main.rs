//! Explores the interleavings (and random numbers) of the real code, compiled against controlled
//! stand-ins for threads, locks, rayon and rand.
#![allow(dead_code, unused_imports)]
#[path = "../../mc/src/common.rs"]
mod common;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/props/script.rs"]
mod script;
#[path = "../../mc/src/props/lossy.rs"]
mod lossy;
#[path = "../../mc/src/props/c21.rs"]
mod seq21;
mod explore;
mod rng;
mod c11;
mod c17;
mod c21;

use engine::Prop;
const CTL: &[&str] = &[
    "the code runs with controlled stand-ins for std's threads and locks, for rayon's iterators and for rand's thread generator; interleavings are explored at their operations, at the scripted codec's operations and at file operations (sequential consistency)",
    "overflow and debug assertions are compiled in; a panic of the code under test counts as a violation",
];

fn main() {
    std::process::exit(engine::main_entry(&[
        Prop { id: "C11", run: c11::run, level: "model_checking", assumptions: CTL,
            rule: "a case is one multiset of points (or all with a prefix) with all cluster counts; a state is a distinct (points, count, random outcomes, result); a transition is one random choice or point assigned" },
        Prop { id: "C17", run: c17::run, level: "model_checking", assumptions: CTL,
            rule: "a case is one list of file behaviours with one number of workers, under every schedule within the preemption bound; a state is a distinct schedule of a case; a transition is one scheduling point passed" },
        Prop { id: "C21", run: c21::run, level: "model_checking", assumptions: CTL,
            rule: "sequential part: a case is all histories with one prefix, run in a process of its own; concurrent part: a case is one pair of operations on two threads, under every schedule within the preemption bound; a state is a distinct (history, outcome) or schedule; a transition is one operation or scheduling point" },
    ]));
}
