use crate::engine::Prop;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(any(feature = "c14", feature = "c20"))]
pub mod c14;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c11")]
#[path = "../../../mcx/src/c11.rs"]
pub mod c11;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "faults")]
pub mod faults;
#[cfg(any(feature = "lossy", feature = "c21"))]
pub mod lossy;
#[cfg(any(feature = "c16", feature = "c17", feature = "c20"))]
pub mod script;

pub const COMMON: &[&str] = &[
    "overflow and debug assertions are compiled in; a panic of the code under test counts as a violation",
    "hash seeds are a fixed function of the case (getrandom is interposed)",
];
const FE: &str = "fault_enumeration";
const MC: &str = "model_checking";

pub fn all() -> Vec<Prop> {
    vec![
        #[cfg(feature = "c01")]
        Prop { id: "C01", run: c01::run, level: MC, assumptions: COMMON,
            rule: "a case is one image through all lossless codecs; a state is a distinct (codec, encoded stream); a transition is one pixel compared" },
        #[cfg(feature = "lossy")]
        Prop { id: "C02", run: lossy::c02, level: MC, assumptions: COMMON,
            rule: "a case is one image through all codec arguments; a state is a distinct (argument, encoded stream); a transition is one decoded pixel" },
        #[cfg(feature = "c03")]
        Prop { id: "C03", run: c03::c03, level: MC, assumptions: COMMON,
            rule: "a case is one byte string or all strings with a given prefix; a state is a distinct final dictionary state with its code sequence; a transition is one code compared with the reference" },
        #[cfg(feature = "c03")]
        Prop { id: "C04", run: c03::c04::run, level: MC, assumptions: COMMON,
            rule: "a case is one byte string or all strings with a given prefix; a state is a distinct stream prefix accepted by the reference decoder; a transition is one token checked" },
        #[cfg(feature = "c05")]
        Prop { id: "C05", run: c05::run, level: MC, assumptions: COMMON,
            rule: "a case is one symbol sequence or all sequences / frequency vectors with a prefix, each under three hash orders; a state is a distinct code tree with its frequencies; a transition is one symbol decoded" },
        #[cfg(feature = "c06")]
        Prop { id: "C06", run: c06::run, level: MC, assumptions: COMMON,
            rule: "a case is one byte, bit array or operation sequence with all its continuations; a state is a distinct written bit string; a transition is one operation" },
        #[cfg(feature = "c07")]
        Prop { id: "C07", run: c07::run, level: MC, assumptions: COMMON,
            rule: "a case is one value or block of values; a state is a distinct encoding; a transition is one truncation or element checked" },
        #[cfg(feature = "c08")]
        Prop { id: "C08", run: c08::run, level: MC, assumptions: COMMON,
            rule: "a case is one pair of dimensions; a state is a distinct traversal; a transition is one step of a traversal" },
        #[cfg(feature = "c09")]
        Prop { id: "C09", run: c09::c09, level: MC, assumptions: COMMON,
            rule: "a case is one colour sequence laid out along the traversal; a state is a distinct record sequence; a transition is one pixel compared" },
        #[cfg(feature = "c09")]
        Prop { id: "C10", run: c09::c10, level: MC, assumptions: COMMON,
            rule: "a case is one colour sequence under all distances; a state is a distinct (distance, record sequence); a transition is one membership decision judged" },
        #[cfg(feature = "c11")]
        Prop { id: "C11", run: c11::run, level: MC, assumptions: &["REDUCED: one outcome of the random numbers per case (the controlled build failed on this tree)"],
            rule: "a case is one multiset of points (or all with a prefix) with all cluster counts; a state is a distinct (points, count, result); a transition is one point assigned" },
        #[cfg(feature = "c17")]
        Prop { id: "C17", run: c17::run, level: MC, assumptions: COMMON,
            rule: "a case is one list of file behaviours with one order of the codec's operations; a state is a distinct case; a transition is one operation of the codec" },
        #[cfg(feature = "lossy")]
        Prop { id: "C12", run: lossy::c12, level: MC, assumptions: COMMON,
            rule: "a case is one image with all cluster counts of the grid; a state is a distinct (argument, encoded stream); a transition is one pixel judged" },
        #[cfg(feature = "lossy")]
        Prop { id: "C13", run: lossy::c13, level: MC, assumptions: COMMON,
            rule: "a case is one image with all cluster counts of the grid; a state is a distinct (argument, encoded stream); a transition is one pixel judged" },
        #[cfg(feature = "c14")]
        Prop { id: "C14", run: c14::c14, level: MC, assumptions: COMMON,
            rule: "a case is one string or all continuations of a prefix; a state is a distinct parse or (pattern, text); a transition is one input character" },
        #[cfg(feature = "c14")]
        Prop { id: "C15", run: c14::c15, level: MC, assumptions: COMMON,
            rule: "a case is one argument or all edits at one position; a state is a distinct (argument, selection); a transition is one argument parsed" },
        #[cfg(feature = "c16")]
        Prop { id: "C16", run: c16::run, level: MC, assumptions: COMMON,
            rule: "a case is one list of files with a behaviour of the codec on each; a state is a distinct (list, behaviours, flag); a transition is one file processed" },
        #[cfg(feature = "faults")]
        Prop { id: "C18", run: faults::c18, level: FE, assumptions: COMMON,
            rule: "an evaluation is one encoding under one fault (kind and byte position) of the sink; all are distinct as (codec, image, fault)" },
        #[cfg(feature = "faults")]
        Prop { id: "C19", run: faults::c19, level: FE, assumptions: COMMON,
            rule: "an evaluation is the decoding of one strict prefix of a stream; distinct by (codec, prefix)" },
        #[cfg(feature = "c20")]
        Prop { id: "C20", run: c20::run, level: MC, assumptions: &["the program is built in the debug profile, with overflow checks"],
            rule: "a case is one argument list in one directory state; a state is a distinct (arguments, directory state, outcome); a transition is one argument or pixel row" },
        #[cfg(feature = "c21")]
        Prop { id: "C21", run: c21::run, level: MC, assumptions: COMMON,
            rule: "a case is all histories with one prefix, run in a process of its own; a state is a distinct (history, outcome); a transition is one operation" },
    ]
}
