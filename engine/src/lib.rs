//! A small property-based testing engine.
//!
//! * every random choice of a case goes through [`Src`], which records it on a tape, so that a failing
//!   case can be shrunk (by editing the tape) and replayed (by storing the tape);
//! * a case is a pure function of (code, VERIF_SEED, property, sub-check, case index);
//! * the work is done in a child process, so that aborts, stack overflows and segmentation faults of the
//!   code under test are attributed to a case and reported like any other failure;
//! * the same property functions can be driven from raw bytes (see `Src::from_bytes`) by libFuzzer.

pub mod mem;
mod run;
mod src;

pub use run::{main, Ctx, Fail, Outcome, Property, Res, Sub};
pub use src::{mix, Rng, Src};

/// Build a failure with an explicit signature (`sig` identifies the kind of failure, `msg` the details).
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

/// Assertion macro: `check!(cond, "signature", "format", args..)`
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) });
        }
    };
}

/// Index and values of the first difference of two slices, with the number of differing elements.
pub fn first_diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("lengths differ: {} vs {}", a.len(), b.len()));
    }
    let n = a.iter().zip(b).filter(|(x, y)| x != y).count();
    if n == 0 {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap();
    Some(format!("{n} of {} elements differ, first at index {i}: got {:?}, expected {:?}", a.len(), a[i], b[i]))
}

/// Largest absolute difference and its index.
pub fn max_diff_u8(a: &[u8], b: &[u8]) -> (u32, usize) {
    let mut m = (0, 0);
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let d = (*x as i32 - *y as i32).unsigned_abs();
        if d > m.0 {
            m = (d, i);
        }
    }
    m
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
