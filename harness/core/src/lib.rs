//! A small property-based testing engine in the Hypothesis style.
//!
//! A generator draws from a stream of choices (`D`). A failing case is shrunk by editing the
//! recorded choices (delete blocks, zero blocks, lower single choices), so every generator
//! shrinks without extra code and the shrunk choice list is the replay file.
//!
//! Cases run in worker processes: an abort, a fatal signal or an endless loop in the code
//! under test ends a worker, not the check, and is attributed to the one case that caused it.

mod draw;
mod engine;
pub mod rap;
pub mod sha;
pub mod gen;
pub mod guard;
pub mod lzo;
pub mod pbo;

pub use draw::D;
pub use engine::{main_with, Case, Facet, Fail, Property, R};

/// Fail the case with a signature and a message.
#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return Err($crate::Fail::new($sig, format!($($arg)*))) } };
}

/// A printable, shortened form of a byte string.
#[must_use]
pub fn show_bytes(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(160) {
        if (32..127).contains(&c) && c != b'\\' {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{c:02x}"));
        }
    }
    if b.len() > 160 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

/// The scratch directory of this worker (removed by the parent).
#[must_use]
pub fn scratch() -> std::path::PathBuf {
    let p = std::env::var("VP_SCRATCH").map_or_else(|_| std::env::temp_dir().join("vp-scratch"), std::path::PathBuf::from);
    std::fs::create_dir_all(&p).expect("scratch dir");
    p
}
