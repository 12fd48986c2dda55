//! Executes scripts of library calls and reports what the library did.
//!
//! A script is a list of lines.  `H <type>` starts a history over a coefficient type; every other
//! line is one call on numbered registers.  Each line is answered with exactly one line, flushed
//! at once, so that a call which never returns or kills the process is identified by its absence.
//! Nothing here knows what a right answer is: the answers are judged by the TLA+ specification.
#[cfg(feature = "residues")]
pub mod gf;
pub mod num_io;
#[macro_use]
pub mod ops;
pub mod types;
