//! (no value obligations)
