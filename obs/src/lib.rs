#![allow(non_snake_case, unused, clippy::all)]
//! Observations of geokit's public API.  Nothing here is ever executed: the bodies are analysed.
//! `x__code` observes geokit, `x__spec` states what must be observed, `x__holds` must be true.

/// restricts the analysed inputs
#[inline(never)]
pub fn assume(_c: bool) {}

#[cfg(feature = "g01")] pub mod g01;
#[cfg(feature = "g02")] pub mod g02;
#[cfg(feature = "g03")] pub mod g03;
#[cfg(feature = "g04")] pub mod g04;
#[cfg(feature = "g05")] pub mod g05;
#[cfg(feature = "g06")] pub mod g06;
#[cfg(feature = "g07")] pub mod g07;
#[cfg(feature = "g08")] pub mod g08;
#[cfg(feature = "g09")] pub mod g09;
#[cfg(feature = "g10")] pub mod g10;
#[cfg(feature = "g11")] pub mod g11;
#[cfg(feature = "g12")] pub mod g12;
#[cfg(feature = "g13")] pub mod g13;
#[cfg(feature = "g14")] pub mod g14;
#[cfg(feature = "g15")] pub mod g15;
#[cfg(feature = "g16")] pub mod g16;
#[cfg(feature = "g17")] pub mod g17;
#[cfg(feature = "g18")] pub mod g18;
#[cfg(feature = "g19")] pub mod g19;
#[cfg(feature = "g20")] pub mod g20;
#[cfg(feature = "g21")] pub mod g21;
#[cfg(feature = "g22")] pub mod g22;
#[cfg(feature = "g23")] pub mod g23;
#[cfg(feature = "g24")] pub mod g24;
#[cfg(feature = "g25")] pub mod g25;
#[cfg(feature = "g26")] pub mod g26;
#[cfg(feature = "g27")] pub mod g27;
#[cfg(feature = "g28")] pub mod g28;
#[cfg(feature = "g29")] pub mod g29;
#[cfg(feature = "g30")] pub mod g30;
#[cfg(feature = "g31")] pub mod g31;
#[cfg(feature = "g32")] pub mod g32;
#[cfg(feature = "g33")] pub mod g33;
