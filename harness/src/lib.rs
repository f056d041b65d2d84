//! Harnesses: each `#[no_mangle] extern "C"` function states one obligation of a property over
//! symbolic inputs. One cargo feature per property keeps the emitted IR small.
pub mod models;
pub mod sym;
pub mod util;
#[cfg(feature = "c06")]
mod c06;
#[cfg(any(feature = "c04", feature = "c05"))]
mod c04;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
