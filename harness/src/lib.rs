#![allow(dead_code, clippy::all)]
mod rt;
mod sets;
mod src;
mod tok;
mod tr;
mod spec;
mod ser;
mod run;
#[cfg(feature = "main")]
mod diff;
#[cfg(feature = "main")]
mod lexh;
mod scripts;
mod big;
mod gen;
#[cfg(feature = "build")]
mod build;
#[cfg(feature = "more")]
mod ops;
#[cfg(feature = "more")]
mod total;
#[cfg(feature = "more")]
mod layout;
#[cfg(feature = "more")]
mod resume;
#[cfg(feature = "more")]
mod cuts;
