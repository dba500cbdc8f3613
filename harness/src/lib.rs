#![allow(static_mut_refs)]
pub mod vx;
pub mod env;
pub mod spec;
pub mod dt;
pub mod bld;
pub mod cal;
pub mod clock;
#[cfg(feature = "hooks")]
pub mod core;
pub mod table;
pub mod ticks;

#[cfg(feature = "native")]
pub fn dispatch(name: &str, args: &[String]) -> bool {
    private(name, args) || bld::dispatch(name, args) || table::dispatch(name, args) || clock::dispatch(name, args) || cal::dispatch(name, args) || cal::more(name, args) || ticks::dispatch(name, args)
}
#[cfg(all(feature = "native", feature = "hooks"))]
fn private(name: &str, args: &[String]) -> bool {
    core::dispatch(name, args) || core::cursor::dispatch(name, args)
}
#[cfg(all(feature = "native", not(feature = "hooks")))]
fn private(_: &str, _: &[String]) -> bool {
    false
}
