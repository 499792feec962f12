//! In-process checks against the library crate. One program per area: a change that breaks the build of one leaves the rest.
mod routing;
mod sess;

fn main() {
    let mut reg = vcommon::runner::Registry::new();
    routing::register(&mut reg);
    vcommon::runner::main(reg)
}
