//! In-process checks against the library crate. One program per area: a change that breaks the build of one leaves the rest.
mod keepalive;
mod sess;

fn main() {
    let mut reg = vcommon::runner::Registry::new();
    keepalive::register(&mut reg);
    vcommon::runner::main(reg)
}
