//! In-process checks against the library crate. One program per area: a change that breaks the build of one leaves the rest.
mod auth;

fn main() {
    let mut reg = vcommon::runner::Registry::new();
    auth::register(&mut reg);
    vcommon::runner::main(reg)
}
