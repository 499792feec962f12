//! In-process checks against the library crate. One program per area: a change that breaks the build of one leaves the rest.
mod settings;

fn main() {
    let mut reg = vcommon::runner::Registry::new();
    settings::register(&mut reg);
    vcommon::runner::main(reg)
}
