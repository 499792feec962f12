//! Checks that run the real programs: the broker and ratelmq-passwd.
mod broker;
mod bulk;
mod churn;
mod client;
mod crowd;
mod fault;
mod flow;
mod history;
mod idle;
mod login;
mod passwd;
mod payload;
mod request;
mod startup;
mod stop;
mod streams;
mod wire;
mod world;

use vcommon::runner::Registry;

fn main() {
    let mut reg: Registry = Registry::new();
    history::register(&mut reg);
    idle::register(&mut reg);
    payload::register(&mut reg);
    fault::register(&mut reg);
    flow::register(&mut reg);
    request::register(&mut reg);
    login::register(&mut reg);
    churn::register(&mut reg);
    crowd::register(&mut reg);
    bulk::register(&mut reg);
    streams::register(&mut reg);
    startup::register(&mut reg);
    stop::register(&mut reg);
    passwd::register(&mut reg);
    wire::register(&mut reg);
    vcommon::runner::main(reg)
}
