// C18: the real kafka sink on a scripted sender.
// @splice src/sink/kafka.rs C18_in.rs C18.rs
extern crate cernan;
extern crate futures;
#[macro_use]
extern crate log;
extern crate rdkafka;
extern crate serde;
#[macro_use]
extern crate serde_derive;
extern crate uuid;
use cernan::{metric, sink, source, util};
#[path = "wit.rs"]
mod wit;
#[path = "../.cache/splice/C18.rs"]
mod kafka;
use wit::*;
fn main() {
    wit::main(&[Case { name: "flush", every: 1, run: kafka::verif::flush }, Case { name: "headers", every: 20, run: kafka::verif::headers }]);
}
