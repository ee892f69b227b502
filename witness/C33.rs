// C33: the real Elasticsearch sink and a scripted server.
// @shim elastic
// @splice src/sink/elasticsearch.rs C33_in.rs C33.rs
extern crate cernan;
extern crate chrono;
extern crate elastic;
#[macro_use]
extern crate log;
extern crate serde;
#[macro_use]
extern crate serde_derive;
#[macro_use]
extern crate serde_json;
extern crate uuid;
use cernan::{metric, source, time};
mod sink { pub use cernan::sink::*; pub use cernan::util::Valve; }
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
pub use pts::*;
use wit::*;
#[path = "../.cache/splice/C33.rs"]
mod elasticsearch;
fn main() {
    wit::main(&[Case { name: "elastic", every: 1, run: elasticsearch::verif::run }, Case { name: "valve", every: 1000, run: elasticsearch::verif::valve }]);
}
