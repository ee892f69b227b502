// C34: the real InfluxDB sink and a scripted server.
// @shim reqwest
// @splice src/sink/influxdb.rs C34_in.rs C34.rs
extern crate cernan;
#[macro_use]
extern crate log;
extern crate quantiles;
extern crate reqwest;
extern crate serde;
#[macro_use]
extern crate serde_derive;
extern crate url;
use cernan::{metric, source, time};
mod sink { pub use cernan::sink::*; pub use cernan::util::Valve; }
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
pub use pts::*;
use wit::*;
#[path = "../.cache/splice/C34.rs"]
mod influxdb;
fn main() {
    wit::main(&[Case { name: "influx", every: 1, run: influxdb::verif::run }, Case { name: "valve", every: 4000, run: influxdb::verif::valve }]);
}
