// C17: the real prometheus sink: what it keeps, what a scrape states, and a scrape over HTTP.
// @splice src/sink/prometheus.rs C17_in.rs C17.rs
extern crate cernan;
extern crate flate2;
#[macro_use]
extern crate log;
extern crate quantiles;
extern crate serde;
#[macro_use]
extern crate serde_derive;
use cernan::{http, metric, thread, time};
mod sink { pub use cernan::sink::*; pub use cernan::util::Valve; }
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
pub use pts::*;
use wit::*;
#[path = "../.cache/splice/C17.rs"]
mod prometheus;
fn main() {
    wit::main(&[
        Case { name: "keep", every: 1, run: prometheus::verif::keep },
        Case { name: "clock", every: 2, run: prometheus::verif::clock },
        Case { name: "names", every: 2, run: prometheus::verif::names },
        Case { name: "series", every: 500, run: prometheus::verif::series },
        Case { name: "http", every: 3000, run: prometheus::verif::over_http },
    ]);
}
