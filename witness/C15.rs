// C15: the real wavefront sink, writing to real loopback connections some of which fail.
// @splice src/sink/wavefront.rs C15_in.rs C15.rs
extern crate cernan;
#[macro_use]
extern crate log;
extern crate quantiles;
extern crate serde;
#[macro_use]
extern crate serde_derive;
use cernan::{buckets, metric, source, time};
mod sink { pub use cernan::sink::*; pub use cernan::util::Valve; }
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
pub use pts::*;
use wit::*;
#[path = "../.cache/splice/C15.rs"]
mod wavefront;
fn main() {
    wit::main(&[
        Case { name: "lines", every: 1, run: wavefront::verif::lines },
        Case { name: "wire", every: 40, run: wavefront::verif::wire },
        Case { name: "leaving", every: 700, run: wavefront::verif::leaving },
        Case { name: "valve", every: 4000, run: wavefront::verif::valve },
    ]);
}
