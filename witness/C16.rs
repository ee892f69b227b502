// C16: the real console sink, what it prints being recorded, and the null sink.
// @splice src/sink/console.rs C16_in.rs C16.rs
extern crate cernan;
extern crate chrono;
extern crate quantiles;
extern crate serde;
#[macro_use]
extern crate serde_derive;
use cernan::{buckets, metric, source, time};
mod sink { pub use cernan::sink::*; pub use cernan::util::Valve; }
#[path = "wit.rs"]
mod wit;
#[path = "pts.rs"]
mod pts;
pub use pts::*;
use std::cell::RefCell;
use wit::*;
thread_local! { pub static OUT: RefCell<String> = RefCell::new(String::new()); }
pub fn out(s: String) { OUT.with(|o| o.borrow_mut().push_str(&s)); }
macro_rules! print { ($($a:tt)*) => { crate::out(format!($($a)*)) } }
macro_rules! println { () => { crate::out("\n".to_string()) }; ($($a:tt)*) => { { crate::out(format!($($a)*)); crate::out("\n".to_string()) } } }
#[path = "../.cache/splice/C16.rs"]
mod console;

fn null(r: &mut Rng) -> Res {
    use cernan::sink::{Null, NullConfig, Sink};
    let mut n = Null::init(NullConfig::new("n".to_string()));
    n.deliver(point(r, &[0]));
    n.deliver_line(line(r, &[0]));
    n.flush();
    if let cernan::util::Valve::Closed = n.valve_state() { return fail("null-closed", "a point, a line and a flush".to_string(), "the null sink closes its valve".to_string()); }
    ok("null".to_string(), false)
}
fn main() {
    wit::main(&[Case { name: "console", every: 1, run: console::verif::run }, Case { name: "many", every: 300, run: console::verif::many }, Case { name: "null", every: 50, run: null }]);
}
