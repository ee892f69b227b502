// Shared by the witness programs: random events and hopper channels in a scratch directory.
use crate::wit::Rng;
use cernan::metric::{AggregationMethod, Encoding, Event, LogLine, Telemetry};
use std::sync::atomic::{AtomicUsize, Ordering};

static CH: AtomicUsize = AtomicUsize::new(0);

pub fn telemetry(r: &mut Rng, ts: i64) -> Telemetry {
    let mut t = Telemetry::new().name(*r.pick(&["a", "b", "a.b"])).timestamp(ts);
    t = t.kind(match r.below(3) { 0 => AggregationMethod::Set, 1 => AggregationMethod::Sum, _ => AggregationMethod::Summarize });
    let mut t = t.value(r.range(-5, 100) as f64).harden().unwrap();
    if r.chance(1, 3) {
        t = t.overlay_tag(*r.pick(&["k", "l"]), *r.pick(&["v", "w"]));
    }
    t
}
pub fn raw(r: &mut Rng) -> Event {
    let n = r.below(5);
    Event::Raw {
        order_by: r.u64(),
        encoding: match r.below(3) { 0 => Encoding::Raw, 1 => Encoding::Avro, _ => Encoding::JSON },
        bytes: r.bytes(n), metadata: None, connection_id: None,
    }
}
pub fn payload(r: &mut Rng, ts: i64) -> Event {
    match r.below(3) {
        0 => Event::Telemetry(telemetry(r, ts)),
        1 => Event::Log(LogLine::new(r.string("pq/", 1, 4), r.string("vw ", 0, 5)).time(ts)),
        _ => raw(r),
    }
}
pub fn scratch() -> std::path::PathBuf {
    let n = CH.fetch_add(1, Ordering::SeqCst);
    let p = std::env::temp_dir().join(format!("w{}-{}", std::process::id(), n));
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub struct Dir(pub std::path::PathBuf);
impl Dir { pub fn new() -> Dir { Dir(scratch()) } }
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
