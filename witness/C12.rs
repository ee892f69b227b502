// C12: the sink run loop, driven through the real RunnableSink with a recording sink.
extern crate cernan;
extern crate hopper;
extern crate uuid;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::{Encoding, Event, LogLine, Metadata, Telemetry};
use cernan::sink::Sink;
use cernan::thread::Stoppable;
use cernan::util::Valve;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};
use wit::*;

#[derive(Clone, Debug, PartialEq)]
enum Op { Got(Event), Flush(bool), Shutdown, Early(Event) }

#[derive(Clone)]
struct Cfg { log: Arc<Mutex<Vec<Op>>>, interval: Option<u64>, cap: usize, flushes_to_open: usize }
struct Rec { c: Cfg, held: usize, flushed: usize }
impl Rec {
    fn closed(&self) -> bool { self.held >= self.c.cap }
    fn put(&mut self, e: Event) {
        let op = if self.closed() { Op::Early(e) } else { Op::Got(e) };
        self.c.log.lock().unwrap().push(op);
        self.held += 1;
        self.flushed = 0;
    }
}
impl Sink<Cfg> for Rec {
    fn init(c: Cfg) -> Rec { Rec { c, held: 0, flushed: 0 } }
    fn flush_interval(&self) -> Option<u64> { self.c.interval }
    fn flush(&mut self) {
        let closed = self.closed();
        self.c.log.lock().unwrap().push(Op::Flush(closed));
        self.flushed += 1;
        if !closed || self.flushed >= self.c.flushes_to_open {
            self.held = 0;
            self.flushed = 0;
        }
    }
    fn valve_state(&self) -> Valve { if self.closed() { Valve::Closed } else { Valve::Open } }
    fn deliver(&mut self, t: Telemetry) { self.put(Event::Telemetry(t)) }
    fn deliver_line(&mut self, l: LogLine) { self.put(Event::Log(l)) }
    fn deliver_raw(&mut self, order_by: u64, encoding: Encoding, bytes: Vec<u8>, metadata: Option<Metadata>, connection_id: Option<uuid::Uuid>) {
        self.put(Event::Raw { order_by, encoding, bytes, metadata, connection_id })
    }
    fn shutdown(self) { self.c.log.lock().unwrap().push(Op::Shutdown) }
}

fn run_loop(r: &mut Rng) -> Res {
    let dir = ev::Dir::new();
    let n_sources = 1 + r.below(4);
    let interval = match r.below(5) { 0 => None, 1 => Some(0), 2 => Some(1), _ => Some(r.range(2, 5) as u64) };
    let cap = if r.chance(1, 2) { usize::max_value() } else { 1 + r.below(4) };
    let log = Arc::new(Mutex::new(Vec::new()));
    let cfg = Cfg { log: log.clone(), interval, cap, flushes_to_open: 1 + r.below(3) };
    let n = r.size(30, 1500);
    let mut evs = Vec::new();
    let mut clock = if r.chance(1, 10) { u64::max_value() - 20 } else { 0 };
    for _ in 0..n {
        evs.push(if r.chance(1, 2) {
            match r.below(4) { 0 => {} , 1 => clock = clock.saturating_add(1), 2 => clock = clock.saturating_add(r.below(5) as u64), _ => {} }
            Event::TimerFlush(clock.saturating_sub(if r.chance(1, 4) { r.below(4) as u64 } else { 0 }))
        } else {
            let ts = r.range(0, 10);
            ev::payload(r, ts)
        });
    }
    // the shutdowns of all sources but the last come at any point
    for _ in 0..n_sources - 1 {
        let at = r.below(evs.len() + 1);
        evs.insert(at, Event::Shutdown);
    }
    evs.push(Event::Shutdown);
    let desc = format!("sources={} interval={:?} cap={} flushes_to_open={} events={:?}", n_sources, interval, cap, cfg.flushes_to_open, evs);
    note(&desc);
    let mut want = Vec::new();
    let mut last = 0;
    for e in &evs {
        match e {
            Event::TimerFlush(i) => if *i > last {
                last = *i;
                if let Some(k) = interval { if k == 0 || i % k == 0 { want.push(Op::Flush(false)); } }
            },
            Event::Shutdown => {}
            e => want.push(Op::Got(e.clone())),
        }
    }
    want.push(Op::Shutdown);
    let (mut snd, rcv) = hopper::channel_with_explicit_capacity("q", &dir.0, ((n + 20) * std::mem::size_of::<Event>() * 2).max(0x100_000), 1 << 26, 100).unwrap();
    let srcs: Vec<String> = (0..n_sources).map(|i| format!("s{}", i)).collect();
    let h = <Rec as Sink<Cfg>>::new(rcv, srcs, cfg).run();
    for e in evs {
        while snd.send(e.clone()).is_err() {}
    }
    let extra = ev::payload(r, 1);
    while snd.send(extra.clone()).is_err() {}
    // never more shutdowns than sources: a loop that waits for more hangs, and is reported as such
    let t0 = std::time::Instant::now();
    while !log.lock().unwrap().contains(&Op::Shutdown) {
        std::thread::sleep(std::time::Duration::from_micros(200));
        if t0.elapsed().as_secs() > 20 {
            return fail("sink-no-shutdown", desc, format!("every source has shut down but the sink runs on; done so far: {:?}", log.lock().unwrap()));
        }
    }
    h.join();
    let got = log.lock().unwrap().clone();
    if let Some(x) = got.iter().find(|o| if let Op::Early(_) = o { true } else { false }) {
        return fail("sink-closed-valve", desc, format!("delivered to a closed valve: {:?}", x));
    }
    // an event may also be flushed for by a closed valve; those flushes are free
    let own: Vec<Op> = got.iter().filter(|o| **o != Op::Flush(true)).cloned().collect();
    if own != want {
        return fail("sink-sequence", desc, format!("expected {:?}\n got {:?}", want, own));
    }
    ok(desc, n > 0)
}

fn main() {
    wit::main(&[Case { name: "run_loop", every: 1, run: run_loop }]);
}
