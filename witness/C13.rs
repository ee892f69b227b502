// C13: the filter run loop, with an arbitrary filter plugged in.
extern crate cernan;
extern crate hopper;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::filter::{Filter, FilterError};
use cernan::metric::Event;
use wit::*;

struct Script { steps: Vec<(Vec<Event>, Option<Event>)>, at: usize, seen: Vec<Event>, dirty: bool, held: Vec<Event>, drained: usize }
impl Filter for Script {
    fn drain(&mut self, res: &mut Vec<Event>) {
        if !res.is_empty() { self.dirty = true; }
        self.drained += 1;
        res.append(&mut self.held);
    }
    fn process(&mut self, event: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        if !res.is_empty() { self.dirty = true; }
        self.seen.push(event);
        let (emit, err) = self.steps.get(self.at).cloned().unwrap_or((vec![], None));
        self.at += 1;
        res.extend(emit);
        match err {
            None => Ok(()),
            Some(e) => Err(if self.at % 2 == 0 { FilterError::NoSuchFunction("f", e) } else { FilterError::LuaError("x".into(), e) }),
        }
    }
}

/// memory for so many events: what hopper has on disk shows only with a later flush
fn room(n: usize) -> usize { (n * std::mem::size_of::<Event>() * 2).max(0x100_000) }
fn run_loop(r: &mut Rng) -> Res {
    let dir = ev::Dir::new();
    let n_sources = 1 + r.below(4);
    let n = r.size(20, 1500);
    let mut evs = Vec::new();
    for _ in 0..n {
        evs.push(if r.chance(1, 3) { Event::TimerFlush(r.below(9) as u64) } else { ev::payload(r, 1) });
    }
    let mut steps = Vec::new();
    for _ in 0..n {
        let k = r.size(3, 700);
        let emit: Vec<Event> = (0..k).map(|_| if r.chance(1, 8) { Event::TimerFlush(r.u64()) } else { ev::payload(r, 2) }).collect();
        let err = if r.chance(1, 4) { Some(if r.chance(1, 3) { Event::TimerFlush(r.below(9) as u64) } else { ev::payload(r, 3) }) } else { None };
        steps.push((emit, err));
    }
    let held: Vec<Event> = (0..r.size(3, 300)).map(|_| if r.chance(1, 8) { Event::TimerFlush(r.u64()) } else { ev::payload(r, 4) }).collect();
    let inputs = evs.clone();
    for _ in 0..n_sources - 1 {
        let at = r.below(evs.len() + 1);
        evs.insert(at, Event::Shutdown);
    }
    evs.push(Event::Shutdown);
    let desc = format!("sources={} events={:?} filter emits={:?} and at the end {:?}", n_sources, evs, steps, held);
    note(&desc);
    let mut want: Vec<Event> = Vec::new();
    for (emit, err) in &steps {
        want.extend(emit.iter().cloned());
        want.extend(err.iter().cloned());
    }
    want.extend(held.iter().cloned());
    want.push(Event::Shutdown);
    let (mut snd, rcv) = hopper::channel_with_explicit_capacity("in", &dir.0, room(n + 20), 1 << 26, 100).unwrap();
    for e in evs {
        while snd.send(e.clone()).is_err() {}
    }
    let n_out = r.below(4);
    let mut chans = Vec::new();
    let mut outs = Vec::new();
    for i in 0..n_out {
        let (s, o) = hopper::channel_with_explicit_capacity(&format!("o{}", i), &dir.0, room(want.len() + 20), 1 << 26, 100).unwrap();
        chans.push(s);
        outs.push(o);
    }
    let mut probes = chans.clone();
    let srcs: Vec<String> = (0..n_sources).map(|i| format!("s{}", i)).collect();
    let mut f = Script { steps, at: 0, seen: vec![], dirty: false, held, drained: 0 };
    f.run(rcv, srcs, chans);
    if f.seen != inputs {
        return fail("filter-inputs", desc, format!("the filter was given {:?}", f.seen));
    }
    if f.drained != 1 {
        return fail("filter-drained", desc, format!("the filter was asked {} times for what it still holds", f.drained));
    }
    if f.dirty {
        return fail("filter-reemit", desc, "the filter was handed a result vector that still held sent events".into());
    }
    for (i, o) in outs.iter_mut().enumerate() {
        let end = Event::TimerFlush(u64::max_value());
        while probes[i].send(end.clone()).is_err() {}
        let mut got = Vec::new();
        loop {
            match o.iter().next() {
                Some(e) => { if e == end { break; } got.push(e); }
                None => {}
            }
        }
        if got != want {
            return fail("filter-outputs", desc, format!("forward {} expected {:?}\n got {:?}", i, want, got));
        }
    }
    ok(desc, n > 0)
}

fn main() {
    wit::main(&[Case { name: "run_loop", every: 1, run: run_loop }]);
}
