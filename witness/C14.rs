// C14: fan-out over real hopper queues, some of them full.
// @shim hopper
extern crate cernan;
extern crate hopper;
extern crate real_hopper;
// the real text of util.rs once more, over queues that answer as they are told to
use cernan::{constants, metric};
#[path = "/repo/src/util.rs"]
mod over_script;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use crate::metric::{Encoding, Event};
use cernan::util;
use std::sync::atomic::Ordering;
use wit::*;

fn drain(rcv: &mut real_hopper::Receiver<Event>, snd: &mut real_hopper::Sender<Event>, n: usize) -> Vec<Event> {
    let mut v = Vec::new();
    while v.len() < n {
        // what hopper holds on disk becomes visible to the receiver only with a flush
        let _ = snd.flush();
        if let Some(e) = rcv.iter().next() { v.push(e); }
    }
    v
}

fn fan(r: &mut Rng, with_full: bool) -> Res {
    let dir = ev::Dir::new();
    let n = 1 + r.below(5);
    let full: Vec<bool> = (0..n).map(|_| with_full && r.chance(1, 2)).collect();
    let mut chans: util::Channel = Vec::new();
    let mut outs = Vec::new();
    let mut pre: Vec<Vec<Event>> = Vec::new();
    for i in 0..n {
        let (mut s, o) = if full[i] {
            real_hopper::channel_with_explicit_capacity(&format!("c{}", i), &dir.0, 1, 0x100_000, 1).unwrap()
        } else if r.chance(1, 3) {
            // nearly everything goes to disk
            real_hopper::channel_with_explicit_capacity(&format!("c{}", i), &dir.0, 1 + r.below(900), 0x100_000, 50).unwrap()
        } else {
            real_hopper::channel(&format!("c{}", i), &dir.0).unwrap()
        };
        let mut had = Vec::new();
        if full[i] {
            // fill the queue up
            for size in &[200_000, 20_000, 2_000, 200, 20, 0] {
                loop {
                    let e = if *size == 0 { Event::Shutdown } else { Event::Raw { order_by: had.len() as u64, encoding: Encoding::Raw, bytes: r.bytes(*size), metadata: None, connection_id: None } };
                    match s.send(e.clone()) { Ok(()) => had.push(e), Err((_, real_hopper::Error::Full)) => break, Err(_) => {} }
                    if had.len() > 60_000 { break; }
                }
            }
        }
        pre.push(had);
        chans.push(s);
        outs.push(o);
    }
    let mut probes = chans.clone();
    let is_full: Vec<bool> = (0..n).map(|i| full[i] && match probes[i].send(Event::Shutdown) {
        Err((_, real_hopper::Error::Full)) => true, Ok(()) => { pre[i].push(Event::Shutdown); false } , _ => false }).collect();
    let m = r.below(12);
    let evs: Vec<Event> = (0..m).map(|_| match r.below(6) { 0 => Event::Shutdown, 1 => Event::TimerFlush(r.u64()), _ => ev::payload(r, 7) }).collect();
    let desc = format!("queues full: {:?} events {:?}", is_full, evs);
    note(&desc);
    let before = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
    for e in &evs { util::send(&mut chans, e.clone()); }
    let dropped = util::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
    let want_dropped = m * is_full.iter().filter(|x| **x).count();
    if dropped != want_dropped {
        return fail("fanout-drop-count", desc, format!("{} drops counted, {} queues-times-events were full", dropped, want_dropped));
    }
    for i in 0..n {
        let mut want = pre[i].clone();
        if !is_full[i] { want.extend(evs.iter().cloned()); }
        let end = Event::TimerFlush(u64::max_value());
        if !is_full[i] {
            loop { match probes[i].send(end.clone()) { Ok(()) => break, Err((_, real_hopper::Error::Full)) => return fail("fanout-full", desc, "a queue with room reports full".into()), _ => {} } }
            want.push(end.clone());
        }
        // one more than wanted would be seen in front of the end marker
        let got = drain(&mut outs[i], &mut probes[i], want.len());
        if got != want {
            return fail("fanout-delivery", desc, format!("queue {} expected {} events, and received {:?}", i, want.len(), got.iter().rev().take(15).collect::<Vec<_>>()));
        }
    }
    ok(desc, m > 0)
}
/// queues that fail now and then, in every way hopper has
fn scripted(r: &mut Rng) -> Res {
    let n = 1 + r.size(4, 40);
    let mut chans: over_script::Channel = (0..n).map(|_| hopper::Sender::new()).collect();
    let evs: Vec<Event> = (0..1 + r.below(6)).map(|_| ev::payload(r, 7)).collect();
    let mut desc = String::new();
    let mut want: Vec<Vec<Event>> = vec![vec![]; n];
    for (k, e) in evs.iter().enumerate() {
        let mut drops = 0;
        for (i, c) in chans.iter().enumerate() {
            let mut s: Vec<u8> = (0..if r.chance(1, 2) { 0 } else { r.size(3, 300) }).map(|_| r.below(3) as u8).collect();
            if r.chance(1, 3) { s.push(9); drops += 1; } else { want[i].push(e.clone()); }
            desc += &format!("event {} queue {}: {:?}; ", k, i, s);
            c.script(s);
        }
        note(&desc);
        let before = over_script::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst);
        over_script::send(&mut chans, e.clone());
        let counted = over_script::UTIL_SEND_HOPPER_ERROR_FULL.load(Ordering::SeqCst) - before;
        if counted != drops { return fail("fanout-drop-count", desc, format!("{} drops counted, {} queues were full", counted, drops)); }
        for (i, c) in chans.iter().enumerate() {
            if c.got() != want[i] { return fail("fanout-delivery", desc, format!("after event {}, queue {} holds {:?} instead of {:?}", k, i, c.got(), want[i])); }
            if c.left() != 0 { return fail("fanout-delivery", desc, format!("event {} was not offered to queue {} until it was taken or the queue was full", k, i)); }
        }
    }
    ok(desc, true)
}
fn fan_open(r: &mut Rng) -> Res { fan(r, false) }
fn fan_full(r: &mut Rng) -> Res { fan(r, true) }

fn main() {
    wit::main(&[Case { name: "scripted", every: 1, run: scripted }, Case { name: "fan_open", every: 60, run: fan_open }, Case { name: "fan_full", every: 200, run: fan_full }]);
}
