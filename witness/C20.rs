// C20: the real acknowledgement bag.
extern crate cernan;
extern crate uuid;
#[path = "wit.rs"]
mod wit;
use cernan::metric::global_ack_bag;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use uuid::Uuid;
use wit::*;

fn nap_time(i: usize) -> u64 { (5u64 << i.min(10)).min(250) }
fn ops(r: &mut Rng) -> Res {
    let bag = global_ack_bag();
    let keys: Vec<Uuid> = (0..4).map(|_| Uuid::new_v4()).collect();
    let mut m: HashMap<Uuid, usize> = HashMap::new();
    let mut desc = String::new();
    for _ in 0..1 + r.below(20) {
        let i = r.below(4);
        let k = keys[i];
        match r.below(6) {
            0 | 1 => { desc += &format!("prepare {}; ", i); bag.prepare_wait(k); m.insert(k, 0); }
            2 => { desc += &format!("remove {}; ", i); bag.remove(k); m.remove(&k); }
            3 | 4 => {
                desc += &format!("ack {}; ", i);
                let times = r.size(1, 300);
                let mut called = times == 0;
                for _ in 0..times { bag.with_props(k, |p| { called = true; p.ack() }); }
                if times == 0 { continue; }
                if called != m.contains_key(&k) { return fail("callback", desc, format!("callback made: {}", called)); }
                if let Some(n) = m.get_mut(&k) { *n += times; }
            }
            _ => {
                // what happens while waiting, after so many naps
                let (after, how) = (r.size(8, 200), r.below(4));
                // acknowledgements that arrive together
                let burst = 1 + r.size(40, 600);
                desc += &format!("wait {} ({} after {} naps); ", i, ["ack", "remove", "prepare others and ack", "several acks"][how], after);
                note(&desc);
                let naps: RefCell<Vec<u64>> = RefCell::new(Vec::new());
                bag.wait_for_callback(k, |d| {
                    let d = d.as_secs() * 1_000_000_000 + d.subsec_nanos() as u64;
                    let mut n = naps.borrow_mut();
                    n.push(d);
                    for (j, o) in keys.iter().enumerate() { if j != i && how == 2 && n.len() == 1 { bag.prepare_wait(*o); bag.with_props(*o, |p| p.ack()); } }
                    if n.len() == after + 1 { if how == 1 { bag.remove(k) } else { for _ in 0..if how == 3 { burst } else { 1 } { bag.with_props(k, |p| p.ack()) } } }
                    if n.len() > after + 5 { panic!("still waiting, {} naps after its release", n.len() - after - 1) }
                });
                let n = naps.into_inner();
                let waits = m.get(&k) == Some(&0);
                if waits && how == 2 { for (j, o) in keys.iter().enumerate() { if j != i { m.insert(*o, 1); } } }
                let want: Vec<u64> = if waits { (0..after + 1).map(|i| nap_time(i) * 1_000_000).collect() } else { vec![] };
                if n != want { return fail("naps", desc, format!("slept {:?} ns instead of {:?}", n, want)); }
                if waits { if how == 1 { m.remove(&k); } else { m.insert(k, if how == 3 { burst } else { 1 }); } }
            }
        }
        for (j, k) in keys.iter().enumerate() {
            let got = bag.props_for(*k).map(|p| p.acks_received());
            if got != m.get(k).cloned() { return fail("state", desc, format!("key {} has {:?} acknowledgements instead of {:?}", j, got, m.get(k))); }
        }
    }
    for k in keys { bag.remove(k); }
    ok(desc, true)
}
/// several threads waiting, each released by its own acknowledgement
fn threads(r: &mut Rng) -> Res {
    let bag = global_ack_bag();
    let n = 2 + r.below(3);
    let keys: Vec<Uuid> = (0..n).map(|_| Uuid::new_v4()).collect();
    for k in &keys { bag.prepare_wait(*k); }
    let done: Vec<Arc<AtomicBool>> = (0..n).map(|_| Arc::new(AtomicBool::new(false))).collect();
    let hs: Vec<_> = (0..n).map(|i| {
        let (k, d) = (keys[i], done[i].clone());
        std::thread::spawn(move || { global_ack_bag().wait_for(k); d.store(true, Ordering::SeqCst); })
    }).collect();
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let desc = format!("{} threads, acknowledged in the order {:?}", n, order);
    note(&desc);
    for (at, i) in order.iter().enumerate() {
        std::thread::sleep(Duration::from_millis(r.below(12) as u64));
        for j in &order[at..] { if done[*j].load(Ordering::SeqCst) { return fail("released-early", desc, format!("thread {} went on", j)); } }
        let t = Instant::now();
        if r.chance(1, 3) { bag.remove(keys[*i]) } else { bag.with_props(keys[*i], |p| p.ack()) }
        while !done[*i].load(Ordering::SeqCst) {
            if t.elapsed() > Duration::from_secs(5) { return fail("not-released", desc, format!("thread {} waits on", i)); }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    for h in hs { h.join().unwrap(); }
    for k in keys { bag.remove(k); }
    ok(desc, true)
}
fn main() {
    wit::main(&[Case { name: "ops", every: 1, run: ops }, Case { name: "threads", every: 300, run: threads }]);
}
