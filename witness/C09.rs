// C09: the flush boundary filter against a reference kept as (time, age) per event.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::filter::{Filter, FlushBoundaryFilter, FlushBoundaryFilterConfig};
use cernan::metric::Event;
use wit::*;

fn hold(r: &mut Rng) -> Res {
    let tol = match r.below(8) { 0 => 0, 1 => usize::max_value(), 2 => r.num().max(0) as usize, _ => r.size(4, 70_000) };
    // long runs: many events of few times, or many flushes
    let big = r.chance(1, 30);
    let (flush_in, times) = if big { *r.pick(&[(1, 2), (200, 2), (40, 1), (8, 300)]) } else { (4, 9) };
    let mut f = FlushBoundaryFilter::new(&FlushBoundaryFilterConfig { config_path: None, forwards: vec![], tolerance: tol });
    // groups: (time, age, events)
    let mut held: Vec<(i64, u64, Vec<Event>)> = Vec::new();
    let mut desc = format!("tolerance={}", tol);
    let wide = r.chance(1, 6);
    let n = if big { 400 + r.below(2600) } else { 1 + r.below(40) };
    for k in 0..n {
        let ts = if wide { *r.pick(&[i64::min_value(), -1, 0, i64::max_value()]) } else { r.range(-3, times - 4) };
        let e = match r.below(flush_in) { 0 => Event::TimerFlush(k as u64), _ => ev::payload(r, ts) };
        desc.push_str(&format!(" {}", match &e { Event::TimerFlush(_) => "flush".to_string(), Event::Raw { .. } => "raw".into(), _ => format!("{:?}@{}", k, ts) }));
        if !big { note(&desc); }
        let mut res = Vec::new();
        let r0 = if r.chance(1, 4) { vec![Event::TimerFlush(999)] } else { vec![] };
        res.extend(r0.iter().cloned());
        if f.process(e.clone(), &mut res).is_err() {
            return fail("boundary-error", desc, "process returned an error".into());
        }
        let mut want = r0;
        match e.timestamp() {
            Some(t) => match held.iter_mut().find(|h| h.0 == t) {
                Some(h) => h.2.push(e),
                None => { held.push((t, 0, vec![e])); held.sort_by_key(|h| h.0); }
            },
            None => {
                if e.is_timer_flush() {
                    for h in held.iter_mut() { h.1 += 1; }
                    for h in &held { if h.1 as u128 > tol as u128 { want.extend(h.2.iter().cloned()); } }
                    held.retain(|h| h.1 as u128 <= tol as u128);
                }
                want.push(e);
            }
        }
        if res != want {
            return fail("boundary-step", desc, format!("expected {:?}\n got {:?}", want, res));
        }
    }
    let mut res = Vec::new();
    f.drain(&mut res);
    let want: Vec<Event> = held.iter().flat_map(|h| h.2.iter().cloned()).collect();
    if res != want {
        return fail("boundary-drain", desc, format!("at shutdown expected {:?}\n got {:?}", want, res));
    }
    ok(desc, true)
}
fn main() { wit::main(&[Case { name: "hold", every: 1, run: hold }]); }
