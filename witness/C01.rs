// C01: the aggregation store against a reference keyed by (name, sorted tags) and time bin.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
#[path = "model.rs"]
mod model;
use model::*;
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod, TagMap, Telemetry};
use std::collections::BTreeMap;
use wit::*;

type Id = (String, Vec<(String, String)>);
fn id(t: &Telemetry) -> Id {
    let none = TagMap::default();
    let mut v: Vec<(String, String)> = t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    (t.name.clone(), v)
}
/// What can be seen of a point.
fn view(t: &Telemetry) -> String {
    let bins: Vec<String> = t.bins().map(|b| b.map(|(b, c)| format!("{:?}:{}", b, c)).collect()).unwrap_or_default();
    let mut s = if t.is_set() || t.is_sum() { vec![] } else { t.samples() };
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    format!("{:?} {:?} ts={} persist={} {:?} {:?} n={} sum={:?} bins={:?} samples={:?}", id(t), t.kind(), t.timestamp, t.persist, t.set(), t.sum(), t.count(), t.samples_sum(), bins, s)
}

#[derive(Clone)]
struct Cell { persist: bool, ts: i64, v: V }
fn agrees(t: &Telemetry, c: &Cell) -> bool { t.persist == c.persist && t.timestamp == c.ts && holds(t, &c.v) }
fn store(r: &mut Rng) -> Res {
    let width = match r.below(3) { 0 => 1, 1 => r.range(2, 12), _ => *r.pick(&[60, 1000, i64::max_value()]) };
    let mut b = if width == 1 && r.chance(1, 2) { Buckets::default() } else { Buckets::new(width) };
    let mut model: BTreeMap<Id, BTreeMap<i64, Cell>> = BTreeMap::new();
    let mut names_seen = std::collections::BTreeSet::new();
    let mut desc = format!("width={}", width);
    let big = r.chance(1, 200);
    let n = if big { 500 + r.below(1500) } else { 1 + r.below(60) };
    let wide = r.chance(1, 8);
    for step in 0..n {
        if r.chance(1, if big { 700 } else { 14 }) {
            desc.push_str(" reset");
            note(&desc);
            let now0 = cernan::time::now();
            b.reset();
            let now1 = cernan::time::now();
            for bins in model.values_mut() {
                let last = bins.values().next_back().cloned();
                bins.clear();
                if let Some(c) = last {
                    if c.persist {
                        // the survivor is stamped with the present
                        let got = b.iter().filter(|t| t.timestamp == now0 || t.timestamp == now1).map(|t| t.timestamp).next();
                        let ts = match got { Some(ts) => ts, None => return fail("store-reset", desc, "a persisted point is gone or keeps its old time".into()) };
                        bins.insert(ts / width, Cell { ts, ..c });
                    }
                }
            }
        } else {
            let other = r.text("ab", 1, 3, |_| true);
            let name: &str = if r.chance(1, 20) { &other } else { *r.pick(&["a", "b", "ab"]) };
            let v = r.range(-3, 200) as f64 / 2.0;
            let persist = r.chance(1, 3);
            let ts = if wide { if r.chance(1, 2) { r.num() } else { *r.pick(&[0, 1, i64::max_value(), cernan::time::now()]) } } else if big { r.range(-20, 4000) } else { r.range(-20, 40) };
            let val = match r.below(4) { 0 => V::Set(v), 1 => V::Sum(v), 2 => V::Hist(vec![v]), _ => V::Quant(vec![v]) };
            let mut soft = Telemetry::new().name(name).value(v).timestamp(ts).persist(persist).kind(kind(&val));
            if let V::Hist(_) = val { soft = soft.bounds(BOUNDS.to_vec()); }
            let mut t = soft.harden().unwrap();
            // tags put in one by one, in any order
            let mut pairs: Vec<(&str, &str)> = vec![("k", "1"), ("l", "1"), ("m", "2"), ("env", "prod"), ("host", "h"), ("zone", "z")];
            r.shuffle(&mut pairs);
            let keep = match r.below(4) { 0 => 0, 1 => 1, 2 => 3, _ => 6 };
            pairs.retain(|p| match keep { 0 => false, 1 => p.0 == "k", 3 => "klm".contains(p.0), _ => true });
            for (k, v) in &pairs { t = t.overlay_tag(*k, *v); }
            if keep == 1 && r.chance(1, 3) { t = t.overlay_tag("k", "2"); }
            desc.push_str(&format!(" add({} {:?} ts={} persist={} tags={:?})", name, val, ts, persist, pairs));
            if !big { note(&desc); }
            names_seen.insert(id(&t));
            let bins = model.entry(id(&t)).or_default();
            let bin = ts / width;
            let new = match bins.get(&bin) {
                Some(c) => Cell { persist, ts: c.ts, v: plus(&c.v, &val) },
                None => match bins.range(..bin).next_back() {
                    Some((_, p)) if persist => Cell { persist, ts, v: plus(&p.v, &val) },
                    _ => Cell { persist, ts, v: val },
                },
            };
            bins.insert(bin, new);
            b.add(t);
        }
        if big && step % 100 != 0 && step + 1 < n { continue; }
        let total: usize = model.values().map(|m| m.len()).sum();
        if b.count() != total || b.is_empty() != (total == 0) {
            return fail("store-count", desc, format!("count()={} is_empty()={} but {} points are due", b.count(), b.is_empty(), total));
        }
        if b.len() != names_seen.len() {
            return fail("store-names", desc, format!("len()={} but {} series were added", b.len(), names_seen.len()));
        }
        // everything is iterated once; within a series in time order
        let mut left = model.clone();
        let got: Vec<Telemetry> = b.iter().cloned().collect();
        for t in &got {
            let bins = match left.get_mut(&id(t)) { Some(x) => x, None => return fail("store-alien", desc, format!("iterated a point of no known series: {}", view(t))) };
            let k = match bins.keys().next().cloned() { Some(k) => k, None => return fail("store-extra", desc, format!("iterated an extra point: {}", view(t))) };
            let c = bins.remove(&k).unwrap();
            if !agrees(t, &c) {
                return fail("store-value", desc, format!("expected bin {} ts={} persist={} {:?}, iterated {}", k, c.ts, c.persist, c.v, view(t)));
            }
        }
        if let Some((i, m)) = left.iter().find(|(_, m)| !m.is_empty()) {
            return fail("store-missing", desc, format!("{:?} lacks bins {:?}", i, m.keys().collect::<Vec<_>>()));
        }
    }
    ok(desc, true)
}
fn main() { wit::main(&[Case { name: "store", every: 1, run: store }]); }
