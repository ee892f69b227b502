// C03: tags of points and lines against plain ordered maps.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
use cernan::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use wit::*;

type M = BTreeMap<String, String>;
const KEYS: &[&str] = &["a", "b", "c", "aa", "ab", "k0", "k1", "k2", "k3", "k4", "k5", "", "host", "source", "é"];
const VALS: &[&str] = &["1", "2", "", "x", "yy", "z z"];

fn key(r: &mut Rng) -> String { if r.chance(1, 8) { let k = r.size(3, 3000); r.text("abé\u{0}\u{ff} ", 0, k, |_| true) } else { r.pick(KEYS).to_string() } }
fn val(r: &mut Rng) -> String { if r.chance(1, 8) { let k = r.size(3, 3000); r.text("xyé\u{0}\u{ff} ", 0, k, |_| true) } else { r.pick(VALS).to_string() } }
fn rand_map(r: &mut Rng) -> M {
    let n = match r.below(4) { 0 => 0, 1 => r.below(3), _ => r.size(13, 200) };
    let many = n > 13;
    (0..n).map(|i| (if many && r.chance(3, 4) { format!("m{}", i) } else { key(r) }, val(r))).collect()
}
/// the same map, built in another order and with other spare room, which changes how it iterates
fn build(r: &mut Rng, m: &M) -> TagMap {
    let mut ks: Vec<&String> = m.keys().collect();
    r.shuffle(&mut ks);
    let mut t: TagMap = Default::default();
    if r.chance(1, 2) { t.reserve(r.below(100)); }
    let junk = r.below(20);
    for i in 0..junk { t.insert(format!("junk{}", i), "j".into()); }
    for k in ks { t.insert(k.clone(), m[k].clone()); }
    for i in 0..junk { t.remove(&format!("junk{}", i)); }
    t
}
fn listed<'a, I: Iterator<Item = (&'a String, &'a String)>>(it: I) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = it.map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    v
}
fn layer(own: &M, def: &M) -> Vec<(String, String)> {
    let mut m = def.clone();
    for (k, v) in own { m.insert(k.clone(), v.clone()); }
    m.into_iter().collect()
}
enum Either { T(Telemetry), L(LogLine) }
fn step(r: &mut Rng, e: Either, own: &mut M, log: &mut String) -> Result<Either, String> {
    let k = key(r);
    let v = val(r);
    let op = r.below(5);
    let mut e = e;
    let res = match op {
        0 => {
            log.push_str(&format!("insert {:?}={:?} ", k, v));
            let got = match e { Either::T(ref mut t) => t.insert_tag(k.clone(), v.clone()), Either::L(ref mut l) => l.insert_tag(k.clone(), v.clone()) };
            let want = own.insert(k, v);
            if got != want { return Err(format!("insert_tag answered {:?}, not {:?}", got, want)); }
            e
        }
        1 => {
            log.push_str(&format!("remove {:?} ", k));
            let got = match e { Either::T(ref mut t) => t.remove_tag(&k), Either::L(ref mut l) => l.remove_tag(&k) };
            let want = own.remove(&k);
            if got != want { return Err(format!("remove_tag answered {:?}, not {:?}", got, want)); }
            e
        }
        2 => {
            log.push_str(&format!("overlay {:?}={:?} ", k, v));
            own.insert(k.clone(), v.clone());
            match e { Either::T(t) => Either::T(t.overlay_tag(k, v)), Either::L(l) => Either::L(l.overlay_tag(k, v)) }
        }
        3 => {
            let m = rand_map(r);
            log.push_str(&format!("overlay map {:?} ", m));
            for (k, v) in &m { own.insert(k.clone(), v.clone()); }
            let t = build(r, &m);
            match e { Either::T(x) => Either::T(x.overlay_tags_from_map(&t)), Either::L(l) => Either::L(l.overlay_tags_from_map(&t)) }
        }
        _ => {
            let m = rand_map(r);
            log.push_str(&format!("look with defaults {:?} ", m));
            let d = build(r, &m);
            let got = match e { Either::T(ref t) => listed(t.tags(&d)), Either::L(ref l) => listed(l.tags(&d)) };
            let want = layer(own, &m);
            if got != want { return Err(format!("tags with defaults {:?} are {:?}, expected {:?}", m, got, want)); }
            let k = key(r);
            let got = match e { Either::T(ref mut t) => t.get_from_tags(&k, &d).cloned(), Either::L(ref mut l) => l.get_from_tags(&k, &d).cloned() };
            let want = own.get(&k).or_else(|| m.get(&k)).cloned();
            if got != want { return Err(format!("get_from_tags({:?}) is {:?}, expected {:?}", k, got, want)); }
            e
        }
    };
    Ok(res)
}
fn history(r: &mut Rng) -> Res {
    let point = r.chance(1, 2);
    let mut own = M::new();
    let mut e = if point {
        Either::T(Telemetry::new().name("n").value(3.0).timestamp(77).persist(true).kind(AggregationMethod::Set).harden().unwrap())
    } else {
        let mut l = LogLine::new("p", "v").time(77);
        l = l.insert_field("f", "g");
        Either::L(l)
    };
    let mut log = format!("{} ", if point { "point:" } else { "line:" });
    for _ in 0..r.size(11, 100) {
        note(&log);
        e = match step(r, e, &mut own, &mut log) { Ok(e) => e, Err(m) => return fail("tag-history", log, m) };
        let none: TagMap = Default::default();
        let got = match e { Either::T(ref t) => listed(t.tags(&none)), Either::L(ref l) => listed(l.tags(&none)) };
        let want: Vec<(String, String)> = own.clone().into_iter().collect();
        if got != want { return fail("tag-history", log, format!("the tags are {:?}, expected {:?}", got, want)); }
        let same = match e {
            Either::T(ref t) => t.name == "n" && t.timestamp == 77 && t.persist && t.set() == Some(3.0),
            Either::L(ref l) => l.path == "p" && l.value == "v" && l.time == 77 && l.fields.len() == 1 && l.fields.get("f") == Some(&"g".to_string()),
        };
        if !same { return fail("tag-frame", log, "something else than the tags changed".into()); }
    }
    ok(log, true)
}
fn point(r: &mut Rng, name: &str, m: Option<&M>, ts: i64, k: AggregationMethod, v: f64) -> Telemetry {
    let t = Telemetry::new().name(name).value(v).timestamp(ts).kind(k).harden().unwrap();
    match m { Some(m) => { let b = build(r, m); t.overlay_tags_from_map(&b) } None => t }
}
fn alike(r: &mut Rng) -> Res {
    let m = rand_map(r);
    let mut n = rand_map(r);
    if r.chance(1, 2) {
        // nearly the same
        n = m.clone();
        n.insert(key(r), val(r));
        // the same letters, divided in another way between key and value
        if let Some((k, v)) = m.iter().next() {
            if !v.is_empty() && r.chance(1, 3) {
                let mut cs = v.chars();
                let c = cs.next().unwrap();
                n = m.clone();
                n.remove(k);
                n.insert(format!("{}{}", k, c), cs.collect());
            }
        }
    }
    let k = match r.below(4) { 0 => AggregationMethod::Set, 1 => AggregationMethod::Sum, 2 => AggregationMethod::Histogram, _ => AggregationMethod::Summarize };
    let k2 = match r.below(4) { 0 => AggregationMethod::Set, 1 => AggregationMethod::Sum, 2 => AggregationMethod::Histogram, _ => AggregationMethod::Summarize };
    let a = point(r, "x", Some(&m), 10, k, 1.0);
    let b = point(r, "x", Some(&m), 10, k, 2.0);
    let c = point(r, "x", Some(&n), 10, k, 1.0);
    let d = point(r, "x", Some(&m), 10, k2, 2.0);
    let desc = format!("tags {:?} and {:?} kinds {:?} {:?}", m, n, k, k2);
    note(&desc);
    if a.name_tag_hash() != b.name_tag_hash() || a.name_tag_hash() != d.name_tag_hash() { return fail("alike-hash", desc, "points with equal name and tags hash differently".into()); }
    if a.hash() != b.hash() { return fail("alike-hash", desc, "points alike hash differently".into()); }
    if (a.hash() == d.hash()) != (k == k2) { return fail("kind-hash", desc, "the hash does not tell kinds apart".into()); }
    if a.partial_cmp(&b) != Some(Ordering::Equal) { return fail("alike-compare", desc, format!("points alike compare {:?}", a.partial_cmp(&b))); }
    let none = point(r, "x", None, 10, k, 1.0);
    if !m.is_empty() && none.name_tag_hash() == a.name_tag_hash() { return fail("alike-hash", desc, "tags do not count in the hash".into()); }
    if m != n {
        if a.name_tag_hash() == c.name_tag_hash() { return fail("differ-hash", desc, "points of different tags hash alike".into()); }
        if !m.is_empty() && !n.is_empty() {
            if a.partial_cmp(&c) == Some(Ordering::Equal) { return fail("differ-compare", desc, "points of different tags compare equal".into()); }
            if a.partial_cmp(&c) != c.partial_cmp(&a).map(|o| o.reverse()) { return fail("differ-compare", desc, "comparison is not antisymmetric".into()); }
        }
    }
    for (nm, ts) in &[("y", 10), ("x", 11), ("w", 9)] {
        let e = point(r, nm, Some(&m), *ts, k, 1.0);
        let want = if *nm != "x" { "x".cmp(nm) } else { 10.cmp(ts) };
        if a.partial_cmp(&e) != Some(want) { return fail("order", desc, format!("a point compares {:?} with one named {} at {}", a.partial_cmp(&e), nm, ts)); }
        if (a.name_tag_hash() == e.name_tag_hash()) != (*nm == "x") { return fail("name-hash", desc, "the hash does not follow the name".into()); }
    }
    ok(desc, m.len() > 1)
}
fn main() {
    wit::main(&[Case { name: "history", every: 1, run: history }, Case { name: "alike", every: 1, run: alike }]);
}
