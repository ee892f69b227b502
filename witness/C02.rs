// C02: combining points and building them, against exact values kept outside.
extern crate cernan;
#[path = "wit.rs"]
mod wit;
#[path = "model.rs"]
mod model;
use cernan::metric::{AggregationMethod, TagMap, Telemetry};
use model::*;
use wit::*;

fn tags(t: &Telemetry) -> Vec<(String, String)> {
    let none = TagMap::default();
    let mut v: Vec<(String, String)> = t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    v
}
fn num(r: &mut Rng) -> f64 {
    // halves: every sum below is exact whatever the order
    match r.below(7) { 0 => 0.0, 1 => *r.pick(&[1.0, 10.0, 100.0]), 2 => (r.num() % (1 << 40)) as f64, _ => r.range(-300, 400) as f64 / 2.0 }
}
fn with_sample(v: &V, x: f64) -> V {
    match v {
        V::Set(_) => V::Set(x),
        V::Sum(s) => V::Sum(s + x),
        V::Hist(a) => { let mut a = a.clone(); a.push(x); V::Hist(a) }
        V::Quant(a) => { let mut a = a.clone(); a.push(x); V::Quant(a) }
    }
}
/// odd: sums and sets of values that are no plain numbers
fn fresh(r: &mut Rng, odd: bool) -> (Telemetry, V, String) {
    let k = r.below(if odd { 2 } else { 4 });
    let x = if odd && r.chance(1, 2) { *r.pick(&[std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY, -0.0, 1e308, -1e308, 1e-300]) } else { num(r) };
    let v = match k { 0 => V::Set(x), 1 => V::Sum(x), 2 => V::Hist(vec![x]), _ => V::Quant(vec![x]) };
    let mut s = Telemetry::new().name(if r.chance(1, 6) { r.text("ab. /", 0, 6, |_| true) } else { r.pick(&["a", "b", ""]).to_string() }).value(x).kind(kind(&v));
    if let V::Hist(_) = v {
        let mut b = BOUNDS.to_vec();
        r.shuffle(&mut b);
        s = s.bounds(b);
    }
    if let V::Quant(_) = v { if r.chance(1, 2) { s = s.error(0.001); } }
    s = s.timestamp(if r.chance(1, 4) { r.num() } else { *r.pick(&[0, 1, -5, 1_500_000_000, i64::max_value()]) });
    if r.chance(1, 2) { s = s.persist(r.chance(1, 2)); }
    if r.chance(1, 2) {
        let mut m = TagMap::default();
        for _ in 0..r.below(3) { m.insert(r.string("kl", 1, 1), r.string("vw", 1, 2)); }
        s = s.tags(m);
    }
    let mut t = s.harden().unwrap();
    let mut v = v;
    let mut d = format!("{:?}", v);
    for _ in 0..(if r.chance(1, 20) { r.below(400) } else { r.below(5) }) {
        let x = num(r);
        t = t.insert(x);
        v = with_sample(&v, x);
    }
    d.push_str(&format!(" then {:?} persist={} ts={}", v, t.persist, t.timestamp));
    (t, v, d)
}
fn combine(r: &mut Rng) -> Res {
    let odd = r.chance(1, 8);
    let (mut a, mut va, mut desc) = fresh(r, odd);
    note(&desc);
    if !holds(&a, &va) { return fail("insert", desc, format!("the point holds {:?} {:?} n={} sum={:?}", a.set(), a.sum(), a.count(), a.samples_sum())); }
    for _ in 0..1 + r.size(2, 30) {
        let (b, vb, d) = fresh(r, odd);
        desc.push_str(&format!(" += {}", d));
        note(&desc);
        if !holds(&b, &vb) { return fail("insert", desc, format!("the point holds {:?} {:?} n={} sum={:?}", b.set(), b.sum(), b.count(), b.samples_sum())); }
        let (name, tg, ts) = (a.name.clone(), tags(&a), a.timestamp);
        let persist = b.persist;
        a += b;
        va = plus(&va, &vb);
        if !holds(&a, &va) {
            return fail("combine", desc, format!("{:?} is due, the point holds {:?} set={:?} sum={:?} n={} samples_sum={:?} samples={:?}", va, a.kind(), a.set(), a.sum(), a.count(), a.samples_sum(), a.samples()));
        }
        if a.persist != persist { return fail("combine-persist", desc, format!("persist={} but the later-added point has {}", a.persist, persist)); }
        if (a.name.clone(), tags(&a), a.timestamp) != (name, tg, ts) { return fail("combine-identity", desc, "name, tags or timestamp changed".into()); }
        if let V::Quant(xs) = &va {
            if xs.len() < 200 {
                let mut s = xs.clone();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if a.query(1.0) != s.last().cloned() || a.query(0.0) != s.first().cloned() {
                    return fail("query", desc, format!("extremes are {:?}, {:?}; queried {:?}, {:?}", s.first(), s.last(), a.query(0.0), a.query(1.0)));
                }
                let m = s.iter().sum::<f64>() / s.len() as f64;
                let most = s.iter().fold(1.0f64, |a, x| a.max(x.abs()));
                if (a.mean() - m).abs() > 1e-6 * most { return fail("mean", desc, format!("mean {} is due, got {}", m, a.mean())); }
            }
        }
        if a.is_zeroed() != (match &va { V::Set(x) | V::Sum(x) => *x == 0.0, V::Hist(x) | V::Quant(x) => x.is_empty() }) {
            return fail("zeroed", desc, format!("is_zeroed()={}", a.is_zeroed()));
        }
        if (a.is_set(), a.is_sum(), a.is_histogram(), a.is_summarize()) != (kind(&va) == AggregationMethod::Set, kind(&va) == AggregationMethod::Sum, kind(&va) == AggregationMethod::Histogram, kind(&va) == AggregationMethod::Summarize) {
            return fail("is-kind", desc, "is_set / is_sum / is_histogram / is_summarize disagree with the kind".into());
        }
        // opened and closed again it is the same point
        if r.chance(1, 3) {
            let before = (a.name.clone(), tags(&a), a.timestamp, a.persist);
            a = a.thaw().harden().unwrap();
            if !holds(&a, &va) || before != (a.name.clone(), tags(&a), a.timestamp, a.persist) {
                return fail("thaw", desc, "thaw and harden changed the point".into());
            }
        }
    }
    ok(desc, true)
}
fn builder(r: &mut Rng) -> Res {
    let mut s = Telemetry::new();
    let mut desc = String::new();
    let (mut name, mut val, mut k, mut err, mut bounds, mut ts, mut tg, mut persist, mut cnt, mut ss) = (None, None, None, None, None, None, None, None, None, None);
    for _ in 0..r.size(9, 60) {
        match r.below(13) {
            0 | 1 => { let n = r.string("ab", 0, 3); desc.push_str(&format!(".name({:?})", n)); name = Some(n.clone()); s = s.name(n); }
            2 | 3 => { let x = num(r); desc.push_str(&format!(".value({:?})", x)); val = Some(x); s = s.value(x); }
            4 | 5 => {
                let m = *r.pick(&[AggregationMethod::Set, AggregationMethod::Sum, AggregationMethod::Histogram, AggregationMethod::Summarize]);
                desc.push_str(&format!(".kind({:?})", m)); k = Some(m); s = s.kind(m);
            }
            6 => { let e = *r.pick(&[0.001, 0.5, 0.99, 1.0, 2.0]); desc.push_str(&format!(".error({})", e)); err = Some(e); s = s.error(e); }
            7 => { desc.push_str(".clear_error()"); err = None; s = s.clear_error(); }
            8 => { let mut b = BOUNDS.to_vec(); r.shuffle(&mut b); desc.push_str(&format!(".bounds({:?})", b)); bounds = Some(()); s = s.bounds(b); }
            9 => { let t = *r.pick(&[0, -1, 77, i64::min_value()]); desc.push_str(&format!(".timestamp({})", t)); ts = Some(t); s = s.timestamp(t); }
            10 => {
                let mut m = TagMap::default();
                m.insert(r.string("kl", 1, 1), r.string("vw", 1, 2));
                let mut l: Vec<(String, String)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                l.sort();
                desc.push_str(&format!(".tags({:?})", l)); tg = Some(l); s = s.tags(m);
            }
            11 => { let p = r.chance(1, 2); desc.push_str(&format!(".persist({})", p)); persist = Some(p); s = s.persist(p); }
            _ => if r.chance(1, 2) { desc.push_str(".count(9)"); cnt = Some(9); s = s.count(9); } else { desc.push_str(".sample_sum(2.5)"); ss = Some(2.5); s = s.sample_sum(2.5); },
        }
        note(&desc);
    }
    let kd = k.unwrap_or(AggregationMethod::Set);
    let sound = name.is_some() && val.is_some() && match kd {
        AggregationMethod::Set | AggregationMethod::Sum => err.is_none() && bounds.is_none(),
        AggregationMethod::Histogram => err.is_none(),
        AggregationMethod::Summarize => bounds.is_none() && err.map(|e: f64| e < 1.0).unwrap_or(true),
    };
    let now0 = cernan::time::now();
    let res = s.harden();
    let now1 = cernan::time::now();
    match res {
        Err(e) => if sound { return fail("harden-refused", desc, format!("refused: {:?}", e)); },
        Ok(t) => {
            if !sound { return fail("harden-accepted", desc, "a point without name or value, or with settings of another kind, was made".into()); }
            let x = val.unwrap();
            let v = match kd { AggregationMethod::Set => V::Set(x), AggregationMethod::Sum => V::Sum(x), AggregationMethod::Histogram => V::Hist(vec![x]), AggregationMethod::Summarize => V::Quant(vec![x]) };
            let over = kd == AggregationMethod::Summarize && (cnt.is_some() || ss.is_some());
            let valued = if over {
                t.kind() == kd && t.count() == cnt.map(|c: u64| c as usize).unwrap_or(1) && t.samples_sum() == Some(ss.unwrap_or(x)) && t.samples() == vec![x]
            } else if kd == AggregationMethod::Histogram && bounds.is_none() {
                t.kind() == kd && t.count() == 1 && t.samples_sum() == Some(x) && t.bins().unwrap().map(|b| b.1).collect::<Vec<usize>>()
                    == vec![(x <= 1.0) as usize, (x > 1.0 && x <= 10.0) as usize, (x > 10.0 && x <= 100.0) as usize, (x > 100.0 && x <= 1000.0) as usize, (x > 1000.0) as usize]
            } else { holds(&t, &v) };
            if !valued { return fail("harden-value", desc, format!("{:?} is due, the point holds {:?} set={:?} sum={:?} n={} samples_sum={:?}", v, t.kind(), t.set(), t.sum(), t.count(), t.samples_sum())); }
            let tsok = match ts { Some(x) => t.timestamp == x, None => now0 <= t.timestamp && t.timestamp <= now1 };
            if t.name != name.clone().unwrap() || tags(&t) != tg.clone().unwrap_or_default() || !tsok || t.persist != persist.unwrap_or(false) {
                return fail("harden-parts", desc, format!("made name={:?} tags={:?} ts={} persist={}", t.name, tags(&t), t.timestamp, t.persist));
            }
        }
    }
    ok(desc, sound)
}
/// histograms of one series need not have the same bounds
fn bins(_: &mut Rng) -> Res {
    let h = |b: Vec<f64>| Telemetry::new().name("n").kind(AggregationMethod::Histogram).bounds(b).value(5.0).harden().unwrap();
    let (mut a, b) = (h(vec![1.0, 10.0]), h(vec![1.0, 10.0, 100.0]));
    let d = "bounds [1,10] and [1,10,100]".to_string();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || a += b)) {
        Ok(_) => ok(d, true),
        Err(_) => fail("histogram-bins", d, "combining histograms of different bounds panics".to_string()),
    }
}
fn main() { wit::main(&[Case { name: "bins", every: 20000, run: bins }, Case { name: "combine", every: 1, run: combine }, Case { name: "builder", every: 1, run: builder }]); }
