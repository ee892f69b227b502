pub mod verif {
    use super::*;
    use crate::metric::AggregationMethod;
    use crate::wit::*;
    use reqwest::{POSTED, SCRIPT};

    fn sink(r: &mut Rng) -> InfluxDB {
        InfluxDB::init(InfluxDBConfig { host: "h".to_string(), flush_interval: 7, tags: crate::tags(r), ..Default::default() })
    }
    fn expected(ts: &[Telemetry], over: &TagMap) -> String {
        let mut s = String::new();
        for t in ts {
            let mut tags = String::new();
            for (k, v) in t.tags(over) { tags += &format!(",{}={}", k, v); }
            let ns = (t.timestamp as i128 * 1_000_000_000).max(i64::min_value() as i128).min(i64::max_value() as i128);
            let mut put = |n: String, v: f64| if v.is_finite() { s += &format!("{}{} value={} {}\n", n, tags, v, ns) };
            match t.kind() {
                AggregationMethod::Sum => put(t.name.clone(), t.sum().unwrap()),
                AggregationMethod::Set => put(t.name.clone(), t.set().unwrap()),
                AggregationMethod::Histogram => for &(b, c) in t.bins().unwrap() {
                    put(match b { Bound::Finite(x) => format!("{}.le_{}", t.name, x), Bound::PosInf => format!("{}.le_inf", t.name) }, c as f64)
                },
                AggregationMethod::Summarize => for q in &[0.25, 0.5, 0.75, 0.9, 0.99, 1.0] { if let Some(v) = t.query(*q) { put(format!("{}.{}", t.name, q), v) } },
            }
        }
        s
    }
    pub fn run(r: &mut Rng) -> Res {
        let big_run = r.chance(1, 50);
        let mut s = sink(r);
        let mut held: Vec<Telemetry> = Vec::new();
        let mut d = format!("tags {:?}:", s.tags);
        let mut big = 0;
        for step in 0..1 + r.below(4) {
            for _ in 0..r.below(if big_run { 1300 } else { 8 }) {
                let t = crate::point(r, &[0, 1, 1, 1, 1_542_000_000, -1, -86_400, i64::max_value(), i64::min_value()]);
                d += &format!(" {:?} {} at {} {};", t.kind(), t.name, t.timestamp, crate::value(&t));
                if d.len() < 5000 { note(&d); }
                held.push(t.clone());
                s.deliver(t);
            }
            let look = |v: &Vec<Telemetry>| v.iter().map(|t| (t.name.clone(), t.timestamp, t.kind(), crate::value(t), t.persist)).collect::<Vec<_>>();
            if look(&s.aggrs) != look(&held) { return fail("held", d, "the sink does not hold the points it was given".to_string()); }
            if let Valve::Closed = s.valve_state() { return fail("valve", d, "the valve is closed".to_string()); }
            let last = step > 0 && r.chance(1, 3);
            let mut script: Vec<Option<u16>> = (0..r.size(3, 9)).map(|_| *r.pick(&[None, Some(400), Some(404), Some(500), Some(503), Some(302)])).collect();
            let n = script.len();
            script.push(Some(*r.pick(&[200, 204])));
            d += &format!(" flush answered {:?};", script);
            note(&d);
            SCRIPT.with(|x| *x.borrow_mut() = script.into_iter().collect());
            POSTED.with(|x| x.borrow_mut().clear());
            let want = expected(&held, &s.tags);
            if want.len() > big { big = want.len(); }
            if last { let e = sink(r); std::mem::replace(&mut s, e).shutdown(); } else {
                s.flush();
                if !s.aggrs.is_empty() { return fail("not-emptied", d, "points are still held after they were accepted".to_string()); }
            }
            let posts = POSTED.with(|x| x.borrow().clone());
            if posts.len() != n + 1 { return fail("posts", d, format!("{} posts, where {} were to be made until one is accepted", posts.len(), n + 1)); }
            for p in &posts {
                if p.1 != want { return fail("payload", d, format!("posted {:?} instead of {:?}", p.1, want)); }
                if p.0 != "https://h:8086/write?db=cernan" { return fail("uri", d, format!("posted to {}", p.0)); }
            }
            held.clear();
            if last { break; }
        }
        ok(d, big > 0)
    }
    pub fn valve(r: &mut Rng) -> Res {
        let mut s = sink(r);
        let t = Telemetry::new().name("n").value(1.0).timestamp(1).harden().unwrap();
        s.aggrs = vec![t.clone(); 99_999];
        for n in 99_999..100_003 {
            let closed = match s.valve_state() { Valve::Closed => true, Valve::Open => false };
            if closed != (n > 100_000) { return fail("valve", format!("{} points held", n), format!("valve closed: {}", closed)); }
            s.deliver(t.clone());
        }
        SCRIPT.with(|x| x.borrow_mut().clear());
        s.flush();
        POSTED.with(|x| x.borrow_mut().clear());
        if let Valve::Closed = s.valve_state() { return fail("valve", "after a flush".to_string(), "the valve is closed".to_string()); }
        ok("valve".to_string(), true)
    }
}
