pub mod verif {
    use super::*;
    use crate::metric::AggregationMethod;
    use crate::wit::*;
    use std::collections::HashMap as Map;
    use std::io::Read;
    use std::net::{Shutdown, TcpListener};

    fn sink(r: &mut Rng, port: u16) -> Wavefront {
        let mut ps = Vec::new();
        for p in &[("min", 0.0), ("50", 0.5), ("99", 0.99), ("max", 1.0)] { if r.chance(1, 2) { ps.push((p.0.to_string(), p.1)); } }
        let mut b = |n| r.chance(n, 4);
        let pad = PadControl { set: b(3), sum: b(3), summarize: b(3), histogram: b(3) };
        Wavefront::init(WavefrontConfig {
            bin_width: *r.pick(&[1, 1, 2, 10]), host: "127.0.0.1".to_string(), port: port, config_path: None, percentiles: ps,
            tags: crate::tags(r), flush_interval: 7, pad_control: pad, age_threshold: *r.pick(&[None, None, None, Some(0), Some(100), Some(u64::max_value())]),
        })
    }
    fn point(r: &mut Rng, base: i64) -> Telemetry {
        let odd = [0.0, 1.5, -2.25, 1e300, 0.1, 3.0, 100.0, 1.0, 1.0];
        let n = *r.pick(&["a", "b"]);
        let t = match r.below(5) {
            0 => Telemetry::new().name(format!("{}.sum", n)).kind(AggregationMethod::Sum).value(if r.chance(1, 9) { std::f64::NAN } else { *r.pick(&odd) }),
            1 => Telemetry::new().name(format!("{}.set", n)).kind(AggregationMethod::Set).value(if r.chance(1, 9) { std::f64::INFINITY } else { *r.pick(&odd) }),
            2 => Telemetry::new().name(format!("{}.hist", n)).kind(AggregationMethod::Histogram).bounds(vec![-1.0, 2.0, 50.0]).value(*r.pick(&odd)),
            3 => Telemetry::new().name(format!("{}.quant", n)).kind(AggregationMethod::Summarize).error(0.01).value(*r.pick(&odd)),
            _ => Telemetry::new().name("mixed").kind(*r.pick(&[AggregationMethod::Set, AggregationMethod::Sum])).value(*r.pick(&odd)),
        };
        let at = match r.below(40) { 0 => i64::max_value(), 1 => i64::min_value(), 2 => -base, 3 => i64::max_value() - 3, 4 => i64::min_value() + 30, _ => base + r.range(0, 40) };
        let mut t = t.timestamp(at).harden().unwrap();
        if r.chance(1, 3) { t = t.overlay_tag(if r.chance(1, 3) { r.text(" kl\"=\n", 0, 3, |_| true) } else { "k".to_string() }, if r.chance(1, 2) { r.text(" xy\"=\n", 0, 3, |_| true) } else { "x".to_string() }); }
        if t.kind() == AggregationMethod::Summarize && r.chance(1, 12) { for _ in 0..r.size(400, 3000) { t = t.insert(r.range(-400, 400) as f64 / 2.0); } }
        if r.chance(1, 3) { t.persist = !t.persist; }
        t
    }
    fn value_lines(t: &Telemetry, zero: Option<i64>, over: &TagMap, ps: &[(String, f64)]) -> String {
        let ts = zero.unwrap_or(t.timestamp);
        let tags: Vec<String> = t.tags(over).map(|(k, v)| format!("{}={}", k, v)).collect();
        let line = |n: &str, v: String| format!("{}{} {} {} {}\n", t.name, n, v, ts, tags.join(" "));
        let mut s = String::new();
        match t.kind() {
            AggregationMethod::Sum => s += &line("", if zero.is_some() { "0".to_string() } else { t.sum().unwrap().to_string() }),
            AggregationMethod::Set => s += &line("", if zero.is_some() { "0".to_string() } else { t.set().unwrap().to_string() }),
            AggregationMethod::Histogram => {
                let mut found = false;
                for &(b, c) in t.bins().unwrap() {
                    let name = match b { Bound::Finite(x) => format!("_{}", x), Bound::PosInf => "_pos_inf".to_string() };
                    let here = !found && match b { Bound::Finite(x) => x >= 0.0, Bound::PosInf => true };
                    if here { found = true; }
                    s += &line(&name, if zero.is_some() { if here { "1" } else { "0" }.to_string() } else { c.to_string() });
                }
            }
            AggregationMethod::Summarize => {
                for p in ps { s += &line(&format!(".{}", p.0), if zero.is_some() { "0".to_string() } else { t.query(p.1).unwrap().to_string() }); }
                s += &line(".count", if zero.is_some() { "1".to_string() } else { t.count().to_string() });
                s += &line(".mean", if zero.is_some() { "0".to_string() } else { t.mean().to_string() });
            }
        }
        s
    }
    fn expected(s: &Wavefront, held: &[Telemetry], seen: &mut Map<u64, i64>) -> String {
        let wide = |a: i64, b: i64| (a as i128 - b as i128).abs() / s.bin_width as i128 > 1;
        let mut out = String::new();
        let mut now: Map<u64, i64> = Map::new();
        let mut flagged: Vec<u64> = Vec::new();
        for (i, t) in held.iter().enumerate() {
            let h = t.hash();
            let pads = match t.kind() {
                AggregationMethod::Sum => s.pad_control.sum, AggregationMethod::Set => s.pad_control.set,
                AggregationMethod::Histogram => s.pad_control.histogram, AggregationMethod::Summarize => s.pad_control.summarize,
            };
            let mut put = |t: &Telemetry, z: Option<i64>, o: &mut String| {
                *o += &value_lines(t, z, &s.tags, &s.percentiles);
                now.insert(t.hash(), z.unwrap_or(t.timestamp));
            };
            let mut late = false;
            if pads && !flagged.contains(&h) {
                if let Some(&l) = seen.get(&h) {
                    if t.timestamp > l {
                        flagged.push(h);
                        if wide(t.timestamp, l) {
                            put(t, Some(l + 1), &mut out);
                            put(t, Some(t.timestamp - 1), &mut out);
                        }
                    } else { late = true; }
                }
            }
            put(t, None, &mut out);
            if pads && !late && i + 1 < held.len() && held[i + 1].hash() == h && wide(t.timestamp, held[i + 1].timestamp) {
                put(t, Some(t.timestamp + 1), &mut out);
                put(&held[i + 1], Some(held[i + 1].timestamp - 1), &mut out);
            }
        }
        for (h, t) in now { let e = seen.entry(h).or_insert(t); *e = (*e).max(t); }
        out
    }
    fn give(r: &mut Rng, s: &mut Wavefront, like: &mut buckets::Buckets, d: &mut String) {
        let base = if s.age_threshold.is_some() { time::now() - 20 } else { *r.pick(&[100, 100, 100, 160, 0, -20]) };
        for _ in 0..r.below(12) {
            let t = point(r, base);
            *d += &format!(" {:?} {} at {} {};", t.kind(), t.name, t.timestamp, crate::value(&t));
            note(d);
            let far = (t.timestamp as i128 - time::now() as i128).abs();
            if s.age_threshold.map_or(true, |a| far <= a as i128) { like.add(t.clone()); }
            s.deliver(t);
        }
    }
    fn look(b: &mut buckets::Buckets) -> Vec<(String, i64, AggregationMethod, String, bool)> {
        b.iter().map(|t| (t.name.clone(), t.timestamp, t.kind(), crate::value(t), t.persist)).collect()
    }
    fn unlike(a: &str, b: &str) -> String {
        for (x, y) in a.lines().zip(b.lines()) { if x != y { return format!("wrote {:?} where {:?} was due", x, y); } }
        format!("wrote {} lines where {} were due", a.lines().count(), b.lines().count())
    }
    /// what several rounds of points have it write
    pub fn lines(r: &mut Rng) -> Res {
        let mut s = sink(r, 1);
        let mut like = buckets::Buckets::new(s.bin_width);
        let mut seen = Map::new();
        let mut d = format!("width {} pad {:?} age {:?} tags {:?}:", s.bin_width, s.pad_control, s.age_threshold, s.tags);
        let mut big = 0;
        for _ in 0..1 + r.below(4) {
            give(r, &mut s, &mut like, &mut d);
            if look(&mut s.aggrs) != look(&mut like) { return fail("held", d, "the sink does not hold the points it was given".to_string()); }
            d += " flush;";
            note(&d);
            let held: Vec<Telemetry> = like.iter().cloned().collect();
            let want = expected(&s, &held, &mut seen);
            if want.len() > big { big = want.len(); }
            s.format_stats();
            if s.stats != want { let m = unlike(&s.stats, &want); return fail("lines", d, m); }
            s.stats.clear();
            like.reset();
            if look(&mut s.aggrs) != look(&mut like) { return fail("left", d, "a flush leaves other points than the persistent ones".to_string()); }
        }
        ok(d, big > 0)
    }
    /// that a flush writes it whole, once, on a connection that works
    pub fn wire(r: &mut Rng) -> Res {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let mut s = sink(r, port);
        if s.stream.is_none() { return fail("connect", format!("a listener on port {}", port), "not connected at first".to_string()); }
        let (mut peer, _) = l.accept().unwrap();
        let mut like = buckets::Buckets::new(s.bin_width);
        let mut seen = Map::new();
        let mut d = format!("width {} pad {:?}:", s.bin_width, s.pad_control);
        let mut due = String::new();
        let mut any = false;
        let rounds = 1 + r.below(4);
        for step in 0..rounds {
            give(r, &mut s, &mut like, &mut d);
            let held: Vec<Telemetry> = like.iter().cloned().collect();
            let cut = r.chance(1, 2) && held.len() > 0;
            if cut {
                d += " the connection fails;";
                s.stream.as_ref().unwrap().shutdown(Shutdown::Write).unwrap();
                let mut got = String::new();
                peer.read_to_string(&mut got).unwrap();
                if got != due { let m = unlike(&got, &due); return fail("wire", d, m); }
                due.clear();
            }
            d += " flush;";
            note(&d);
            due += &expected(&s, &held, &mut seen);
            any = any || due.len() > 0;
            let last = step + 1 == rounds && r.chance(1, 2);
            if last {
                let e = sink(r, 1);
                std::mem::replace(&mut s, e).shutdown();
            } else {
                s.flush();
                if s.stats != "" || s.delivery_attempts != 0 { return fail("kept", d, format!("after a flush {:?} is kept, with {} delivery attempts", s.stats, s.delivery_attempts)); }
                like.reset();
                if look(&mut s.aggrs) != look(&mut like) { return fail("left", d, "a flush leaves other points than the persistent ones".to_string()); }
            }
            if cut { peer = l.accept().unwrap().0; }
            if last { break; }
        }
        if let Some(ref x) = s.stream { x.shutdown(Shutdown::Write).unwrap(); }
        drop(s);
        let mut got = String::new();
        peer.read_to_string(&mut got).unwrap();
        if got != due { let m = unlike(&got, &due); return fail("wire", d, m); }
        ok(d, any)
    }
    /// a peer that leaves in the midst of what it is sent, again and again
    pub fn leaving(r: &mut Rng) -> Res {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let mut s = sink(r, l.local_addr().unwrap().port());
        s.age_threshold = None;
        s.tags = TagMap::default();
        s.tags.insert("t".to_string(), "x".repeat(300_000));
        let mut like = buckets::Buckets::new(s.bin_width);
        for i in 0..30 {
            let t = Telemetry::new().name("n").timestamp(100 + i * s.bin_width).value(i as f64).kind(AggregationMethod::Set).harden().unwrap();
            like.add(t.clone());
            s.deliver(t);
        }
        let drops = r.below(7);
        let d = format!("30 lines of 300000 bytes to a peer that leaves {} times", drops);
        note(&d);
        let held: Vec<Telemetry> = like.iter().cloned().collect();
        let due = expected(&s, &held, &mut Map::new());
        let h = std::thread::spawn(move || {
            for _ in 0..drops {
                let mut c = l.accept().unwrap().0;
                let _ = c.read(&mut [0u8; 3000]);
            }
            let mut c = l.accept().unwrap().0;
            let mut got = String::new();
            c.read_to_string(&mut got).map(|_| got).unwrap_or_default()
        });
        s.flush();
        if s.stats != "" || s.delivery_attempts != 0 { return fail("kept", d, format!("after a flush {} bytes are kept, with {} delivery attempts", s.stats.len(), s.delivery_attempts)); }
        drop(s);
        let got = h.join().unwrap();
        if got != due { return fail("wire", d, format!("{} bytes arrive where {} were due", got.len(), due.len())); }
        ok(d, true)
    }
    pub fn valve(r: &mut Rng) -> Res {
        let mut s = sink(r, 1);
        s.age_threshold = None;
        for n in 0..10_003i64 {
            if n % 5 != 0 || n > 9_990 {
                let closed = match s.valve_state() { Valve::Closed => true, Valve::Open => false };
                if closed != (n > 10_000) { return fail("valve", format!("{} points held", n), format!("valve closed: {}", closed)); }
            }
            s.deliver(Telemetry::new().name(format!("n{}", n % 7)).value(1.0).timestamp(n * s.bin_width).harden().unwrap());
        }
        ok("valve".to_string(), true)
    }
}
