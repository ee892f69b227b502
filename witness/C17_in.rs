pub mod verif {
    use super::*;
    use crate::wit::*;
    use flate2::read::GzDecoder;
    use std::collections::BTreeMap;
    use std::io::Read;
    use std::net::{TcpListener, TcpStream};

    /// what is to be kept of a name
    #[derive(Clone)]
    enum Kept { Point(Telemetry), Window { sum: f64, count: u64, seconds: Vec<Telemetry> } }
    type Model = BTreeMap<String, Kept>;
    fn take(m: &mut Model, t: &Telemetry, cap: usize) -> bool {
        let summary = t.kind() == AggregationMethod::Summarize;
        let (n, s) = (t.count() as u64, t.samples_sum().unwrap_or(0.0));
        match m.get_mut(&t.name) {
            None => {
                let k = if summary { Kept::Window { sum: s, count: n, seconds: if cap > 0 { vec![t.clone()] } else { vec![] } } } else { Kept::Point(t.clone()) };
                m.insert(t.name.clone(), k);
                true
            }
            Some(Kept::Point(p)) => if p.kind() == t.kind() { *p += t.clone(); true } else { false },
            Some(Kept::Window { sum, count, seconds }) => {
                if !summary { return false; }
                *count += n;
                *sum += s;
                match seconds.iter().position(|x| x.timestamp == t.timestamp) {
                    Some(i) => seconds[i] += t.clone(),
                    None => {
                        seconds.push(t.clone());
                        seconds.sort_by_key(|x| x.timestamp);
                        while seconds.len() > cap { seconds.remove(0); }
                    }
                }
                true
            }
        }
    }
    fn look(t: &Telemetry) -> String {
        let none = TagMap::default();
        let mut tags: Vec<_> = t.tags(&none).map(|(k, v)| (k.clone(), v.clone())).collect();
        tags.sort();
        format!("{} {:?} {} n={} sum={:?} p={} at {} {:?}", t.name, t.kind(), crate::value(t), t.count(), t.samples_sum(), t.persist, t.timestamp, tags)
    }
    fn same(a: &PrometheusAggr, m: &Model) -> Result<(), String> {
        if a.data.len() != m.len() || a.count() != m.len() { return Err(format!("{} names are kept, where there are {}", a.data.len(), m.len())); }
        for (n, k) in m {
            match (a.data.get(n), k) {
                (Some(Accumulator::Perpetual(p)), Kept::Point(q)) => if look(p) != look(q) { return Err(format!("kept {} instead of {}", look(p), look(q))); },
                (Some(Accumulator::Windowed { sum, count, samples, .. }), Kept::Window { sum: s, count: c, seconds }) => {
                    let (x, y): (Vec<_>, Vec<_>) = (samples.iter().map(look).collect(), seconds.iter().map(look).collect());
                    if x != y { return Err(format!("the window holds {:?} instead of {:?}", x, y)); }
                    if sum != s || count != c { return Err(format!("{} samples summing to {} are counted, where there were {} summing to {}", count, sum, c, s)); }
                }
                _ => return Err(format!("{} is not kept as what it is", n)),
            }
        }
        Ok(())
    }
    fn clean(n: &str) -> String {
        n.bytes().map(|b| if b.is_ascii_alphanumeric() || b == b':' || b == b'_' { b as char } else { '_' }).collect()
    }
    fn quoted(v: &str) -> String { v.replace("\\", "\\\\").replace("\"", "\\\"").replace("\n", "\\n") }
    fn labels(first: Option<(&str, String)>, t: &Telemetry, over: &TagMap) -> String {
        let mut l: Vec<String> = first.into_iter().map(|(k, v)| format!("{}=\"{}\"", k, v)).collect();
        for (k, v) in t.tags(over) { l.push(format!("{}=\"{}\"", k, quoted(v))); }
        if l.is_empty() { String::new() } else { format!("{{{}}}", l.join(", ")) }
    }
    /// the lines that state what is kept of a name
    fn lines(k: &Kept, over: &TagMap) -> Option<(String, &'static str, String)> {
        let (t, sum, count) = match k {
            Kept::Point(t) => (t.clone(), t.samples_sum().unwrap_or(0.0), t.count() as u64),
            Kept::Window { sum, count, seconds } => {
                if seconds.is_empty() { return None; }
                let mut t = seconds[0].clone();
                for x in &seconds[1..] { t += x.clone(); }
                (t, *sum, *count)
            }
        };
        let n = clean(&t.name);
        let mut s = String::new();
        let kind = match t.kind() {
            AggregationMethod::Sum => { s += &format!("{}{} {}\n", n, labels(None, &t, over), t.sum().unwrap()); "counter" }
            AggregationMethod::Set => { s += &format!("{}{} {}\n", n, labels(None, &t, over), t.set().unwrap()); "gauge" }
            AggregationMethod::Histogram => {
                let mut upto = 0;
                for &(b, c) in t.bins().unwrap() {
                    upto += c;
                    let le = match b { Bound::Finite(x) => x.to_string(), Bound::PosInf => "+Inf".to_string() };
                    s += &format!("{}{} {}\n", n, labels(Some(("le", le)), &t, over), upto);
                }
                "histogram"
            }
            AggregationMethod::Summarize => {
                for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999] {
                    s += &format!("{}{} {}\n", n, labels(Some(("quantile", q.to_string())), &t, over), t.query(*q).unwrap());
                }
                "summary"
            }
        };
        if kind == "histogram" || kind == "summary" {
            s += &format!("{}_sum{} {}\n{}_count{} {}\n", n, labels(None, &t, over), sum, n, labels(None, &t, over), count);
        }
        Some((n, kind, s))
    }
    /// the page states every name once, in any order, with the kind of an exposed name before its first
    fn states(page: &str, m: &Model, over: &TagMap) -> Result<(), String> {
        let mut left: Vec<(String, &'static str, String)> = m.values().filter_map(|k| lines(k, over)).collect();
        let mut seen: Vec<String> = Vec::new();
        let mut rest = page;
        while !rest.is_empty() {
            let mut typed = None;
            if rest.starts_with("# TYPE ") {
                let e = rest.find('\n').ok_or("a TYPE line is not ended")?;
                typed = Some(rest[7..e].to_string());
                rest = &rest[e + 1..];
            }
            let at = left.iter().position(|(n, k, s)| rest.starts_with(s.as_str()) && typed.as_ref().map_or(seen.contains(n), |t| !seen.contains(n) && *t == format!("{} {}", n, k)));
            let i = at.ok_or(format!("{:?} is stated after the type {:?}, where {:?} are left to be stated", rest, typed, left))?;
            let (n, _, s) = left.remove(i);
            rest = &rest[s.len()..];
            seen.push(n);
        }
        if left.is_empty() { Ok(()) } else { Err(format!("{:?} is not stated in {:?}", left, page)) }
    }
    fn point(r: &mut Rng, times: &[i64]) -> Telemetry {
        let names = ["a", "b.c", "b_c", "d", "é/x", "ok:1_Z", "0", ""];
        let x = *r.pick(&[0.0, -0.0, 1.5, -2.25, 0.5, 3.0, 100.0, 1e15]);
        let i = r.below(names.len());
        let t = Telemetry::new().name(names[i]).timestamp(*r.pick(times));
        // mostly of the kind its name suggests
        let k = if r.chance(1, 8) { r.below(4) } else { i % 4 };
        let mut t = match k {
            0 => t.kind(AggregationMethod::Summarize).error(0.01).value(x),
            1 => t.kind(AggregationMethod::Set).value(if r.chance(1, 6) { *r.pick(&[std::f64::NAN, std::f64::INFINITY]) } else { x }),
            2 => t.kind(AggregationMethod::Sum).value(x),
            _ => t.kind(AggregationMethod::Histogram).bounds(vec![-1.0, 2.0, 50.0]).value(x),
        }.harden().unwrap();
        if k == 0 || k == 3 { for _ in 0..r.below(4) { t = t.insert(*r.pick(&[1.0, 2.5, -7.0])); } }
        for _ in 0..r.below(3) { t = t.overlay_tag(*r.pick(&["k", "l", "m"]), r.text("x\"\\\n\r\t é{},='", 0, 3, |_| true).as_str()); }
        t
    }
    fn overlay(r: &mut Rng) -> TagMap {
        let mut m = TagMap::default();
        for _ in 0..r.below(3) { m.insert(r.pick(&["k", "z"]).to_string(), r.text("x\"\\\n\r \t", 0, 2, |_| true)); }
        m
    }
    pub fn keep(r: &mut Rng) -> Res {
        let cap = *r.pick(&[0, 1, 2, 3, 600]);
        let mut a = PrometheusAggr::new(cap);
        let mut m = Model::new();
        let over = overlay(r);
        let times = [1, 2, 3, 4, 5, 6, 7, 1_542_000_000, i64::max_value(), i64::min_value()];
        let mut d = format!("window {} tags {:?}:", cap, over);
        for _ in 0..r.below(24) {
            let t = point(r, &times);
            d += &format!(" {};", look(&t));
            note(&d);
            let want = take(&mut m, &t, cap);
            if a.insert(t) != want { return fail("kind", d, format!("the point was {}", if want { "refused" } else { "accepted, though of another kind" })); }
            if let Err(e) = same(&a, &m) { return fail("kept", d, e); }
            if r.chance(1, 5) {
                let page = String::from_utf8(write_text(a.reportable(), &over, Vec::new()).unwrap()).unwrap();
                d += " scraped;";
                if let Err(e) = states(&page, &m, &over) { return fail("page", d, e); }
                if let Err(e) = same(&a, &m) { return fail("scrape-changes", d, e); }
            }
        }
        ok(d, m.len() > 1)
    }
    /// points far from the clock are purged from the windows, or not taken at all
    pub fn clock(r: &mut Rng) -> Res {
        let now = time::now();
        let cap = *r.pick(&[0usize, 1, 5, 600, usize::max_value()]);
        let c = cap.min(1 << 40) as i64;
        let times: Vec<i64> = vec![now, now - c, now + c, now - c - 1, now + c + 1, now - c + 1, i64::max_value(), i64::min_value(), 0];
        let mut a = PrometheusAggr::new(cap.min(20));
        if let Some(_) = a.data.insert("w".to_string(), Accumulator::Windowed { cap, sum: 0.0, count: 0, samples: vec![] }) { unreachable!() }
        let mut ts: Vec<i64> = Vec::new();
        for _ in 0..r.below(6) {
            let t = *r.pick(&times);
            if !ts.contains(&t) { ts.push(t); }
        }
        ts.sort();
        if ts.len() > cap { ts = ts[ts.len() - cap..].to_vec(); }
        let d = format!("window {} now {} samples at {:?}", cap, now, ts);
        note(&d);
        for t in &ts { a.insert(Telemetry::new().name("w").kind(AggregationMethod::Summarize).error(0.1).value(1.0).timestamp(*t).harden().unwrap()); }
        let n = a.purge();
        let keep: Vec<i64> = ts.iter().cloned().filter(|t| (*t as i128 - now as i128).abs() <= cap as i128).collect();
        let got: Vec<i64> = match a.data.get("w").unwrap() { Accumulator::Windowed { samples, .. } => samples.iter().map(|t| t.timestamp).collect(), _ => vec![] };
        if got != keep { return fail("purge", d, format!("after a purge the window holds {:?} instead of {:?}", got, keep)); }
        if n != ts.len() - keep.len() { return fail("purged", d, format!("{} purged", n)); }
        ok(d, ts.len() > 0)
    }
    pub fn names(r: &mut Rng) -> Res {
        let n = r.text("aZ09:_-. /é\n\u{10000}\"{@[`\r\u{0}\u{7f}", 0, 8, |_| true);
        note(&n);
        let s = sanitize(&n);
        if s != clean(&n) { return fail("sanitize", n, format!("is exposed as {:?}", s)); }
        let v = r.text("a\\\"\n é,=}\r\t\u{0}\u{7f}'", 0, 8, |_| true);
        let mut w: Vec<u8> = Vec::new();
        write_kv("k", &v, &mut w).unwrap();
        if w != format!("k=\"{}\"", quoted(&v)).into_bytes() { return fail("label", v, format!("the label is written {:?}", String::from_utf8_lossy(&w))); }
        ok(n, true)
    }
    /// points of one name with different tags are different series
    pub fn series(_: &mut Rng) -> Res {
        let mut a = PrometheusAggr::new(10);
        for v in &["x", "y"] {
            let mut m = TagMap::default();
            m.insert("k".to_string(), v.to_string());
            a.insert(Telemetry::new().name("n").kind(AggregationMethod::Sum).value(1.0).tags(m).harden().unwrap());
        }
        let page = String::from_utf8(write_text(a.reportable(), &TagMap::default(), Vec::new()).unwrap()).unwrap();
        let d = "n{k=x} 1 and n{k=y} 1".to_string();
        if !page.contains("n{k=\"x\"} 1\n") || !page.contains("n{k=\"y\"} 1\n") {
            return fail("series-tags", d, format!("two series of one name are stated as one: {:?}", page));
        }
        ok(d, true)
    }
    fn get(port: u16) -> std::io::Result<Vec<u8>> {
        let mut s = TcpStream::connect(("127.0.0.1", port))?;
        s.set_read_timeout(Some(std::time::Duration::from_secs(20)))?;
        s.write_all(b"GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")?;
        let mut v = Vec::new();
        s.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn over_http(r: &mut Rng) -> Res {
        let port = { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() };
        let gzip = r.chance(1, 2);
        let limit = *r.pick(&[None, None, Some(100), Some(100), Some(0), Some(1 << 32), Some(u64::max_value())]);
        let over = overlay(r);
        let mut p = Prometheus::init(PrometheusConfig { host: "127.0.0.1".to_string(), port, gzip, age_threshold: limit, capacity_in_seconds: 60, tags: over.clone(), config_path: None });
        let now = time::now();
        let times = [now, now - 3, now + 2, now - 50, now - 101, now + 101, now - 61, now - (1 << 32), now - (1 << 32) - 1, i64::min_value(), i64::max_value()];
        let mut m = Model::new();
        let mut d = format!("gzip {} age limit {:?} tags {:?} now {}:", gzip, limit, over, now);
        let first = Telemetry::new().name("first").timestamp(now).kind(AggregationMethod::Sum).value(1.0).harden().unwrap();
        take(&mut m, &first, 60);
        p.deliver(first);
        for _ in 0..r.below(30) {
            let t = point(r, &times);
            d += &format!(" {};", look(&t));
            note(&d);
            if limit.map_or(true, |l| (t.timestamp as i128 - now as i128).abs() <= l as i128) { take(&mut m, &t, 60); }
            p.deliver(t);
            if r.chance(1, 10) {
                p.flush();
                d += " flushed;";
                for k in m.values_mut() { if let Kept::Window { seconds, .. } = k { seconds.retain(|t| (t.timestamp as i128 - now as i128).abs() <= 60); } }
            }
            if let Err(e) = same(&p.aggrs.lock().unwrap(), &m) { return fail("delivered", d, e); }
        }
        let mut got = Vec::new();
        for _ in 0..2 {
            // the server takes a moment to listen
            let start = Instant::now();
            got = loop {
                match get(port) { Ok(v) => break v, Err(_) if start.elapsed().as_secs() < 10 => std::thread::sleep(std::time::Duration::from_millis(20)), Err(_) => return ok("no server".to_string(), false) }
            };
            let cut = match got.windows(4).position(|w| w == b"\r\n\r\n") { Some(i) => i, None => return fail("http", d, "no answer to a scrape".to_string()) };
            let head = String::from_utf8_lossy(&got[..cut]).to_lowercase();
            if !head.starts_with("http/1.1 200") || !head.contains("content-type: text/plain; version=0.0.4") || head.contains("content-encoding: gzip") != gzip {
                return fail("http", d, format!("answered {:?}", head));
            }
            let mut page = String::new();
            let body = &got[cut + 4..];
            if gzip { if GzDecoder::new(body).read_to_string(&mut page).is_err() { return fail("http", d, "the body is not whole gzip data".to_string()); } } else { page = String::from_utf8_lossy(body).into_owned(); }
            if let Err(e) = states(&page, &m, &over) { return fail("scrape", d, e); }
        }
        p.shutdown();
        let _ = got;
        ok(d, m.len() > 1)
    }
}
