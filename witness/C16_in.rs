pub mod verif {
    use super::*;
    use crate::wit::*;
    use crate::OUT;
    use quantiles::histogram::Bound;

    /// what the points come to, section by section
    fn metrics(b: &mut Buckets) -> String {
        let mut s = [String::new(), String::new(), String::new(), String::new()];
        for t in b.iter() {
            match t.kind() {
                AggregationMethod::Sum => s[0] += &format!("    {}({}): {}\n", t.name, t.timestamp, t.sum().unwrap()),
                AggregationMethod::Set => s[1] += &format!("    {}({}): {}\n", t.name, t.timestamp, t.set().unwrap()),
                AggregationMethod::Summarize => for (n, q) in &[("min", 0.0), ("max", 1.0), ("50", 0.5), ("90", 0.9), ("99", 0.99), ("999", 0.999)] {
                    if let Some(v) = t.query(*q) { s[2] += &format!("    {}: {} {}\n", t.name, n, v); }
                },
                AggregationMethod::Histogram => for &(b, c) in t.bins().unwrap() {
                    s[3] += &match b { Bound::Finite(x) => format!("    {}_{}({}): {}\n", t.name, x, t.timestamp, c), Bound::PosInf => format!("    {}_pos_inf({}): {}\n", t.name, t.timestamp, c) };
                },
            }
        }
        format!("  sums:\n{}  sets:\n{}  summaries:\n{}  histograms:\n{}", s[0], s[1], s[2], s[3])
    }
    /// many lines at once
    pub fn many(r: &mut Rng) -> Res {
        let mut s = Console::init(ConsoleConfig { bin_width: 1, flush_interval: 5, config_path: None, tags: Default::default() });
        for _ in 0..2 {
            let n = r.below(9_000);
            let d = format!("{} lines, flush", n);
            note(&d);
            for i in 0..n { s.deliver_line(LogLine::new("p", format!("v{}", i).as_str()).time(1)); }
            OUT.with(|o| o.borrow_mut().clear());
            s.flush();
            if !s.buffer.is_empty() { return fail("not-emptied", d, "lines are still held after they were printed".to_string()); }
            let got = OUT.with(|o| o.borrow().clone());
            let mut i = 0;
            for l in got.lines() {
                if l.contains(" p: v") {
                    if !l.contains(&format!(" p: v{}", i)) { return fail("lines", d, format!("{:?} is printed where line {} was due", l, i)); }
                    i += 1;
                }
            }
            if i != n { return fail("lines", d, format!("{} lines are printed", i)); }
        }
        ok("many".to_string(), true)
    }
    pub fn run(r: &mut Rng) -> Res {
        let big_run = r.chance(1, 50);
        let width = *r.pick(&[1, 1, 10]);
        let over = crate::tags(r);
        let mut s = Console::init(ConsoleConfig { bin_width: width, flush_interval: 5, config_path: None, tags: over.clone() });
        let mut b = Buckets::new(width);
        let mut lines: Vec<LogLine> = Vec::new();
        let mut d = format!("bin width {} tags {:?}:", width, over);
        let mut any = false;
        for step in 0..1 + r.below(4) {
            for _ in 0..r.below(if big_run { 1300 } else { 8 }) {
                if r.chance(1, 2) {
                    let l = crate::line(r, &[0, 1, 1_542_000_000, -1, 4_000_000_000, i64::max_value() / 1000, i64::min_value(), i64::max_value()]);
                    d += &format!(" line {:?};", l);
                    lines.push(l.clone());
                    s.deliver_line(l);
                    if if lines.len() < 50 { s.buffer != lines } else { s.buffer.len() != lines.len() || s.buffer.last() != lines.last() } { return fail("held", d, "the sink does not hold the lines it was given".to_string()); }
                } else {
                    let t = crate::point(r, &[1, 2, 11, 12, 1024, 86_400]);
                    d += &format!(" {:?} {} at {} {};", t.kind(), t.name, t.timestamp, crate::value(&t));
                    b.add(t.clone());
                    s.deliver(t);
                }
                if d.len() < 5000 { note(&d); }
                if let Valve::Closed = s.valve_state() { return fail("valve", d, "the valve is closed".to_string()); }
            }
            d += " flush;";
            note(&d);
            OUT.with(|o| o.borrow_mut().clear());
            let want = metrics(&mut b);
            any = any || !lines.is_empty();
            let last = step > 0 && r.chance(1, 3);
            if last { std::mem::replace(&mut s, Console::init(ConsoleConfig::default())).shutdown(); } else {
                s.flush();
                if !s.buffer.is_empty() { return fail("not-emptied", d, "lines are still held after they were printed".to_string()); }
            }
            b.reset();
            let got = OUT.with(|o| o.borrow().clone());
            // the heads carry the time of day
            let p = got.find("Flushing metrics: ");
            if !got.starts_with("Flushing lines: ") || p.is_none() { return fail("printed", d, format!("printed {:?}", got)); }
            let (first, second) = got.split_at(p.unwrap());
            let body = |x: &str| x.find('\n').map(|i| x[i + 1..].to_string()).unwrap_or_default();
            let mut text = String::new();
            for l in &lines {
                text += &match chrono::NaiveDateTime::from_timestamp_opt(l.time, 0) { Some(n) => n.format("%Y-%m-%dT%H:%M:%S%.3fZ").to_string(), None => "?".to_string() };
                text += &format!(" {}: {}", l.path, l.value);
                for (k, v) in l.tags(&over) { text += &format!(" {}={}", k, v); }
                text += "\n";
            }
            if lines.iter().all(|l| chrono::NaiveDateTime::from_timestamp_opt(l.time, 0).is_some()) {
                if body(first) != text { return fail("lines", d, format!("printed {:?} instead of {:?}", body(first), text)); }
            } else {
                for l in &lines {
                    let t = format!(" {}: {}", l.path, l.value);
                    let n = lines.iter().filter(|m| m.path == l.path && m.value == l.value).count();
                    if first.matches(&t).count() < n { return fail("lines", d, format!("{:?} was printed too rarely in {:?}", t, first)); }
                }
            }
            if body(second) != want { return fail("metrics", d, format!("printed {:?} instead of {:?}", body(second), want)); }
            lines.clear();
            if last { break; }
        }
        ok(d, any)
    }
}
