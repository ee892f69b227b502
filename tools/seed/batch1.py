SEEDS = []
def S(**k): SEEDS.append(k)

S(id="reset_persist_first", property="C01", file="src/buckets.rs",
  old="            if v[len - 1].persist {", new="            if v[0].persist {",
  needs="a series whose points differ in persistence, then a reset", breaks="a reset keeps or drops a series by its oldest point instead of its latest",
  demo='''
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod, Telemetry};
fn p(ts: i64, persist: bool) -> Telemetry {
    Telemetry::new().name("n").value(ts as f64).timestamp(ts).persist(persist).kind(AggregationMethod::Set).harden().unwrap()
}
fn main() {
    let mut b = Buckets::new(1);
    b.add(p(1, false));
    b.add(p(5, true));
    b.reset();
    assert_eq!(b.count(), 1);
    assert_eq!(b.iter().next().unwrap().set(), Some(5.0));
    let mut b = Buckets::new(1);
    b.add(p(1, true));
    b.add(p(5, false));
    b.reset();
    assert_eq!(b.count(), 0);
}
''')
S(id="persist_bin_before", property="C01", file="src/buckets.rs",
  old="                    let mut cur: Telemetry = hsh[idx - 1]", new="                    let mut cur: Telemetry = hsh[hsh.len() - 1]",
  needs="a persisting series with a point arriving late, between two stored bins", breaks="a late bin starts from the newest bin instead of the one before it",
  demo='''
use cernan::buckets::Buckets;
use cernan::metric::{AggregationMethod, Telemetry};
fn p(ts: i64, v: f64) -> Telemetry {
    Telemetry::new().name("n").value(v).timestamp(ts).persist(true).kind(AggregationMethod::Sum).harden().unwrap()
}
fn main() {
    let mut b = Buckets::new(1);
    b.add(p(1, 1.0));
    b.add(p(9, 100.0));
    b.add(p(5, 10.0));
    let v: Vec<f64> = b.iter().map(|t| t.sum().unwrap()).collect();
    assert_eq!(v, vec![1.0, 11.0, 101.0]);
}
''')
S(id="summary_merge_small", property="C02", file="src/metric/telemetry.rs",
  old="                    ckms: rhs,\n                    sum: rhs_sum,\n                } => {\n",
  new="                    ckms: mut rhs,\n                    sum: rhs_sum,\n                } => {\n                    if ckms.count() < rhs.count() {\n                        // cheaper to fold the smaller sketch into the larger\n                        rhs += ckms;\n                        return Value::Quantiles { ckms: rhs, sum: rhs_sum };\n                    }\n",
  needs="combining a summary with one of more samples", breaks="the sum of the smaller summary is lost",
  demo='''
use cernan::metric::{AggregationMethod, Telemetry};
fn p(v: f64) -> Telemetry {
    Telemetry::new().name("n").value(v).timestamp(1).kind(AggregationMethod::Summarize).error(0.01).harden().unwrap()
}
fn main() {
    let mut a = p(1.0);
    let b = p(2.0).insert(3.0).insert(4.0);
    a += b;
    assert_eq!(a.count(), 4);
    assert_eq!(a.samples_sum(), Some(10.0));
}
''')
S(id="tag_empty_shadow", property="C03", file="src/metric/mod.rs",
  old="                    seen_keys.insert(k.to_string());\n                    return", new="                    if !v.is_empty() {\n                        seen_keys.insert(k.to_string());\n                    }\n                    return",
  needs="an event tag with an empty value whose key is also among the defaults", breaks="the key is listed twice, and the default's value shadows the event's",
  demo='''
use cernan::metric::{TagMap, Telemetry};
fn main() {
    let t = Telemetry::new().name("n").value(1.0).harden().unwrap().overlay_tag("k", "");
    let mut d: TagMap = Default::default();
    d.insert("k".into(), "default".into());
    d.insert("l".into(), "x".into());
    let mut v: Vec<(String, String)> = t.tags(&d).map(|(k, v)| (k.clone(), v.clone())).collect();
    v.sort();
    assert_eq!(v, vec![("k".to_string(), "".to_string()), ("l".to_string(), "x".to_string())]);
}
''')
S(id="line_overlay_keep", property="C03", file="src/metric/logline.rs",
  old="            for (k, v) in map.iter() {\n                tags.insert(k.clone(), v.clone());\n", new="            for (k, v) in map.iter() {\n                tags.entry(k.clone()).or_insert_with(|| v.clone());\n",
  needs="a line that already has a tag of the overlaid map", breaks="overlaying a map keeps the old value instead of replacing it",
  demo='''
use cernan::metric::{LogLine, TagMap};
fn main() {
    let mut m: TagMap = Default::default();
    m.insert("k".into(), "new".into());
    let mut l = LogLine::new("p", "v").overlay_tag("k", "old").overlay_tags_from_map(&m);
    let none: TagMap = Default::default();
    assert_eq!(l.get_from_tags("k", &none), Some(&"new".to_string()));
}
''')
S(id="hold_rejuvenate", property="C09", file="src/filter/flush_boundary_filter.rs",
  old="                    Ok(idx) => self.holds[idx].events.push(event),", new="                    Ok(idx) => {\n                        let hold = &mut self.holds[idx];\n                        hold.age = hold.age.saturating_sub(1);\n                        hold.events.push(event)\n                    }",
  needs="a late event of a timestamp already held, with a flush in between", breaks="a late event holds its whole timestamp back for longer than the tolerance",
  demo='''
use cernan::filter::{Filter, FlushBoundaryFilter, FlushBoundaryFilterConfig};
use cernan::metric::{Event, LogLine};
fn main() {
    let mut f = FlushBoundaryFilter::new(&FlushBoundaryFilterConfig { config_path: None, forwards: vec![], tolerance: 1 });
    let l = |s: &str| Event::Log(LogLine::new("p".to_string(), s.to_string()).time(7));
    let mut out = Vec::new();
    let mut step = |e: Event| { let _ = f.process(e, &mut out); };
    step(l("a"));
    step(Event::TimerFlush(1));
    step(l("b"));
    step(Event::TimerFlush(2));
    assert_eq!(out, vec![Event::TimerFlush(1), l("a"), l("b"), Event::TimerFlush(2)]);
}
''')
S(id="flush_index_back", property="C12", file="src/sink/mod.rs",
  old="                                        self.state.flush();\n                                    }\n                                }\n                                last_flush_idx = idx;\n",
  new="                                        self.state.flush();\n                                        last_flush_idx = idx;\n                                    }\n                                }\n",
  needs="flush pulses out of order: a due one behind a newer one that was not due", breaks="a flush older than the newest one is obeyed",
  externs=["hopper"],
  demo='''
extern crate hopper;
use cernan::metric::Event;
use cernan::sink::Sink;
use cernan::thread::Stoppable;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
struct S(Arc<AtomicUsize>);
impl Sink<Arc<AtomicUsize>> for S {
    fn init(c: Arc<AtomicUsize>) -> S { S(c) }
    fn flush_interval(&self) -> Option<u64> { Some(2) }
    fn flush(&mut self) { self.0.fetch_add(1, Ordering::SeqCst); }
    fn shutdown(self) {}
}
fn main() {
    let dir = std::env::temp_dir();
    let (mut s, r) = hopper::channel("q", &dir).unwrap();
    let n = Arc::new(AtomicUsize::new(0));
    let h = <S as Sink<Arc<AtomicUsize>>>::new(r, vec!["a".to_string()], n.clone()).run();
    for e in vec![Event::TimerFlush(1), Event::TimerFlush(5), Event::TimerFlush(4), Event::Shutdown] {
        while s.send(e.clone()).is_err() {}
    }
    h.join();
    assert_eq!(n.load(Ordering::SeqCst), 0);
}
''')
S(id="filter_pop", property="C13", file="src/filter/mod.rs",
  old="                        Ok(()) => {\n                            for ev in events.drain(..) {\n                                util::send(&mut chans, ev)\n                            }",
  new="                        Ok(()) => {\n                            while let Some(ev) = events.pop() {\n                                util::send(&mut chans, ev)\n                            }",
  needs="a filter that emits more than one event for one input", breaks="what a filter emits is forwarded in reverse",
  externs=["hopper"],
  demo='''
extern crate hopper;
use cernan::filter::{Filter, FilterError};
use cernan::metric::{Event, LogLine};
struct F;
fn l(s: &str) -> Event { Event::Log(LogLine::new("p".to_string(), s.to_string()).time(7)) }
impl Filter for F {
    fn process(&mut self, _e: Event, res: &mut Vec<Event>) -> Result<(), FilterError> {
        res.push(l("1"));
        res.push(l("2"));
        Ok(())
    }
}
fn main() {
    let dir = std::env::temp_dir();
    let (mut s, r) = hopper::channel("i", &dir).unwrap();
    let (o, mut out) = hopper::channel("o", &dir).unwrap();
    for e in vec![l("x"), Event::Shutdown] { while s.send(e.clone()).is_err() {} }
    F.run(r, vec!["a".to_string()], vec![o]);
    let got: Vec<Event> = out.iter().take(3).collect();
    assert_eq!(got, vec![l("1"), l("2"), Event::Shutdown]);
}
''')
S(id="full_stops_fanout", property="C14", file="src/util.rs",
  old="                    hopper::Error::Full => {\n                        UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);\n                        break;\n                    }\n                    _ => {\n                        snd_event",
  new="                    hopper::Error::Full => {\n                        UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed);\n                        return;\n                    }\n                    _ => {\n                        snd_event",
  needs="a completely full output among several", breaks="a full output keeps the event from the outputs after it",
  externs=["hopper"],
  demo='''
extern crate hopper;
use cernan::metric::{Encoding, Event};
use cernan::util;
fn raw(n: usize) -> Event { Event::Raw { order_by: n as u64, encoding: Encoding::Raw, bytes: vec![7; n], metadata: None, connection_id: None } }
fn main() {
    let dir = std::env::temp_dir();
    let (a, mut ar) = hopper::channel("a", &dir).unwrap();
    let (mut b, _br) = hopper::channel_with_explicit_capacity("b", &dir, 1, 0x100_000, 1).unwrap();
    // fill b up with incompressible events, then with ever smaller ones
    let mut x = 88172645463325252u64;
    for size in &[200_000, 20_000, 2_000, 200, 20, 1, 0] {
        loop {
            let bytes = (0..*size).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect();
            let e = if *size == 0 { Event::Shutdown } else { Event::Raw { order_by: 0, encoding: Encoding::Raw, bytes: bytes, metadata: None, connection_id: None } };
            if let Err((_, hopper::Error::Full)) = b.send(e) { break; }
        }
    }
    let mut probe = a.clone();
    let mut chans = vec![a, b];
    util::send(&mut chans, raw(3));
    assert!(util::UTIL_SEND_HOPPER_ERROR_FULL.load(std::sync::atomic::Ordering::SeqCst) > 0);
    while probe.send(Event::Shutdown).is_err() {}
    assert_eq!(ar.iter().next(), Some(raw(3)));
}
''')
S(id="delay_day_cap", property="C10", file="src/filter/delay_filter.rs",
  old="            tolerance: config.tolerance,", new="            tolerance: config.tolerance.min(86_400),",
  needs="a tolerance of more than a day and an event older than a day", breaks="events inside the configured window are dropped",
  demo='''
use cernan::filter::{DelayFilter, DelayFilterConfig, Filter};
use cernan::metric::{Event, LogLine};
fn main() {
    let mut f = DelayFilter::new(&DelayFilterConfig { config_path: None, forwards: vec![], tolerance: 1_000_000 });
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    let e = Event::Log(LogLine::new("p".to_string(), "x".to_string()).time(now.min(cernan::time::now()) - 200_000));
    let mut out = Vec::new();
    let _ = f.process(e.clone(), &mut out);
    assert_eq!(out, vec![e]);
}
''')
