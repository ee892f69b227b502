SEEDS = []
def S(**k): SEEDS.append(k)

S(id="masks_third", property="C31", file="src/config.rs",
  old="masks.insert(0, (re, bounds));", new="masks.insert(masks.len() / 2, (re, bounds));",
  needs="three statsd mappings or more", breaks="the masks are tried in another order than the last-listed first",
  demo='''
use std::io::Write;
fn main() {
    let p = std::env::temp_dir().join("c.toml");
    let mut f = std::fs::File::create(&p).unwrap();
    f.write_all(br#"
[sources]
  [sources.statsd.primary]
  enabled = true
  port = 1024
  forwards = ["sinks.console"]
  [sources.statsd.primary.mapping.a]
  mask = "^a"
  bounds = [1.0]
  [sources.statsd.primary.mapping.b]
  mask = "^b"
  bounds = [2.0]
  [sources.statsd.primary.mapping.c]
  mask = "^c"
  bounds = [3.0]
"#).unwrap();
    drop(f);
    let args = cernan::config::parse_config(p.to_str().unwrap());
    let st = args.statsds.unwrap();
    let c = st.values().next().unwrap();
    let masks: Vec<String> = c.parse_config.histogram_masks.iter().map(|&(ref m, _)| m.as_str().to_string()).collect();
    assert_eq!(masks, vec!["^c", "^b", "^a"]);
}
''')
S(id="kafka_skip_rest", property="C31", file="src/config.rs",
  old='''                        "kafka sink {} skipped as it does not provide brokers",
                        config_path
                    );
                    continue;''',
  new='''                        "kafka sink {} skipped as it does not provide brokers",
                        config_path
                    );
                    break;''',
  needs="a kafka sink without brokers listed ahead of a good one", breaks="the sinks after a skipped one are not configured",
  demo='''
use std::io::Write;
fn main() {
    let p = std::env::temp_dir().join("c.toml");
    let mut f = std::fs::File::create(&p).unwrap();
    f.write_all(br#"
[sinks]
  [sinks.kafka.a]
  topic = "t"
  [sinks.kafka.b]
  topic = "t"
  brokers = "h:1"
"#).unwrap();
    drop(f);
    let args = cernan::config::parse_config(p.to_str().unwrap());
    let ks: Vec<Option<String>> = args.kafkas.unwrap().iter().map(|k| k.config_path.clone()).collect();
    assert_eq!(ks, vec![Some("sinks.kafka.b".to_string())]);
}
''')
S(id="prepare_keep", property="C20", file="src/metric/ackbag.rs",
  old="        bag.insert(key, SyncAckProps::default());", new="        bag.entry(key).or_insert_with(SyncAckProps::default);",
  needs="a connection waiting a second time", breaks="the acknowledgement of an earlier publish releases the next one",
  demo='''
use cernan::metric::global_ack_bag;
fn main() {
    let id = Default::default();
    global_ack_bag().prepare_wait(id);
    global_ack_bag().with_props(id, |p| p.ack());
    assert_eq!(global_ack_bag().props_for(id).unwrap().acks_received(), 1);
    global_ack_bag().prepare_wait(id);
    assert_eq!(global_ack_bag().props_for(id).unwrap().acks_received(), 0);
}
''')
S(id="null_override", property="C11", file="src/filter/json_encode_filter.rs",
  old="            if !result.contains_key(&key) {", new="            if result.get(&key).map_or(true, Value::is_null) {",
  needs="a JSON line with a null for a key that metadata has as well", breaks="the line's own null is replaced by the metadata",
  externs=["serde_json"],
  demo='''
extern crate serde_json;
use cernan::filter::{Filter, JSONEncodeFilter, JSONEncodeFilterConfig};
use cernan::metric::{Event, LogLine};
fn main() {
    let mut f = JSONEncodeFilter::new(JSONEncodeFilterConfig { parse_line: true, config_path: None, forwards: vec![], tags: Default::default() });
    let l = LogLine::new("p".to_string(), r#"{"path":null,"x":1}"#.to_string()).time(7);
    let mut out = Vec::new();
    let _ = f.process(Event::Log(l), &mut out);
    match out[0] {
        Event::Raw { ref bytes, .. } => {
            let v: serde_json::Value = serde_json::from_slice(bytes).unwrap();
            assert_eq!(v["path"], serde_json::Value::Null);
            assert_eq!(v["x"], 1);
        }
        _ => panic!("raw expected"),
    }
}
''')
S(id="persist_single", property="C06", file="src/source/native.rs",
  old="                    metric = metric.persist(point.get_persisted());", new="                    metric = metric.persist(point.get_persisted() && smpls.len() < 2);",
  needs="a persisting summary or histogram of several samples sent between cernans", breaks="the receiving cernan forgets that the series persists",
  externs=["hopper", "mio"],
  demo='''
extern crate hopper;
extern crate mio;
use cernan::metric::{AggregationMethod, Event, Telemetry};
use cernan::sink::{Native, NativeConfig, Sink};
use cernan::source::{NativeServer, Source, TCPConfig};
use cernan::thread::Stoppable;
fn main() {
    let dir = std::env::temp_dir();
    let (o, out) = hopper::channel("o", &dir).unwrap();
    let port = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().port() };
    let c = TCPConfig { host: "127.0.0.1".to_string(), port, config_path: None, forwards: vec![] };
    let src = <NativeServer as Source<TCPConfig>>::new(vec![o], c);
    let h = src.run();
    let mut sink = Native::init(NativeConfig { host: "127.0.0.1".to_string(), port, config_path: None, flush_interval: 1, tags: Default::default() });
    let mk = |n: &str, p: bool| Telemetry::new().name(n).value(1.0).timestamp(7).persist(p).kind(AggregationMethod::Summarize).error(0.01).harden().unwrap();
    sink.deliver(mk("a", true));
    sink.deliver(mk("b", true).insert(2.0));
    sink.deliver(mk("c", false).insert(2.0));
    sink.flush();
    let mut got = Vec::new();
    let mut it = out.into_iter();
    while got.len() < 3 {
        if let Some(Event::Telemetry(t)) = it.next() { got.push((t.name.clone(), t.persist)); }
    }
    drop(sink);
    h.shutdown();
    got.sort();
    assert_eq!(got, vec![("a".to_string(), true), ("b".to_string(), true), ("c".to_string(), false)]);
}
''')
S(id="edge_keeps", property="C19", file="src/matrix.rs",
  old="        vec.insert(to, metadata);", new="        let old = vec.entry(to).or_insert(None);\n        if metadata.is_some() {\n            *old = metadata;\n        }",
  needs="an edge added again without metadata", breaks="an edge keeps the metadata it had before",
  demo='''
fn main() {
    let mut m: cernan::matrix::Adjacency<i32> = cernan::matrix::Adjacency::new();
    m.add_asymmetric_edge("a", "b", Some(1));
    m.add_asymmetric_edge("a", "b", None);
    assert_eq!(m.pop_metadata("a"), Vec::<i32>::new());
}
''')
S(id="token_fold", property="C22", file="src/util.rs",
  old="        mio::Token::from(idx)\n", new="        mio::Token::from(idx ^ (idx >> 10))\n",
  needs="more than 1024 things in a slab", breaks="a token designates another entry than the one it was given for",
  externs=["mio"],
  demo='''
extern crate mio;
fn main() {
    let mut s = cernan::util::TokenSlab::<mio::Registration>::new();
    let mut ts = Vec::new();
    for _ in 0..1100 {
        let (r, _) = mio::Registration::new2();
        ts.push(s.insert(r));
    }
    for (i, (idx, r)) in s.iter().enumerate() {
        assert_eq!(ts[i], mio::Token::from(idx));
        assert!(std::ptr::eq(&s[ts[i]], r));
    }
}
''')
S(id="tcp_early_shutdown", property="C23", file="src/source/tcp.rs",
  old="                                self.handlers.shutdown();\n                                util::send(&mut chans, metric::Event::Shutdown);",
  new="                                util::send(&mut chans, metric::Event::Shutdown);\n                                self.handlers.shutdown();",
  needs="a connection with something still to forward at the time of the shutdown", breaks="events of open connections come after the shutdown marker",
  externs=["hopper", "mio"],
  demo='''
extern crate hopper;
extern crate mio;
use cernan::metric::{Event, LogLine};
use cernan::source::{Source, TCPConfig, TCPStreamHandler, TCP};
use cernan::thread::Stoppable;
use cernan::util;
#[derive(Default, Clone)]
struct H;
fn l(s: &str) -> Event { Event::Log(LogLine::new("p".to_string(), s.to_string()).time(7)) }
impl TCPStreamHandler for H {
    fn new() -> Self { H }
    fn handle_stream(&mut self, mut chans: util::Channel, poller: &mio::Poll, _s: mio::net::TcpStream) {
        util::send(&mut chans, l("first"));
        loop {
            let mut events = mio::Events::with_capacity(16);
            poller.poll(&mut events, None).unwrap();
            for e in events {
                if e.token() == cernan::constants::SYSTEM {
                    std::thread::sleep(std::time::Duration::from_millis(300));
                    util::send(&mut chans, l("last"));
                    return;
                }
            }
        }
    }
}
fn main() {
    let dir = std::env::temp_dir();
    let (o, out) = hopper::channel("o", &dir).unwrap();
    let port = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().port() };
    let c = TCPConfig { host: "127.0.0.1".to_string(), port, config_path: None, forwards: vec![] };
    let src = <TCP<H> as Source<TCPConfig>>::new(vec![o], c);
    let h = src.run();
    let _c = std::net::TcpStream::connect(("127.0.0.1", port)).unwrap();
    let mut it = out.into_iter();
    let mut next = || loop { if let Some(e) = it.next() { return e; } };
    assert_eq!(next(), l("first"));
    h.shutdown();
    assert_eq!(next(), l("last"));
    assert_eq!(next(), Event::Shutdown);
}
''')
S(id="one_sample_sum", property="C17", file="src/sink/prometheus.rs",
  old='''                            samples[0]
                                .clone()
                                .thaw()
                                .sample_sum(sum)
''', new='''                            samples[0]
                                .clone()
                                .thaw()
''',
  needs="a summary whose window has only its newest sample left", breaks="the exported sum is not the sum of all samples while the count is",
  externs=["mio"],
  demo='''
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::sink::{Prometheus, PrometheusConfig, Sink};
use std::io::{Read, Write};
fn main() {
    let port = { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.local_addr().unwrap().port() };
    let mut c = PrometheusConfig::default();
    c.host = "127.0.0.1".to_string();
    c.port = port;
    c.capacity_in_seconds = 1;
    let mut s = Prometheus::init(c);
    let now = cernan::time::now();
    for i in 0..3 {
        s.deliver(Telemetry::new().name("n").value(f64::from(i) + 1.0).timestamp(now + i64::from(i)).kind(AggregationMethod::Summarize).error(0.01).harden().unwrap());
    }
    let mut c = loop {
        if let Ok(c) = std::net::TcpStream::connect(("127.0.0.1", port)) { break c; }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    c.write_all(b"GET /metrics HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\n\\r\\n").unwrap();
    let mut got = String::new();
    c.read_to_string(&mut got).unwrap();
    println!("{}", got);
    assert!(got.lines().any(|l| l.starts_with("n_sum") && l.ends_with(" 6")));
    assert!(got.lines().any(|l| l.starts_with("n_count") && l.ends_with(" 3")));
    std::process::exit(0);
}
''')
S(id="console_quiet_inf", property="C16", file="src/sink/console.rs",
  old="                        for &(bound, val) in bin_iter {\n", new="                        for &(bound, val) in bin_iter {\n                            if val == 0 && bound == Bound::PosInf {\n                                continue;\n                            }\n",
  needs="a histogram with nothing above its last bound", breaks="a bin of the histogram is not printed",
  demo='''
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::sink::{Console, ConsoleConfig, Sink};
fn main() {
    if std::env::args().len() == 1 {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
        let t = String::from_utf8(o.stdout).unwrap();
        println!("{}", t);
        assert!(t.contains("    n_1(7): 1\\n"));
        assert!(t.contains("    n_pos_inf(7): 0\\n"));
        return;
    }
    let mut s = Console::init(ConsoleConfig { bin_width: 1, config_path: None, flush_interval: 1, tags: Default::default() });
    s.deliver(Telemetry::new().name("n").value(0.5).timestamp(7).kind(AggregationMethod::Histogram).bounds(vec![1.0]).harden().unwrap());
    s.flush();
}
''')
S(id="last_seen_first", property="C15", file="src/sink/wavefront.rs",
  old="            tmp_last_seen.insert(pad.hash(), pad.timestamp());", new="            tmp_last_seen.entry(pad.hash()).or_insert(pad.timestamp());",
  needs="a series with several points in one flush and a gap before the next flush", breaks="the gap is padded from the first point of the flush instead of the last",
  demo='''
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::sink::{Sink, Wavefront, WavefrontConfig};
use std::io::BufRead;
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let mut c = WavefrontConfig::default();
    c.host = "127.0.0.1".to_string();
    c.port = l.local_addr().unwrap().port();
    c.bin_width = 1;
    c.pad_control.sum = true;
    let mut s = Wavefront::init(c);
    let p = |ts: i64| Telemetry::new().name("n").value(5.0).timestamp(ts).kind(AggregationMethod::Sum).harden().unwrap();
    s.deliver(p(1));
    s.deliver(p(2));
    s.deliver(p(3));
    s.flush();
    s.deliver(p(9));
    s.flush();
    drop(s);
    let (st, _) = l.accept().unwrap();
    let mut got: Vec<(i64, f64)> = std::io::BufReader::new(st).lines().map(|l| {
        let l = l.unwrap();
        let v: Vec<&str> = l.split(' ').collect();
        (v[2].parse().unwrap(), v[1].parse().unwrap())
    }).collect();
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    assert_eq!(got, vec![(1, 5.0), (2, 5.0), (3, 5.0), (4, 0.0), (8, 0.0), (9, 5.0)]);
}
''')
S(id="mask_last", property="C05", file="src/protocols/statsd.rs",
  old='''                                                    .bounds(bounds.clone());
                                                break;
                                            }
                                        }
                                        metric.value(val * (1.0 / sample))''',
  new='''                                                    .bounds(bounds.clone());
                                            }
                                        }
                                        metric.value(val * (1.0 / sample))''',
  needs="a sampled timer whose name two masks match", breaks="the last matching mask decides the bounds instead of the first",
  externs=["regex"],
  demo='''
extern crate regex;
use cernan::metric::Telemetry;
use cernan::protocols::statsd::parse_statsd;
use cernan::source::StatsdParseConfig;
use std::sync::Arc;
fn main() {
    let mut c = StatsdParseConfig::default();
    c.histogram_masks = vec![(regex::Regex::new("^a").unwrap(), vec![1.0]), (regex::Regex::new("a$").unwrap(), vec![1.0, 2.0])];
    let t = Arc::new(Some(Telemetry::new().name("t").value(0.0).harden().unwrap()));
    let c = Arc::new(c);
    for l in &["aa:1|ms|@0.5", "aa:1|ms"] {
        let mut out = Vec::new();
        assert!(parse_statsd(l, &mut out, &t, &c));
        assert_eq!(out[0].bins().unwrap().count(), 2, "{}", l);
    }
}
''')
