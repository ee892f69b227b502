// C06: the real native sink connected to the real native source, and to a peer which drops it.
extern crate cernan;
extern crate hopper;
extern crate protobuf;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
#[path = "pts.rs"]
mod pts;
use cernan::metric::{AggregationMethod, Event, LogLine, TagMap, Telemetry};
use cernan::protocols::native as pb;
use cernan::sink::{Native, NativeConfig, Sink};
use cernan::source::{NativeServer, Source, TCPConfig};
use protobuf::Message;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;
use wit::*;

struct Src { port: u16, it: hopper::Receiver<Event>, _dir: ev::Dir }
static mut SRC: Option<Src> = None;
fn free_port() -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
fn src() -> &'static mut Src {
    unsafe {
        if SRC.is_none() {
            let dir = ev::Dir::new();
            let (snd, rcv) = hopper::channel_with_explicit_capacity::<Event>("a", &dir.0, 1 << 24, 1 << 24, 100).unwrap();
            let port = free_port();
            let _ = NativeServer::new(vec![snd], TCPConfig { config_path: None, host: "127.0.0.1".into(), port, forwards: vec![] }).run();
            SRC = Some(Src { port, it: rcv, _dir: dir });
        }
        SRC.as_mut().unwrap()
    }
}
fn next(s: &mut Src) -> Event { s.it.iter().next().unwrap() }
fn connect(port: u16) -> TcpStream {
    let c = match TcpStream::connect(("127.0.0.1", port)) {
        Ok(c) => c,
        Err(_) => { std::thread::sleep(Duration::from_millis(100)); TcpStream::connect(("127.0.0.1", port)).unwrap() }
    };
    c.set_nodelay(true).unwrap();
    c
}
fn sink(port: u16, tags: TagMap) -> Native {
    Native::init(NativeConfig { port, host: "127.0.0.1".into(), config_path: None, flush_interval: 1, tags })
}

type Tags = BTreeMap<String, String>;
/// what can be seen of an event; the samples of a summary in order of size
#[derive(Clone, PartialEq, Debug)]
enum Seen {
    Point { name: String, kind: String, at: i64, persist: bool, tags: Tags, vals: Vec<u64> },
    Line { path: String, value: String, at: i64, tags: Tags, fields: Tags },
    Other,
}
fn map(m: &TagMap) -> Tags { m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn over(d: &TagMap, own: Tags) -> Tags { let mut t = map(d); t.extend(own); t }
fn bits(x: f64) -> u64 { if x.is_nan() { 1 } else { x.to_bits() } }
fn vals(t: &Telemetry) -> Vec<u64> {
    match t.kind() {
        AggregationMethod::Set => vec![bits(t.set().unwrap())],
        AggregationMethod::Sum => vec![bits(t.sum().unwrap())],
        // a summary is a sketch: what it still holds is what is carried
        AggregationMethod::Summarize => sketch(&t.samples()),
        AggregationMethod::Histogram => t.bins().unwrap().map(|b| b.1 as u64).collect(),
    }
}
/// the sketch that samples come to at the other end
fn sketch(xs: &[f64]) -> Vec<u64> {
    let mut t = Telemetry::new().name("s").kind(AggregationMethod::Summarize).value(xs[0]).harden().unwrap();
    for x in &xs[1..] { t = t.insert(*x); }
    held(&t)
}
fn held(t: &Telemetry) -> Vec<u64> {
    let mut v: Vec<u64> = t.samples().into_iter().map(bits).collect();
    v.sort();
    v.push(t.count() as u64);
    v
}
/// the values of an event that has arrived
fn arrived(t: &Telemetry) -> Seen {
    let mut s = point(t, &TagMap::default());
    if let (Seen::Point { ref mut vals, .. }, AggregationMethod::Summarize) = (&mut s, t.kind()) { *vals = held(t); }
    s
}
fn point(t: &Telemetry, d: &TagMap) -> Seen {
    let own: Tags = t.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
    Seen::Point { name: t.name.clone(), kind: format!("{:?}", t.kind()), at: t.timestamp, persist: t.persist, tags: over(d, own), vals: vals(t) }
}
fn line(l: &LogLine, d: &TagMap) -> Seen {
    let own: Tags = l.tags(&TagMap::default()).map(|(k, v)| (k.clone(), v.clone())).collect();
    Seen::Line { path: l.path.clone(), value: l.value.clone(), at: l.time, tags: over(d, own), fields: Tags::new() }
}
fn see(e: &Event) -> Seen {
    match e {
        Event::Telemetry(t) => arrived(t),
        Event::Log(l) => { let mut s = line(l, &TagMap::default()); if let Seen::Line { ref mut fields, .. } = s { *fields = map(&l.fields); } s }
        _ => Seen::Other,
    }
}
fn coarse(s: Seen) -> Seen { match s { Seen::Point { name, kind, at, persist, tags, .. } => Seen::Point { name, kind, at, persist, tags, vals: vec![] }, o => o } }

/// a time that milliseconds reach
fn at(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.range(-5, 5), 1 => 1_500_000_000 + r.range(-1000, 1000),
        2 => i64::max_value() / 1000 - r.range(0, 3), 3 => i64::min_value() / 1000 + r.range(0, 3),
        4 => (r.u64() as i64 >> r.below(63)) / 1000, _ => r.num() / 1000,
    }
}
/// a point which is no histogram
fn some_point(r: &mut Rng) -> Telemetry {
    let t = at(r);
    let mut p = loop { let p = pts::point(r, &[t]); if p.kind() != AggregationMethod::Histogram { break p; } };
    p.name = if r.chance(1, 4) { r.text("aé \n:|", 0, 12, |_| true) } else { p.name };
    if p.kind() == AggregationMethod::Summarize && r.chance(1, 3) { p = Telemetry::new().name(p.name.clone()).timestamp(t).kind(AggregationMethod::Summarize).error(0.0001).value(1.0).harden().unwrap(); }
    for _ in 0..if r.chance(1, 30) { r.size(500, 4000) } else { r.size(3, 40) } { p = p.insert(r.range(-400, 400) as f64 / 2.0); }
    if r.chance(1, 3) { let (k, v) = (r.text(" kK\n=é", 0, 3, |_| true), r.text(" vV\n=é", 0, 3, |_| true)); p = p.overlay_tag(k, v); }
    p.persist = r.chance(1, 2);
    p
}
fn some_line(r: &mut Rng) -> LogLine {
    let t = at(r);
    let l = pts::line(r, &[t]);
    if r.chance(1, 3) { let (k, v) = (r.text(" kK\n=é", 0, 3, |_| true), r.text(" vV\n=é", 0, 3, |_| true)); l.overlay_tag(k, v) } else { l }
}

/// points and lines through a sink and a source
fn carry(r: &mut Rng) -> Res {
    let s = src();
    let before = panics();
    let mut ks: Vec<(Native, TagMap, Vec<Seen>, Vec<Seen>)> = Vec::new();
    for _ in 0..1 + r.below(2) { let d = if r.chance(1, 2) { TagMap::default() } else { pts::tags(r) }; ks.push((sink(s.port, d.clone()), d, vec![], vec![])); }
    let mut desc = String::new();
    let mut many = 0;
    for _ in 0..1 + r.size(14, 80) {
        let i = r.below(ks.len());
        let k = &mut ks[i];
        match r.below(6) {
            0 | 1 => {
                let p = some_point(r);
                k.2.push(point(&p, &k.1));
                desc += &format!("[{}] {:?} ", i, k.2.last().unwrap());
                k.0.deliver(p);
            }
            2 | 3 => {
                let l = some_line(r);
                k.3.push(line(&l, &k.1));
                desc += &format!("[{}] {} bytes at {} ", i, l.value.len(), l.time);
                k.0.deliver_line(l);
            }
            _ => {
                note(&desc);
                desc += &format!("[{}] flush ", i);
                k.0.flush();
                let due: Vec<Seen> = k.2.drain(..).chain(k.3.drain(..)).collect();
                many += due.len();
                for d in due {
                    let g = see(&next(s));
                    if g != d { return fail("event", desc, format!("{:?} arrives as {:?}", d, g)); }
                    if panics() > before { return fail("panic", desc, last_panic()); }
                }
            }
        }
    }
    for k in ks {
        note(&desc);
        desc += "shutdown ";
        k.0.shutdown();
        let due: Vec<Seen> = k.2.into_iter().chain(k.3).collect();
        many += due.len();
        for d in due {
            let g = see(&next(s));
            if g != d { return fail("event", desc, format!("{:?} arrives as {:?}", d, g)); }
        }
    }
    if panics() > before { return fail("panic", desc, last_panic()); }
    ok(desc, many > 1)
}
/// one histogram
fn histogram(r: &mut Rng) -> Res {
    let s = src();
    let mut p = Telemetry::new().name("h").timestamp(at(r)).kind(AggregationMethod::Histogram).bounds(vec![-1.0, 2.0, 50.0]).value(1.0).persist(r.chance(1, 2)).harden().unwrap();
    for _ in 0..r.below(9) { p = p.insert(r.range(-100, 200) as f64); }
    for (k, v) in pts::tags(r) { p = p.overlay_tag(k, v); }
    let due = point(&p, &TagMap::default());
    let desc = format!("{:?}", due);
    let mut k = sink(s.port, TagMap::default());
    k.deliver(p);
    k.flush();
    let got = see(&next(s));
    if coarse(got.clone()) != coarse(due.clone()) { return fail("event", desc, format!("arrives as {:?}", got)); }
    if got != due { return fail("histogram-values", desc, format!("arrives as {:?}", got)); }
    ok(desc, true)
}
/// a summary whose sketch has let go of samples
fn weights(_r: &mut Rng) -> Res {
    let s = src();
    let mut p = Telemetry::new().name("w").kind(AggregationMethod::Summarize).value(1.0).harden().unwrap();
    for i in 0..4000 { p = p.insert((i % 997) as f64); }
    let n = p.count();
    let desc = format!("a summary of {} samples", n);
    note(&desc);
    let mut k = sink(s.port, TagMap::default());
    k.deliver(p);
    k.flush();
    match next(s) {
        Event::Telemetry(ref t) => if t.count() != n { return fail("summary-weights", desc, format!("arrives as one of {}", t.count())); },
        _ => return fail("event", desc, "no point arrives".into()),
    }
    ok(desc, true)
}
/// a flush of more than the source takes
fn large(_r: &mut Rng) -> Res {
    let s = src();
    let mut k = sink(s.port, TagMap::default());
    let n = 40;
    let x = "x".repeat(30_000);
    let desc = format!("{} lines of 30000 bytes in one flush", n);
    note(&desc);
    for i in 0..n { k.deliver_line(LogLine::new("p", x.as_str()).time(i)); }
    k.flush();
    drop(k);
    // another's line shows what has come before it
    std::thread::sleep(Duration::from_millis(50));
    let mut o = sink(s.port, TagMap::default());
    o.deliver_line(LogLine::new("marker", "m").time(0));
    o.shutdown();
    let mut got = 0;
    let mut marker = false;
    while got < n && !(marker && got == 0) {
        match next(s) { Event::Log(ref l) if l.path == "marker" => { marker = true; } _ => got += 1 }
        if marker { break; }
    }
    if got < n { return fail("payload-over-limit", desc, format!("{} arrive", got)); }
    if !marker { next(s); }
    ok(desc, true)
}

// ---- a peer of another making
fn kind(r: &mut Rng) -> (pb::AggregationMethod, AggregationMethod) {
    match r.below(3) {
        0 => (pb::AggregationMethod::SET, AggregationMethod::Set), 1 => (pb::AggregationMethod::SUM, AggregationMethod::Sum),
        _ => (pb::AggregationMethod::SUMMARIZE, AggregationMethod::Summarize),
    }
}
fn meta(r: &mut Rng) -> std::collections::HashMap<String, String> { pts::tags(r).iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn ms(r: &mut Rng) -> i64 { match r.below(4) { 0 => r.range(-3000, 3000), 1 => i64::max_value() - r.range(0, 2000), 2 => i64::min_value() + r.range(0, 2000), _ => r.u64() as i64 >> r.below(63) } }
fn payload(r: &mut Rng) -> (pb::Payload, Vec<Seen>) {
    let mut due = Vec::new();
    let (mut ps, mut ls) = (Vec::new(), Vec::new());
    for _ in 0..r.size(3, 30) {
        let mut t = pb::Telemetry::new();
        let (name, (m, k), meta, p, ts) = (r.text("ab é", 0, 5, |_| true), kind(r), meta(r), r.chance(1, 2), ms(r));
        let n = if r.chance(1, 40) { r.size(100, 4000) } else { r.size(4, 60) };
        let xs: Vec<f64> = (0..n).map(|_| match r.below(9) { 0 => std::f64::INFINITY, 1 => 0.0, 3 => std::f64::NAN, 2 => -0.0, _ => r.range(-400, 400) as f64 / 2.0 }).collect();
        t.set_name(name.clone()); t.set_metadata(meta.clone()); t.set_samples(xs.clone());
        if !(k == AggregationMethod::Summarize && r.chance(1, 3)) { t.set_method(m); }
        if p || r.chance(1, 2) { t.set_persisted(p); }
        if ts != 0 || r.chance(1, 2) { t.set_timestamp_ms(ts); }
        ps.push(t);
        if xs.is_empty() { continue; }
        let vals = match k {
            AggregationMethod::Set => vec![bits(xs[n - 1])],
            AggregationMethod::Sum => vec![bits(xs[1..].iter().fold(xs[0], |a, b| a + b))],
            _ => sketch(&xs),
        };
        due.push(Seen::Point { name, kind: format!("{:?}", k), at: ts / 1000, persist: p, tags: meta.into_iter().collect(), vals });
    }
    for _ in 0..r.size(3, 30) {
        let mut l = pb::LogLine::new();
        let (path, value, meta, ts) = (r.text("pq/", 0, 4, |_| true), r.text("vw \n", 0, 9, |_| true), meta(r), ms(r));
        l.set_path(path.clone()); l.set_value(value.clone()); l.set_metadata(meta.clone());
        if ts != 0 || r.chance(1, 2) { l.set_timestamp_ms(ts); }
        ls.push(l);
        due.push(Seen::Line { path, value, at: ts / 1000, tags: meta.into_iter().collect(), fields: Tags::new() });
    }
    let mut p = pb::Payload::new();
    p.set_points(protobuf::RepeatedField::from_vec(ps));
    p.set_lines(protobuf::RepeatedField::from_vec(ls));
    (p, due)
}
fn framed(b: &[u8]) -> Vec<u8> { let n = b.len() as u32; let mut v = vec![(n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]; v.extend(b); v }
fn put(c: &mut TcpStream, r: &mut Rng, all: &[u8]) -> std::io::Result<()> {
    let (mut at, mut n) = (0, 0);
    while at < all.len() {
        let k = (at + match r.below(5) { 0 if n < 6 => 1 + r.below(5), 1 if n < 12 => 1 + r.below(300), _ => all.len() }).min(all.len());
        c.write_all(&all[at..k])?;
        at = k;
        n += 1;
        if r.chance(1, 3) { std::thread::sleep(Duration::from_micros(r.below(800) as u64)); }
    }
    Ok(())
}
/// payloads from peers, some of them no payloads: those end their connection and nothing is sent on for them
fn peers(r: &mut Rng) -> Res {
    let s = src();
    let before = panics();
    let mut desc = String::new();
    for _ in 0..1 + r.below(3) {
        let mut c = connect(s.port);
        desc += "connection: ";
        let mut refused = false;
        for _ in 0..1 + r.below(3) {
            let (p, due) = payload(r);
            let b = p.write_to_bytes().unwrap();
            if r.chance(1, 4) {
                let mut d = b.clone();
                match r.below(3) { 0 => { let n = r.below(d.len() + 1); d.truncate(n); } 1 => { let n = r.below(60); d = r.bytes(n); } _ => if !d.is_empty() { let i = r.below(d.len()); d[i] ^= 1 << r.below(8); } }
                if protobuf::parse_from_bytes::<pb::Payload>(&d).is_ok() { continue; }
                desc += &format!("no payload of {} bytes, ", d.len());
                note(&desc);
                // and after it one which nobody must read
                let mut w = framed(&d);
                if r.chance(1, 2) { w.extend(framed(&b)); }
                let _ = put(&mut c, r, &w);
                refused = true;
                break;
            }
            desc += &format!("{:?} ", due);
            note(&desc);
            if let Err(e) = put(&mut c, r, &framed(&b)) { return fail("closed", desc, format!("the connection was closed: {}", e)); }
            for d in due {
                let g = see(&next(s));
                if g != d { return fail("payload", desc, format!("{:?} is sent on as {:?}", d, g)); }
            }
            if panics() > before { return fail("panic", desc, last_panic()); }
        }
        if refused {
            c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
            let mut b = [0u8; 8];
            match c.read(&mut b) {
                Ok(0) => (),
                Ok(_) => return fail("answer", desc, "the source answers".into()),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => return fail("open", desc, "the connection is kept open".into()),
                Err(_) => (),
            }
        }
    }
    if panics() > before { return fail("panic", desc, last_panic()); }
    ok(desc, true)
}

// ---- a peer which drops connections
fn read_frame(c: &mut TcpStream) -> Result<Vec<u8>, String> {
    let mut h = [0u8; 4];
    c.read_exact(&mut h).map_err(|e| format!("no length: {}", e))?;
    let n = (h[0] as usize) << 24 | (h[1] as usize) << 16 | (h[2] as usize) << 8 | h[3] as usize;
    if n > 1 << 28 { return Err(format!("a length of {}", n)); }
    let mut b = vec![0u8; n];
    c.read_exact(&mut b).map_err(|e| format!("not the {} bytes: {}", n, e))?;
    Ok(b)
}
fn pair() -> (TcpStream, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let b = l.accept().unwrap().0;
    (a, b)
}
/// the lines of a flush arrive whole on the connection they are on at last
fn dropped(r: &mut Rng) -> Res {
    let port = free_port();
    let l = TcpListener::bind(("127.0.0.1", port)).unwrap();
    let mut k = sink(port, TagMap::default());
    let (mut c, _) = l.accept().unwrap();
    let mut desc = String::new();
    let rounds = 1 + r.below(3);
    for round in 0..rounds {
        let big = r.chance(1, 3);
        // more than a connection's buffers hold
        let (n, long) = if big { (40 + r.below(8), 300_000) } else { (1 + r.size(4, 40), 20) };
        let drops = if big && r.chance(1, 3) { 2 + r.below(5) } else { r.below(3) };
        desc += &format!("{} lines of {}, {} connections dropped; ", n, long, drops);
        note(&desc);
        let ls: Vec<String> = (0..n).map(|i| format!("{}-{}-{}", round, i, "x".repeat(long))).collect();
        for (i, x) in ls.iter().enumerate() { k.deliver_line(LogLine::new("p", x.as_str()).time(i as i64)); }
        if drops > 0 && !big {
            // the peer leaves without having read a line: it will refuse more
            k.flush();
            std::thread::sleep(Duration::from_millis(3));
            let n = c.peek(&mut [0u8; 1]).unwrap_or(0);
            if n == 0 { return fail("nothing", desc, "nothing was sent".into()); }
            // until the sink tries again, nobody
            drop(std::mem::replace(&mut c, { let (a, b) = pair(); drop(b); a }));
            std::thread::sleep(Duration::from_millis(3));
            for (i, x) in ls.iter().enumerate() { k.deliver_line(LogLine::new("p", x.as_str()).time(i as i64)); }
        }
        let h = std::thread::spawn(move || { k.flush(); k });
        if drops > 0 {
            if big {
                // the peer leaves in the midst of it
                for _ in 0..drops {
                    let mut b = vec![0u8; 1 + r.below(5000)];
                    let _ = c.read(&mut b);
                    std::thread::sleep(Duration::from_millis(2));
                    drop(c);
                    c = l.accept().unwrap().0;
                }
            } else {
                c = l.accept().unwrap().0;
            }
        }
        c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        let b = match read_frame(&mut c) { Ok(b) => b, Err(e) => return fail("frame", desc, e) };
        let p = match protobuf::parse_from_bytes::<pb::Payload>(&b) { Ok(p) => p, Err(e) => return fail("frame", desc, format!("no payload: {:?}", e)) };
        let got: Vec<String> = p.get_lines().iter().map(|l| l.get_value().to_string()).collect();
        if got != ls { return fail("lines", desc, format!("{} lines arrive for {}", got.len(), ls.len())); }
        k = h.join().map_err(|_| ()).unwrap();
        c.set_nonblocking(true).unwrap();
        if let Ok(n) = c.peek(&mut [0u8; 4]) { if n > 0 { return fail("twice", desc, "more was sent on".into()); } }
        c.set_nonblocking(false).unwrap();
    }
    ok(desc, true)
}
fn main() {
    wit::main(&[Case { name: "carry", every: 1, run: carry }, Case { name: "peers", every: 1, run: peers }, Case { name: "dropped", every: 6, run: dropped },
                Case { name: "histogram", every: 100, run: histogram }, Case { name: "weights", every: 1000, run: weights }, Case { name: "large", every: 1000, run: large }]);
}
