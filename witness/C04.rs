// C04: graphite text through the real parser, and over a real connection to the real source.
extern crate cernan;
extern crate hopper;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::{AggregationMethod, Event, Telemetry};
use cernan::protocols::graphite::parse_graphite;
use cernan::source::{Graphite, Source};
use std::io::Write;
use std::sync::Arc;
use wit::*;

type P = (String, f64, i64);

/// the text's points, if it is a whole number of valid triples
fn stated(s: &str) -> Option<Vec<P>> {
    let w: Vec<&str> = s.split(char::is_whitespace).filter(|x| !x.is_empty()).collect();
    if w.is_empty() || w.len() % 3 != 0 { return None; }
    let mut out = Vec::new();
    for t in w.chunks(3) {
        out.push((t[0].to_string(), t[1].parse::<f64>().ok()?, t[2].parse::<i64>().ok()?));
    }
    Some(out)
}
fn word(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.text("ab.-_@%:é漢#;=/{}()\"'\\*?!,&|~^$<>[]", 1, 6, |w| !w.contains('\n')),
        1 => "0".into(),
        2 => format!("{}", r.range(-9, 9999)),
        3 => r.pick(&["1.5", "-2e3", "NaN", "inf", "1e400", "+7", ".5", "1.", "--1", "0x10", "1_0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e-320", "4.9e-324", "-0"]).to_string(),
        4 => r.string("a", 1, 3),
        _ => format!("{}.{}", r.range(0, 99), r.range(0, 99)),
    }
}
fn value(r: &mut Rng) -> String {
    match r.below(5) {
        4 => format!("{}", r.num()),
        0 => format!("{}", r.range(-1000, 1000)),
        1 => format!("{}.{}", r.range(-99, 99), r.range(0, 99)),
        2 => r.pick(&["1e400", "-2e3", "inf", "+7", ".5", "4.9e-324", "123456789012345678901234567890"]).to_string(),
        _ => format!("{:e}", f64::from_bits(r.u64() & 0x7fdf_ffff_ffff_ffff)),
    }
}
fn text(r: &mut Rng) -> String {
    let sep = |r: &mut Rng| r.pick(&[" ", "  ", "\t", " \t", "\u{a0}"]).to_string();
    let mut s = String::new();
    if r.chance(1, 8) { s += &sep(r); }
    match r.below(4) {
        0 => for _ in 0..r.below(8) { s += &word(r); s += &sep(r); },
        k => {
            for _ in 0..(if k == 1 { 1 + r.size(2, 300) } else { 1 }) {
                let name = if r.chance(1, 6) { r.text("ab.-_@%:é漢#;=/{}()\"'\\*?!,&|~^$<>[]", 1, 6, |w| !w.contains(char::is_whitespace)) } else { let k = r.size(5, 3000); r.string("abc.-", 1, 1 + k) };
                let w = [name, value(r), format!("{}", match r.below(6) { 0 => r.u64() as i64, 1 => i64::max_value(), 2 => r.num(), _ => r.range(0, 1_000_000) })];
                for x in &w { s += x; s += &sep(r); }
            }
            if r.chance(1, 6) { s += &word(r); }
        }
    }
    s
}
fn tags(t: &Telemetry) -> std::collections::BTreeMap<String, String> {
    t.tags(&Default::default()).map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
fn same(t: &Telemetry, p: &P) -> Result<(), String> {
    if t.name != p.0 { return Err(format!("name {:?} for {:?}", t.name, p.0)); }
    let v = t.set().unwrap_or(std::f64::NAN);
    if !(v == p.1 || (v.is_nan() && p.1.is_nan())) { return Err(format!("value {:?} for {:?} ({})", v, p.1, t.name)); }
    if t.kind() != AggregationMethod::Set { return Err("not of set type".into()); }
    if t.timestamp != p.2 { return Err(format!("timestamp {} for {} ({})", t.timestamp, p.2, t.name)); }
    Ok(())
}
fn all_same(got: &[Telemetry], want: &[P]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{} points instead of {}: {:?}", got.len(), want.len(), got.iter().map(|t| t.name.clone()).collect::<Vec<_>>())); }
    for (t, p) in got.iter().zip(want) { same(t, p)?; }
    Ok(())
}
fn parse(r: &mut Rng) -> Res {
    let n = 1 + r.size(2, 40);
    let mut s = String::new();
    for _ in 0..n { s += &text(r); if r.chance(4, 5) { s.push('\n'); } }
    let base = Arc::new(Some(if r.chance(1, 2) { Telemetry::default() } else { Telemetry::default().overlay_tag("k", "v").overlay_tag("l", "w") }));
    let desc = format!("{:?}", s);
    note(&desc);
    let mut res = Vec::new();
    let said = parse_graphite(&s, &mut res, &base);
    let want = stated(&s);
    if said != want.is_some() { return fail("parse-answer", desc, format!("answered {}, the text is {}", said, if want.is_some() { "valid" } else { "not valid" })); }
    if let Some(w) = want {
        if let Err(e) = all_same(&res, &w) { return fail("parse-points", desc, e); }
        for t in &res {
            let b = base.as_ref().as_ref().unwrap();
            if tags(t) != tags(b) || t.persist != b.persist {
                return fail("parse-tags", desc, format!("tags {:?} for those of the source", tags(t)));
            }
        }
        return ok(desc, true);
    }
    ok(desc, s.trim().len() > 0)
}

struct Src { port: u16, rcv: hopper::Receiver<Event>, _dir: ev::Dir }
static mut SRC: Option<Src> = None;
pub fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
fn src() -> &'static mut Src {
    unsafe {
        if SRC.is_none() {
            let dir = ev::Dir::new();
            let (snd, rcv) = hopper::channel_with_explicit_capacity::<Event>("g", &dir.0, 1 << 20, 1 << 20, 100).unwrap();
            let port = free_port();
            let _ = Graphite::new(vec![snd], cernan::source::TCPConfig { config_path: None, host: "127.0.0.1".into(), port, forwards: vec![] }).run();
            SRC = Some(Src { port, rcv, _dir: dir });
        }
        SRC.as_mut().unwrap()
    }
}
fn stream(r: &mut Rng) -> Res {
    let mut wire: Vec<u8> = Vec::new();
    let mut want: Vec<P> = Vec::new();
    let mut shown = Vec::new();
    for _ in 0..1 + r.size(7, 1200) {
        let mut l: Vec<u8> = match r.below(12) {
            0 => { let k = r.below(9); r.bytes(k) }.into_iter().filter(|b| *b != 10).collect(),
            1 => Vec::new(),
            2 => { let mut x = text(r).into_bytes(); x.push(0xff); x }
            3 => { let k = r.size(20_000, 70_000); let mut x = vec![b'n'; k + 1]; x.extend(b" 1 2"); x }
            4 => format!("{} 1 2 {}", r.string("ab", 1, 3), r.string("ab", 1, 3)).into_bytes(),
            5 => format!("{} {} 7 {} nope 8", r.string("ab", 1, 3), value(r), r.string("ab", 1, 3)).into_bytes(),
            _ => text(r).into_bytes(),
        };
        if r.chance(1, 5) { l.push(b'\r'); }
        if let Ok(s) = std::str::from_utf8(&l) { if let Some(p) = stated(s) { want.extend(p); } }
        shown.push(String::from_utf8_lossy(&l[..l.len().min(80)]).into_owned());
        wire.extend(l);
        wire.push(b'\n');
    }
    let end = format!("the-end-{}", r.u64());
    wire.extend(format!("{} 1 2", end).bytes());
    if r.chance(1, 2) { wire.push(b'\n'); }
    let s = src();
    let mut c = match std::net::TcpStream::connect(("127.0.0.1", s.port)) {
        Ok(c) => c,
        Err(_) => { std::thread::sleep(std::time::Duration::from_millis(100)); std::net::TcpStream::connect(("127.0.0.1", s.port)).unwrap() }
    };
    c.set_nodelay(true).unwrap();
    let mut at = 0;
    let mut cuts = Vec::new();
    while at < wire.len() {
        let k = (at + match r.below(4) { 0 => 1 + r.below(3), 1 => 1 + r.below(30), 2 => 1 + r.below(9000), _ => wire.len() }).min(wire.len());
        c.write_all(&wire[at..k]).unwrap();
        cuts.push(k);
        at = k;
        if cuts.len() < 40 && r.chance(1, 2) { std::thread::sleep(std::time::Duration::from_micros(r.below(1500) as u64)); }
    }
    drop(c);
    let desc = format!("lines {:?} in pieces ending at {:?}", shown, cuts.iter().take(40).collect::<Vec<_>>());
    note(&desc);
    let mut got = Vec::new();
    let before = panics();
    let mut it = s.rcv.iter();
    loop {
        match it.next() {
            Some(Event::Telemetry(t)) => {
                if t.name == end { break; }
                got.push(t);
            }
            Some(e) => return fail("stream-other", desc, format!("sent on {:?}", e)),
            None => return fail("stream-ends", desc, "the queue has ended".into()),
        }
        if panics() > before { return fail("stream-panic", desc, last_panic()); }
    }
    if let Err(e) = all_same(&got, &want) { return fail("stream-points", desc, e); }
    ok(desc, true)
}

fn main() {
    wit::main(&[Case { name: "parse", every: 1, run: parse }, Case { name: "stream", every: 200, run: stream }]);
}
