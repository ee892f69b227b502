// C05: statsd packets through the real parser, and over a real socket to the real source.
extern crate cernan;
extern crate hopper;
extern crate quantiles;
extern crate regex;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::{Event, Telemetry};
use cernan::protocols::statsd::parse_statsd;
use cernan::source::{Source, Statsd, StatsdConfig, StatsdParseConfig};
use quantiles::histogram::Bound;
use std::sync::Arc;
use wit::*;

#[derive(Debug, Clone)]
struct P { name: String, v: f64, what: char, bounds: Vec<f64>, persist: bool }

/// what one line states, under masks given as (prefix, bounds)
fn line(l: &str, masks: &[(String, Vec<f64>)]) -> Option<P> {
    let c = l.find(':')?;
    let (name, rest) = (&l[..c], &l[c + 1..]);
    if name.is_empty() { return None; }
    let p = rest.find('|')?;
    let x = rest[..p].parse::<f64>().ok()?;
    let signed = rest.starts_with('+') || rest.starts_with('-');
    let t = &rest[p + 1..];
    let (ty, rate) = match t.find('@') {
        None => (t, None),
        Some(k) => (if t[..k].ends_with('|') { &t[..k - 1] } else { &t[..k] }, Some(t[k + 1..].parse::<f64>().ok()?)),
    };
    let v = match rate { Some(r) => x * (1.0 / r), None => x };
    let mut out = P { name: name.into(), v, what: 'S', bounds: vec![], persist: false };
    match ty {
        "g" => { out.persist = true; out.what = if signed { '+' } else { 'S' } }
        "c" => out.what = '+',
        "ms" | "h" => {
            out.what = 'Q';
            if let Some(m) = masks.iter().find(|m| name.starts_with(&m.0)) {
                out.what = 'H';
                out.bounds = m.1.clone();
                out.bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
            }
        }
        _ => return None,
    }
    Some(out)
}
fn packet(s: &str, masks: &[(String, Vec<f64>)]) -> Option<Vec<P>> {
    let mut out = Vec::new();
    for l in s.lines() { out.push(line(l, masks)?); }
    if out.is_empty() { None } else { Some(out) }
}
fn eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn same(t: &Telemetry, p: &P) -> Result<(), String> {
    let d = format!("{:?} for {:?}", t, p);
    if t.name != p.name || t.persist != p.persist { return Err(d); }
    if t.tags(&Default::default()).count() != 0 { return Err("tags: ".to_string() + &d); }
    let good = match p.what {
        'S' => t.set().map_or(false, |x| eq(x, p.v)),
        '+' => t.sum().map_or(false, |x| eq(x, p.v)),
        'Q' => t.is_summarize() && t.count() == 1 && t.samples_sum().map_or(false, |x| eq(x, p.v)) && t.query(1.0).map_or(false, |x| eq(x, p.v)),
        _ => t.is_histogram() && {
            let mut want: Vec<(Bound<f64>, usize)> = p.bounds.iter().map(|b| (Bound::Finite(*b), 0)).collect();
            want.push((Bound::PosInf, 0));
            let at = p.bounds.iter().position(|b| p.v <= *b).unwrap_or(p.bounds.len());
            want[at].1 += 1;
            t.bins().map_or(false, |i| i.cloned().collect::<Vec<_>>() == want)
        },
    };
    if good { Ok(()) } else { Err(d) }
}
fn all_same(got: &[Telemetry], want: &[P]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{} points instead of {}: {:?}", got.len(), want.len(), got.iter().map(|t| t.name.clone()).collect::<Vec<_>>())); }
    for (t, p) in got.iter().zip(want) { same(t, p)?; }
    Ok(())
}
fn number(r: &mut Rng) -> String {
    match r.below(7) {
        6 => format!("{}", r.num()),
        0 => r.pick(&["inf", "-inf", "1e400", ".5", "5.", "+3", "-3", "-0", "4.9e-324", "1E3", "+1e2"]).to_string(),
        1 => format!("{}.{}", r.range(-99, 99), r.range(0, 99)),
        _ => format!("{}", r.range(-500, 500)),
    }
}
fn one(r: &mut Rng) -> String {
    let k = r.size(3, 2000);
    let name = r.text("abf.é", 1, 1 + k, |_| true);
    let ty = r.pick(&["g", "c", "ms", "h"]).to_string();
    let mut s = format!("{}:{}|{}", name, number(r), ty);
    match r.below(5) {
        0 => s += &format!("|@{}", r.pick(&["0.1", "0.5", "1", "0.25", "2", "1e-3", "-1"])),
        1 => s += &format!("@{}", r.pick(&["0.1", "0.5", "1", "0.25", "3"])),
        _ => (),
    }
    if r.chance(1, 5) {
        // damage it somewhere
        let mut cs: Vec<char> = s.chars().collect();
        let i = r.below(cs.len());
        match r.below(5) {
            0 => { cs.remove(i); }
            1 => cs.insert(i, *r.pick(&[':', '|', '@', 'x', 'é', '漢', ' ', '-', '+', '1', 'm', 's'])),
            2 => cs[i] = *r.pick(&[':', '|', '@', 'x', 'é', '漢', ' ', '-', '+', '1', 'm', 's']),
            3 => cs.truncate(i),
            _ => { let j = r.below(cs.len()); cs.swap(i, j); }
        }
        s = cs.into_iter().collect();
    }
    s
}
fn body(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = r.size(4, 200);
    for i in 0..n { s += &one(r); if i + 1 < n || r.chance(1, 3) { s += *r.pick(&["\n", "\n", "\r\n", "\n\n"]); } }
    if r.chance(1, 10) { s = r.string(":|@gcmsh+-1é\n", 0, 12); }
    s
}
fn masks(r: &mut Rng) -> Vec<(String, Vec<f64>)> {
    (0..r.size(3, 12)).map(|_| {
        let mut b: Vec<f64> = (0..1 + r.size(3, 40)).map(|_| r.range(-200, 200) as f64).collect();
        b.sort_by(|a, b| a.partial_cmp(b).unwrap());
        b.dedup();
        r.shuffle(&mut b);
        (r.string("abf", 1, 2), b)
    }).collect()
}
fn config(m: &[(String, Vec<f64>)]) -> StatsdParseConfig {
    let mut c = StatsdParseConfig::default();
    c.histogram_masks = m.iter().map(|x| (regex::Regex::new(&format!("^{}", x.0)).unwrap(), x.1.clone())).collect();
    c
}
fn parse(r: &mut Rng) -> Res {
    let m = masks(r);
    let s = body(r);
    let desc = format!("masks {:?} packet {:?}", m, s);
    note(&desc);
    let base = Arc::new(Some(Telemetry::default().timestamp(-77)));
    let mut res = Vec::new();
    let t0 = cernan::time::now();
    let said = parse_statsd(&s, &mut res, &base, &Arc::new(config(&m)));
    let t1 = cernan::time::now();
    let want = packet(&s, &m);
    if said != want.is_some() { return fail("parse-answer", desc, format!("answered {}, the packet is {}", said, if want.is_some() { "valid" } else { "not valid" })); }
    if let Some(w) = want {
        if let Err(e) = all_same(&res, &w) { return fail("parse-points", desc, e); }
        for t in &res { if t.timestamp < t0 || t.timestamp > t1 { return fail("parse-time", desc, format!("timestamp {} at time {}", t.timestamp, t0)); } }
        return ok(desc, true);
    }
    ok(desc, s.len() > 0)
}

struct Src { port: u16, rcv: hopper::Receiver<Event>, sock: std::net::UdpSocket, masks: Vec<(String, Vec<f64>)>, _dir: ev::Dir }
static mut SRC: Option<Src> = None;
fn src() -> &'static mut Src {
    unsafe {
        if SRC.is_none() {
            let dir = ev::Dir::new();
            let (snd, rcv) = hopper::channel_with_explicit_capacity::<Event>("g", &dir.0, 1 << 20, 1 << 20, 100).unwrap();
            let sock = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
            let port = { let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap(); s.local_addr().unwrap().port() };
            let masks = vec![("a".to_string(), vec![5.0, -5.0, 50.0]), ("ab".to_string(), vec![1.0])];
            let mut c = StatsdConfig::default();
            c.host = "127.0.0.1".into();
            c.port = port;
            c.parse_config = config(&masks);
            let _ = Statsd::new(vec![snd], c).run();
            SRC = Some(Src { port, rcv, sock, masks, _dir: dir });
        }
        SRC.as_mut().unwrap()
    }
}
fn datagrams(r: &mut Rng) -> Res {
    let s = src();
    let mut want = Vec::new();
    let mut shown = Vec::new();
    let mut ps: Vec<Vec<u8>> = Vec::new();
    for _ in 0..1 + r.size(4, 60) {
        let mut p = body(r).into_bytes();
        p.truncate(16_000);
        if r.chance(1, 8) { p.push(0xff); }
        if r.chance(1, 8) { let mut t = String::new(); while t.len() < 1500 { t += "abc.long.name:1|c\n"; } p = t.into_bytes(); }
        if r.chance(1, 20) { let mut t = String::new(); while t.len() < 16_200 { t += "abc.long.name:1|c\n"; } p = t.into_bytes(); }
        if let Ok(t) = std::str::from_utf8(&p) { if let Some(w) = packet(t, &s.masks) { want.extend(w); } }
        shown.push(String::from_utf8_lossy(&p[..p.len().min(100)]).into_owned());
        ps.push(p);
    }
    let desc = format!("packets {:?}", shown);
    note(&desc);
    let end = format!("the.end.{}", r.u64());
    for p in &ps { s.sock.send_to(p, ("127.0.0.1", s.port)).unwrap(); }
    s.sock.send_to(format!("{}:1|c", end).as_bytes(), ("127.0.0.1", s.port)).unwrap();
    let mut got = Vec::new();
    let mut it = s.rcv.iter();
    loop {
        match it.next() {
            Some(Event::Telemetry(t)) => { if t.name == end { break; } got.push(t); }
            Some(e) => return fail("datagram-other", desc, format!("sent on {:?}", e)),
            None => return fail("datagram-ends", desc, "the queue has ended".into()),
        }
    }
    if let Err(e) = all_same(&got, &want) { return fail("datagram-points", desc, e); }
    ok(desc, true)
}
fn main() {
    wit::main(&[Case { name: "parse", every: 1, run: parse }, Case { name: "datagrams", every: 100, run: datagrams }]);
}
