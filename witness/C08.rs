// C08: avro payloads over real connections to the real source, acknowledged (or not) as a sink would.
extern crate cernan;
extern crate hopper;
extern crate serde_avro;
extern crate uuid;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::{global_ack_bag, Encoding, Event};
use cernan::source::{Avro, Source, TCPConfig};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;
use uuid::Uuid;
use wit::*;

type Meta = std::collections::BTreeMap<Vec<u8>, Vec<u8>>;
struct Src { port: u16, it: hopper::Receiver<Event>, _dir: ev::Dir }
static mut SRC: Option<Src> = None;
fn free_port() -> u16 { std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
fn src() -> &'static mut Src {
    unsafe {
        if SRC.is_none() {
            let dir = ev::Dir::new();
            let (snd, rcv) = hopper::channel_with_explicit_capacity::<Event>("a", &dir.0, 1 << 24, 1 << 24, 100).unwrap();
            let port = free_port();
            let _ = Avro::new(vec![snd], TCPConfig { config_path: None, host: "127.0.0.1".into(), port, forwards: vec![] }).run();
            SRC = Some(Src { port, it: rcv, _dir: dir });
        }
        SRC.as_mut().unwrap()
    }
}
fn connect(port: u16) -> TcpStream {
    let c = match TcpStream::connect(("127.0.0.1", port)) {
        Ok(c) => c,
        Err(_) => { std::thread::sleep(Duration::from_millis(100)); TcpStream::connect(("127.0.0.1", port)).unwrap() }
    };
    c.set_nodelay(true).unwrap();
    c
}
fn next(s: &mut Src) -> Event { s.it.iter().next().unwrap() }

fn be(n: u64, k: usize) -> Vec<u8> { (0..k).rev().map(|i| (n >> (8 * i)) as u8).collect() }
fn zig(n: i64) -> Vec<u8> {
    let mut z = ((n << 1) ^ (n >> 63)) as u64;
    let mut v = Vec::new();
    while z >= 128 { v.push((z as u8 & 127) | 128); z >>= 7; }
    v.push(z as u8);
    v
}
/// a container of numbers, with a schema of its own
fn container(r: &mut Rng) -> Vec<u8> {
    let mut b = b"Obj\x01".to_vec();
    let schema = r.pick(&["\"long\"", "{\"type\":\"array\",\"items\":\"string\"}", "{\"type\":\"record\",\"name\":\"n\",\"fields\":[{\"name\":\"f\",\"type\":\"int\"}]}"]).as_bytes().to_vec();
    let mut kv: Vec<(Vec<u8>, Vec<u8>)> = vec![(b"avro.schema".to_vec(), schema), (b"avro.codec".to_vec(), b"null".to_vec())];
    if r.chance(1, 3) { let k = r.below(300); kv.push((b"x".to_vec(), r.bytes(k))); }
    b.extend(zig(kv.len() as i64));
    for (k, v) in kv { b.extend(zig(k.len() as i64)); b.extend(k); b.extend(zig(v.len() as i64)); b.extend(v); }
    b.push(0);
    b.extend(r.bytes(16));
    let n = match r.below(4) { 0 => 0, 1 => r.below(20), 2 => r.below(3000), _ => r.size(100, 400_000) };
    b.extend(r.bytes(n));
    b
}
fn blob(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 8) {
        let f = r.pick(&["users-null", "users-deflate", "users-snappy"]);
        if let Ok(b) = std::fs::read(format!("{}/resources/tests/data/{}.avro", option_env!("CERNAN_REPO").unwrap_or("/repo"), f)) { return b; }
    }
    container(r)
}
struct P { version: u32, sync: bool, id: u64, order: u64, meta: Option<Meta>, blob: Vec<u8>, wire: Vec<u8> }
fn num(r: &mut Rng) -> u64 { match r.below(5) { 4 => r.num() as u64, 0 => r.below(5) as u64, 1 => u64::max_value() - r.below(3) as u64, _ => r.u64() } }
fn payload(r: &mut Rng, sync: bool) -> P {
    let version = match r.below(6) { 0 => 0, 1 | 2 => 1, 3 | 4 => 2, _ => *r.pick(&[3u32, 255, 256, 1 << 16, 1 << 24, u32::max_value()]) };
    let mut control = if r.chance(1, 3) { r.u64() as u32 & !1 } else { 0 };
    if sync { control |= 1; }
    let (id, order) = (num(r), num(r));
    let blob = blob(r);
    let mut w = be(version as u64, 4);
    w.extend(be(control as u64, 4));
    w.extend(be(id, 8));
    w.extend(be(order, 8));
    let mut meta = None;
    if version >= 2 {
        let n = match r.below(5) { 0 | 1 => 0, 2 => 1, 3 => r.size(5, 255), _ => *r.pick(&[2usize, 128, 255]) };
        w.push(n as u8);
        let mut m = Meta::new();
        for _ in 0..n {
            let k = match r.below(5) { 0 => 0, 1 => 255, _ => r.size(5, 255) };
            let k = if r.chance(1, 2) { let mut s = r.text("abc", k, k, |_| true).into_bytes(); s.truncate(255); s } else { r.bytes(k) };
            let v = match r.below(8) { 0 => 0, 1 => 256 + r.below(400), 2 if n < 8 => 65535, _ => r.size(8, if n < 8 { 65535 } else { 300 }) };
            let v = r.bytes(v);
            w.push(k.len() as u8);
            w.extend(&k);
            w.extend(be(v.len() as u64, 2));
            w.extend(&v);
            m.insert(k, v);
        }
        if n > 0 { meta = Some(m); }
    }
    w.extend(&blob);
    P { version, sync, id, order, meta, blob, wire: w }
}
fn put(c: &mut TcpStream, r: &mut Rng, w: &[u8]) -> std::io::Result<()> {
    let mut all = be(w.len() as u64, 4);
    all.extend(w);
    let mut at = 0;
    let mut n = 0;
    while at < all.len() {
        let k = (at + match r.below(5) { 0 if n < 6 => 1 + r.below(5), 1 if n < 12 => 1 + r.below(3000), _ => all.len() }).min(all.len());
        c.write_all(&all[at..k])?;
        at = k;
        n += 1;
        if r.chance(1, 3) { std::thread::sleep(Duration::from_micros(r.below(800) as u64)); }
    }
    Ok(())
}
fn same(e: &Event, p: &P) -> Result<Uuid, String> {
    if let Event::Raw { order_by, encoding, bytes, metadata, connection_id } = e {
        if *order_by != p.order { return Err(format!("ordering key {} for {}", order_by, p.order)); }
        if *encoding != Encoding::Avro { return Err(format!("encoding {:?}", encoding)); }
        if bytes != &p.blob { return Err(format!("{} bytes, not the {} of the payload", bytes.len(), p.blob.len())); }
        let m: Option<Meta> = metadata.as_ref().map(|m| m.iter().map(|(a, b)| (a.clone(), b.clone())).collect());
        if m != p.meta { return Err(format!("metadata {:?} for {:?}", m, p.meta)); }
        return connection_id.ok_or_else(|| "no id to acknowledge".into());
    }
    Err(format!("sent on {:?}", e))
}
fn ack(k: Uuid) { global_ack_bag().with_props(k, |p| p.ack()); }
/// what has come back within the time given
fn answers(c: &mut TcpStream, ms: u64) -> Vec<u8> {
    c.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let mut b = [0u8; 64];
    match c.read(&mut b) { Ok(n) => b[..n].to_vec(), Err(_) => vec![] }
}
fn show(p: &P) -> String { format!("(version {} sync {} id {} order {} meta {:?} blob of {})", p.version, p.sync, p.id, p.order, p.meta.as_ref().map(|m| m.len()), p.blob.len()) }

fn serve(r: &mut Rng) -> Res {
    let s = src();
    let before = panics();
    let mut cs: Vec<TcpStream> = (0..1 + r.size(1, 12)).map(|_| connect(s.port)).collect();
    let mut waiting: Vec<Option<(P, Uuid)>> = cs.iter().map(|_| None).collect();
    let mut old: Vec<Uuid> = Vec::new();
    let mut desc = String::new();
    let steps = 2 + r.size(6, 60);
    for step in 0..steps + cs.len() {
        let i = if step < steps { r.below(cs.len()) } else { step - steps };
        note(&desc);
        // the one waiting there is acknowledged first
        if let Some((p, k)) = waiting[i].take() {
            for o in &old { if *o != k { ack(*o); } }
            if r.chance(1, 2) {
                let a = answers(&mut cs[i], 25);
                if !a.is_empty() { return fail("answered-early", desc, format!("the publisher of {} was answered {:?} before its event was acknowledged", show(&p), a)); }
            }
            ack(k);
            cs[i].set_read_timeout(Some(Duration::from_secs(10))).unwrap();
            let mut b = [0u8; 8];
            if let Err(e) = cs[i].read_exact(&mut b) { return fail("no-answer", desc, format!("no answer for {} after its acknowledgement: {}", show(&p), e)); }
            if b.to_vec() != be(p.id, 8) { return fail("answer", desc, format!("answered {:?} for {}", b, show(&p))); }
            old.push(k);
        }
        if step >= steps { continue; }
        let sync = r.chance(1, 2);
        let p = payload(r, sync);
        desc += &format!("[connection {}] {} ", i, show(&p));
        note(&desc);
        if let Err(e) = put(&mut cs[i], r, &p.wire) { return fail("closed", desc, format!("the connection was closed: {}", e)); }
        let e = next(s);
        let k = match same(&e, &p) { Ok(k) => k, Err(m) => return fail("event", desc, m) };
        if p.sync { waiting[i] = Some((p, k)); } else { old.push(k); }
        if panics() > before { return fail("panic", desc, last_panic()); }
    }
    for c in &mut cs {
        let a = answers(c, 3);
        if !a.is_empty() { return fail("answer-unasked", desc, format!("{:?} answered to nobody's question", a)); }
    }
    ok(desc, true)
}
/// a payload which is no payload: nothing is sent on, the connection ends, and others go on
fn refused(r: &mut Rng) -> Res {
    let s = src();
    let before = panics();
    let p = payload(r, true);
    let head = p.wire.len() - p.blob.len();
    let (w, what) = match r.below(6) {
        0 => { let n = r.below(head); (p.wire[..n].to_vec(), format!("cut after {} of {} bytes in front of the container", n, head)) }
        1 => { let n = head + r.below(4); (p.wire[..n].to_vec(), format!("cut in the magic number at {}", n)) }
        2 => { let k = r.below(4); let mut w = p.wire.clone(); w[head + k] ^= 1 << r.below(8); (w, format!("magic number damaged at {}", k)) }
        3 => { let n = head + 4 + r.below(8); (p.wire[..n].to_vec(), format!("container cut at {}", n - head)) }
        4 => (p.wire[..head].to_vec(), "no container".into()),
        _ => { let n = r.below(24); (r.bytes(n), format!("{} random bytes", n)) }
    };
    let desc = format!("{} {}", show(&p), what);
    note(&desc);
    let mut c = connect(s.port);
    let _ = put(&mut c, r, &w);
    c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let mut b = Vec::new();
    match c.read_to_end(&mut b) {
        Ok(_) if b.is_empty() => (),
        Ok(_) => return fail("refused-answer", desc, format!("answered {:?}", b)),
        Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
            return fail("refused-open", desc, "the connection is kept open".into())
        }
        Err(_) => (),
    }
    // what is sent on next is another's
    let q = payload(r, false);
    let mut d = connect(s.port);
    if let Err(e) = put(&mut d, r, &q.wire) { return fail("closed", desc, format!("another's connection was closed: {}", e)); }
    if let Err(m) = same(&next(s), &q) { return fail("refused-event", desc, m); }
    if panics() > before { return fail("refused-panic", desc, last_panic()); }
    ok(desc, true)
}
/// a publisher which leaves before its answer
fn leaves(r: &mut Rng) -> Res {
    let s = src();
    let before = panics();
    let mut c = connect(s.port);
    let (a, b) = (payload(r, true), payload(r, true));
    let desc = format!("{} answered and not read, {} left waiting", show(&a), show(&b));
    note(&desc);
    let _ = put(&mut c, r, &a.wire);
    let _ = put(&mut c, r, &b.wire);
    let k = match same(&next(s), &a) { Ok(k) => k, Err(m) => return fail("event", desc, m) };
    ack(k);
    let k = match same(&next(s), &b) { Ok(k) => k, Err(m) => return fail("event", desc, m) };
    std::thread::sleep(Duration::from_millis(2));
    drop(c);
    std::thread::sleep(Duration::from_millis(2));
    ack(k);
    // the waiting one naps for at most 10 ms before it looks again
    for _ in 0..20 {
        if panics() > before { return fail("leaves-panic", desc, last_panic()); }
        std::thread::sleep(Duration::from_millis(1));
    }
    ok(desc, true)
}
/// a container which states a length beyond anything, in a process of its own
fn huge(r: &mut Rng) -> Res {
    let n = *r.pick(&[i64::max_value(), i64::max_value() - 7, 1i64 << 62]);
    let desc = format!("a container of one metadata pair, its value said to be {} bytes long", n);
    note(&desc);
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--huge").arg(n.to_string()).stderr(std::process::Stdio::null()).output().unwrap();
    if !out.status.success() { return fail("container-length", desc, format!("the process ends: {:?}", out.status)); }
    ok(desc, true)
}
fn huge_child(n: i64) {
    let s = src();
    let mut w = be(1, 4);
    w.extend(be(0, 4)); w.extend(be(0, 8)); w.extend(be(0, 8));
    w.extend(b"Obj\x01");
    w.extend(zig(1));
    w.extend(zig(1)); w.push(b'k');
    w.extend(zig(n));
    let mut c = connect(s.port);
    let _ = put(&mut c, &mut Rng::new(1), &w);
    c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let mut b = Vec::new();
    let _ = c.read_to_end(&mut b);
    std::process::exit(0);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "--huge" { return huge_child(a[2].parse().unwrap()); }
    wit::main(&[Case { name: "serve", every: 1, run: serve }, Case { name: "refused", every: 2, run: refused },
                Case { name: "leaves", every: 8, run: leaves }, Case { name: "huge", every: 1000, run: huge }]);
}
