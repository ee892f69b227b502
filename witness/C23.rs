// C23: sources which are told to end, with connections in all states.
extern crate cernan;
extern crate hopper;
extern crate mio;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::{Event, LogLine, Telemetry};
use cernan::source::{Avro, Graphite, Internal, InternalConfig, NativeServer, Source, Statsd, StatsdConfig, TCPConfig, TCPStreamHandler, TCP};
use cernan::thread::{Stoppable, ThreadHandle};
use std::io::{Read, Write};
use std::sync::mpsc;
use std::time::Duration;
use wit::*;

/// does as its connection's first byte tells it
#[derive(Clone, Default)]
struct Odd {}
fn say(chans: &mut cernan::util::Channel, s: &str) { cernan::util::send(chans, Event::new_log(LogLine::new("h", s))); }
impl TCPStreamHandler for Odd {
    fn handle_stream(&mut self, mut chans: cernan::util::Channel, poll: &mio::Poll, mut s: mio::net::TcpStream) {
        let mut what = 0u8;
        loop {
            let mut evs = mio::Events::with_capacity(16);
            poll.poll(&mut evs, None).unwrap();
            for e in evs {
                if e.token() == cernan::constants::SYSTEM {
                    if what == b'c' { panic!("a handler crashes when told to end"); }
                    if what == b'l' { std::thread::sleep(Duration::from_millis(20)); }
                    say(&mut chans, "ended");
                    return;
                }
                let mut b = [0u8; 1];
                if let Ok(1) = s.read(&mut b) {
                    what = b[0];
                    say(&mut chans, "hello");
                    match what {
                        b'p' => panic!("a handler crashes"),
                        b'q' => return,
                        _ => {}
                    }
                }
            }
        }
    }
}
fn port() -> u16 { std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
fn connect(p: u16) -> Option<std::net::TcpStream> {
    for _ in 0..50 {
        if let Ok(c) = std::net::TcpStream::connect(("127.0.0.1", p)) { return Some(c); }
        std::thread::sleep(Duration::from_millis(10));
    }
    None
}
/// what a forward receives, read by a thread of its own
struct Fwd { got: mpsc::Receiver<Event>, mark: hopper::Sender<Event>, _dir: ev::Dir }
fn forward() -> (hopper::Sender<Event>, Fwd) {
    let dir = ev::Dir::new();
    let (snd, mut rcv) = hopper::channel_with_explicit_capacity::<Event>("s", &dir.0, 1 << 20, 1 << 20, 100).unwrap();
    let (tx, got) = mpsc::channel();
    let mark = snd.clone();
    std::thread::spawn(move || {
        for e in rcv.iter() {
            let end = if let Event::TimerFlush(_) = e { true } else { false };
            if tx.send(e).is_err() || end { return; }
        }
    });
    (snd, Fwd { got, mark, _dir: dir })
}
/// ends the source; what it sent until its thread was over
fn end(h: ThreadHandle, mut f: Fwd) -> Result<Vec<Event>, String> {
    let (tx, rx) = mpsc::channel();
    let t = std::thread::spawn(move || { h.shutdown(); let _ = tx.send(()); });
    let over = rx.recv_timeout(Duration::from_secs(20));
    if over == Err(mpsc::RecvTimeoutError::Timeout) { return Err("it has not ended after 20 s".into()); }
    let _ = t.join();
    let mut m = Event::TimerFlush(0);
    while let Err((e, _)) = f.mark.send(m) { m = e; std::thread::sleep(Duration::from_millis(1)); }
    let mut all = Vec::new();
    loop {
        match f.got.recv_timeout(Duration::from_secs(20)) {
            Ok(Event::TimerFlush(_)) => return Ok(all),
            Ok(e) => all.push(e),
            Err(_) => return Err("what it sent does not arrive".into()),
        }
    }
}
fn shutdowns(all: &[Event]) -> Result<(), String> {
    let at: Vec<usize> = all.iter().enumerate().filter(|(_, e)| **e == Event::Shutdown).map(|(i, _)| i).collect();
    if at.is_empty() { return Err("its end is not announced".into()); }
    if at.len() > 1 { return Err(format!("its end is announced {} times", at.len())); }
    if at[0] + 1 != all.len() { return Err(format!("{} events come after its end", all.len() - 1 - at[0])); }
    Ok(())
}
fn handlers(r: &mut Rng) -> Res {
    let acts: Vec<u8> = (0..r.size(5, 40)).map(|_| *r.pick(b"wwlcpqd")).collect();
    let hold = r.chance(1, 2);
    let late = r.chance(1, 3);
    let desc = format!("connections {:?}{}{}", String::from_utf8_lossy(&acts), if hold { "" } else { ", some closed before" }, if late { ", more while it ends" } else { "" });
    note(&desc);
    let (snd, f) = forward();
    let p = port();
    let h = TCP::<Odd>::new(vec![snd], TCPConfig { config_path: None, host: "127.0.0.1".into(), port: p, forwards: vec![] }).run();
    let mut conns = Vec::new();
    let mut hellos = 0;
    let mut all = Vec::new();
    for (i, a) in acts.iter().enumerate() {
        let mut c = match connect(p) { Some(c) => c, None => return fail("refused", desc, format!("connection {} is refused", i)) };
        if *a != b'd' {
            c.write_all(&[*a]).unwrap();
            hellos += 1;
        }
        if hold || r.chance(1, 2) { conns.push(c); } else if *a == b'd' { drop(c); } else { conns.push(c); }
        if r.chance(1, 3) { std::thread::sleep(Duration::from_micros(r.below(800) as u64)); }
    }
    while hellos > 0 {
        match f.got.recv_timeout(Duration::from_secs(20)) {
            Ok(e) => { all.push(e); hellos -= 1; }
            Err(_) => return fail("unserved", desc, format!("{} connections are not served", hellos)),
        }
    }
    if late { for _ in 0..3 { if let Some(c) = connect(p) { conns.push(c); } } }
    match end(h, f) {
        Ok(x) => all.extend(x),
        Err(e) => return fail("hang", desc, e),
    }
    if let Err(e) = shutdowns(&all) { return fail("announced", desc, e); }
    let told = acts.iter().filter(|a| **a == b'w' || **a == b'l').count();
    let said = all.iter().filter(|e| match e { Event::Log(l) => l.value == "ended", _ => false }).count();
    if said < told { return fail("told", desc, format!("{} of {} handlers were told to end", said, told)); }
    ok(desc, acts.len() > 0)
}
fn real(r: &mut Rng) -> Res {
    let which = r.below(5);
    let n = r.below(4);
    let desc = format!("{} with {} connections", ["graphite", "native", "avro", "statsd", "internal"][which], n);
    note(&desc);
    let (snd, f) = forward();
    let p = port();
    let tcp = || TCPConfig { config_path: None, host: "127.0.0.1".into(), port: p, forwards: vec![] };
    let h = match which {
        0 => Graphite::new(vec![snd], tcp()).run(),
        1 => NativeServer::new(vec![snd], tcp()).run(),
        2 => Avro::new(vec![snd], tcp()).run(),
        3 => Statsd::new(vec![snd], StatsdConfig { host: "127.0.0.1".into(), port: p, ..Default::default() }).run(),
        _ => Internal::new(vec![snd], InternalConfig::default()).run(),
    };
    let mut conns = Vec::new();
    let mut want = 0;
    for i in 0..n {
        match which {
            3 => {
                let u = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
                let _ = u.send_to(format!("a{}:1|c\n", i).as_bytes(), ("127.0.0.1", p));
                want += 1;
            }
            4 => {}
            _ => {
                let mut c = match connect(p) { Some(c) => c, None => return fail("refused", desc, "refused".into()) };
                if which == 0 && r.chance(1, 2) { c.write_all(b"a 1 2\n").unwrap(); want += 1; }
                if which == 0 && r.chance(1, 4) { c.write_all(b"unfini").unwrap(); }
                if which > 0 && r.chance(1, 2) { c.write_all(&[0, 0, 1]).unwrap(); }
                if r.chance(3, 4) { conns.push(c); }
            }
        }
    }
    let mut all = Vec::new();
    while all.iter().filter(|e| if let Event::Telemetry(_) = e { true } else { false }).count() < want {
        match f.got.recv_timeout(Duration::from_secs(20)) { Ok(e) => all.push(e), Err(_) => return fail("lost", desc, "points do not arrive".into()) }
    }
    let _: Option<Telemetry> = None;
    match end(h, f) {
        Ok(x) => all.extend(x),
        Err(e) => return fail("hang", desc, e),
    }
    if let Err(e) = shutdowns(&all) { return fail("announced", desc, e); }
    ok(desc, true)
}
fn main() {
    wit::main(&[Case { name: "handlers", every: 1, run: handlers }, Case { name: "real", every: 2, run: real }]);
}
