// C35: the real program, from its configuration to its end.
// @bin cernan chan_signal chrono fern hopper mio log openssl_probe
extern crate cernan;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::{AggregationMethod, Telemetry};
use cernan::sink::{Native, NativeConfig, Sink};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use wit::*;

struct Run { child: Child, out: Arc<Mutex<String>>, err: Arc<Mutex<String>>, readers: Vec<std::thread::JoinHandle<()>> }
impl Drop for Run { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn follow<R: Read + Send + 'static>(mut r: R, to: Arc<Mutex<String>>) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        while let Ok(n) = r.read(&mut b) {
            if n == 0 { break; }
            to.lock().unwrap().push_str(&String::from_utf8_lossy(&b[..n]));
        }
    })
}
fn start(conf: &std::path::Path) -> Run {
    let me = std::env::current_exe().unwrap();
    let mut child = Command::new(me.parent().unwrap().join("bin/cernan")).arg("--config").arg(conf)
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let (out, err): (Arc<Mutex<String>>, Arc<Mutex<String>>) = Default::default();
    let readers = vec![follow(child.stdout.take().unwrap(), out.clone()), follow(child.stderr.take().unwrap(), err.clone())];
    Run { child, out, err, readers }
}
fn port() -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }
fn connect(p: u16, till: Instant) -> Option<TcpStream> {
    loop {
        if let Ok(s) = TcpStream::connect(("127.0.0.1", p)) { return Some(s); }
        if Instant::now() > till { return None; }
        std::thread::sleep(Duration::from_millis(10));
    }
}
fn scrape(p: u16) -> String {
    let mut got = String::new();
    if let Ok(mut s) = TcpStream::connect(("127.0.0.1", p)) {
        let _ = s.set_read_timeout(Some(Duration::from_secs(10)));
        let _ = s.write_all(b"GET /metrics HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n");
        let _ = s.read_to_string(&mut got);
    }
    got
}
const KINDS: [&str; 4] = ["delay", "json_encode", "flush_boundary", "programmable"];
/// sources, filters in a row, sinks; arrows go from earlier ones to later ones
fn topology(r: &mut Rng) -> Res {
    let dir = ev::Dir::new();
    let p = |n: &str| dir.0.join(n);
    for n in &["data", "scripts"] { std::fs::create_dir(p(n)).unwrap(); }
    std::fs::write(p("scripts").join("s.lua"), "function process_metric(pyld) end\nfunction process_log(pyld) end\nfunction tick(pyld) end\n").unwrap();
    let (prom, wf) = (port(), TcpListener::bind("127.0.0.1:0").unwrap());
    let wfp = wf.local_addr().unwrap().port();
    let wrote = Arc::new(Mutex::new(String::new()));
    let (w2, mut more) = (wrote.clone(), Vec::<std::thread::JoinHandle<()>>::new());
    std::thread::spawn(move || for s in wf.incoming() { if let Ok(s) = s { more.push(follow(s, w2.clone())); } });
    // names, and the section each is configured in
    let nf = r.below(6);
    let mut names: Vec<String> = (0..nf).map(|i| format!("filters.{}.{}{}", r.pick(&KINDS), r.pick(&["a", "m", "z"]), i)).collect();
    r.shuffle(&mut names);
    let sinks = ["sinks.console", "sinks.wavefront", "sinks.null"];
    let mut conf = format!("data-directory = {:?}\nscripts-directory = {:?}\nflush-interval = {}\n", p("data"), p("scripts"), r.pick(&[1, 3600]));
    let mut edges: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut sections: Vec<String> = vec![];
    for i in 0..nf {
        let mut to: Vec<String> = names[i + 1..].iter().filter(|_| r.chance(1, 3)).cloned().collect();
        for s in &sinks { if r.chance(1, 2) { to.push(s.to_string()); } }
        if to.is_empty() { to.push(sinks[r.below(2)].to_string()); }
        r.shuffle(&mut to);
        let mut s = format!("[{}]\nforwards = {:?}\n", names[i], to);
        if names[i].contains("delay") { s += "tolerance = 1000000\n"; }
        if names[i].contains("flush_boundary") { s += &format!("tolerance = {}\n", r.pick(&[0, 1, 40, 100000])); }
        if names[i].contains("programmable") { s += "script = \"s.lua\"\n"; }
        if names[i].contains("json") && r.chance(1, 2) { s += "parse_line = true\n"; }
        sections.push(s);
        edges.insert(names[i].clone(), to);
    }
    sections.push(format!("[sinks.console]\nbin_width = 1\n"));
    sections.push(format!("[sinks.wavefront]\nhost = \"127.0.0.1\"\nport = {}\nbin_width = 1\n", wfp));
    sections.push(format!("[sinks.prometheus]\nhost = \"127.0.0.1\"\nport = {}\n", prom));
    sections.push("[sinks.null]\n".to_string());
    let ns = 1 + r.below(3);
    let mut sources: Vec<(String, u16)> = vec![];
    for i in 0..ns + 1 {
        let kind = if i == ns { "internal" } else { *r.pick(&["graphite", "native"]) };
        let name = if i == ns { "sources.internal".to_string() } else { format!("sources.{}.s{}", kind, i) };
        let mut to: Vec<String> = names.iter().filter(|_| r.chance(1, 2)).cloned().collect();
        for s in &sinks { if r.chance(1, 3) { to.push(s.to_string()); } }
        if i < ns { to.push("sinks.prometheus".to_string()); }
        r.shuffle(&mut to);
        let mut s = format!("[{}]\nforwards = {:?}\n", name, to);
        if i < ns {
            let pt = port();
            s += &format!("port = {}\n{} = \"127.0.0.1\"\n", pt, if kind == "native" { "ip" } else { "host" });
            sources.push((name.clone(), pt));
        }
        sections.push(s);
        edges.insert(name, to);
    }
    // whatever else may be configured and has nothing to do
    if r.chance(1, 2) { sections.push(format!("[sources.statsd.x]\nport = {}\nhost = \"127.0.0.1\"\nforwards = [\"sinks.null\"]\n", port())); }
    if r.chance(1, 2) { sections.push(format!("[sources.avro.x]\nport = {}\nhost = \"127.0.0.1\"\nforwards = [\"sinks.null\"]\n", port())); }
    if r.chance(1, 2) { for (n, to) in [("x", "sinks.null"), ("y", "sinks.console")].iter().take(1 + r.below(2)) { sections.push(format!("[sources.files.{}]\npath = {:?}\nforwards = [{:?}]\n", n, p("no-such.log"), to)); } }
    let bad = r.chance(1, 8);
    if bad {
        let to = *r.pick(&["sinks.nul", "sinks.influxdb", "filters.delay.none", "sources.graphite.s0"]);
        sections.push(match r.below(3) {
            0 => format!("[filters.delay.bad]\ntolerance = 1\nforwards = [{:?}]\n", to),
            1 => format!("[sources.graphite.bad]\nport = {}\nhost = \"127.0.0.1\"\nforwards = [\"sinks.null\", {:?}]\n", port(), to),
            _ => format!("[sources.native.bad]\nport = {}\nip = \"127.0.0.1\"\nforwards = [{:?}, \"sinks.null\"]\n", port(), to),
        });
    }
    r.shuffle(&mut sections);
    conf += &sections.concat();
    let shown = conf.clone();
    note(&shown);
    std::fs::write(p("c.toml"), &conf).unwrap();
    let mut run = start(&p("c.toml"));
    let taken = |run: &Run| run.err.lock().unwrap().contains("AddrInUse");
    if bad {
        let till = Instant::now() + Duration::from_secs(60);
        loop {
            if let Some(_) = run.child.try_wait().unwrap() { return ok(shown, true); }
            if Instant::now() > till { return fail("unknown-forward", shown, "a forward to nothing there is: cernan runs all the same".into()); }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    // paths from each source to each sink
    fn paths(edges: &BTreeMap<String, Vec<String>>, a: &str, b: &str) -> usize {
        if a == b { 1 } else { edges.get(a).map_or(0, |v| v.iter().map(|x| paths(edges, x, b)).sum()) }
    }
    let till = Instant::now() + Duration::from_secs(60);
    let mut sent: Vec<(usize, String, f64)> = vec![];
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    let mut open = vec![];
    for (i, (name, pt)) in sources.iter().enumerate() {
        // up and listening?
        match connect(*pt, till) {
            Some(s) => open.push(s),
            None => {
                if taken(&run) { return ok(shown, false); }
                return fail("no-source", shown, format!("nothing listens for {}: {}", name, run.err.lock().unwrap()));
            }
        }
        let n = 1 + r.below(5);
        if name.contains("native") {
            let mut s = Native::init(NativeConfig { host: "127.0.0.1".to_string(), port: *pt, config_path: None, flush_interval: 1, tags: Default::default() });
            for k in 0..n {
                let (m, v) = (format!("p{}n{}", i, k), f64::from(1 + r.below(1000) as u32));
                s.deliver(Telemetry::new().name(m.clone()).value(v).timestamp(now + k as i64).kind(AggregationMethod::Sum).harden().unwrap());
                sent.push((i, m, v));
            }
            s.flush();
        } else {
            let s = open.last_mut().unwrap();
            for k in 0..n {
                let (m, v) = (format!("p{}g{}", i, k), f64::from(1 + r.below(1000) as u32));
                let _ = s.write_all(format!("{} {} {}\n", m, v, now + k as i64).as_bytes());
                sent.push((i, m, v));
            }
        }
    }
    // all is on its way once prometheus, to which every source forwards, has seen it
    loop {
        let page = scrape(prom);
        if sent.iter().all(|(_, m, v)| page.lines().any(|l| l == format!("{} {}", m, v) || l.starts_with(&format!("{}{{", m)))) { break; }
        if taken(&run) { return ok(shown, false); }
        if let Some(s) = run.child.try_wait().unwrap() { return fail("died", shown, format!("cernan ended before it was told to, with {}: {}", s, run.err.lock().unwrap())); }
        if Instant::now() > till { return fail("no-forward", shown, format!("sent {:?}, but prometheus shows {}", sent, page)); }
        std::thread::sleep(Duration::from_millis(10));
    }
    if r.chance(1, 3) { std::thread::sleep(Duration::from_millis(r.below(1500) as u64)); }
    let sig = *r.pick(&["-TERM", "-INT"]);
    Command::new("kill").arg(sig).arg(run.child.id().to_string()).status().unwrap();
    let till = Instant::now() + Duration::from_secs(60);
    let status = loop {
        if let Some(s) = run.child.try_wait().unwrap() { break s; }
        if Instant::now() > till { return fail("no-end", shown, format!("told to end ({}), cernan still runs after 60 s: {}", sig, run.err.lock().unwrap())); }
        std::thread::sleep(Duration::from_millis(5));
    };
    if !status.success() { return fail("status", shown, format!("told to end ({}), cernan ends with {}: {}", sig, status, run.err.lock().unwrap())); }
    for h in run.readers.drain(..) { h.join().unwrap(); }
    let console: Vec<(String, f64)> = run.out.lock().unwrap().lines().filter(|l| l.starts_with("    p")).filter_map(|l| {
        let l = l.trim();
        Some((l[..l.find('(')?].to_string(), l[l.find("): ")? + 3..].parse().ok()?))
    }).collect();
    let wave = || -> Vec<(String, f64)> { wrote.lock().unwrap().lines().filter_map(|l| { let v: Vec<&str> = l.split(' ').collect(); Some((v[0].to_string(), v.get(1)?.parse().ok()?)) }).filter(|x: &(String, f64)| x.0.starts_with('p')).collect() };
    for (sink, got) in &[("sinks.console", &(|| console.clone()) as &dyn Fn() -> Vec<(String, f64)>), ("sinks.wavefront", &wave)] {
        let mut tries = 0;
        loop {
            let got = got();
            let mut wrong = None;
            for (i, m, v) in &sent {
                let n = paths(&edges, &sources[*i].0, sink);
                let has: Vec<f64> = got.iter().filter(|x| x.0 == *m).map(|x| x.1).collect();
                let good = if sources[*i].0.contains("native") { has.iter().sum::<f64>() == *v * n as f64 } else { has.is_empty() == (n == 0) && has.iter().all(|x| x == v) };
                if !good { wrong = Some(format!("{}: {} of value {} was sent to {}, which forwards to {} along {} ways; of it arrived {:?}", sink, m, v, sources[*i].0, sink, n, has)); }
            }
            match wrong {
                None => break,
                // what wavefront's listener is sent may still be on its way to us
                Some(_) if *sink == "sinks.wavefront" && tries < 100 => { tries += 1; std::thread::sleep(Duration::from_millis(100)); }
                Some(w) => return fail("delivered", shown, w),
            }
        }
    }
    ok(shown, true)
}
/// one source, one sink: what arrived is written within the flush interval, with nothing told to end
fn pulse(r: &mut Rng) -> Res {
    let dir = ev::Dir::new();
    let p = |n: &str| dir.0.join(n);
    for n in &["data", "scripts"] { std::fs::create_dir(p(n)).unwrap(); }
    let (kind, pt) = (*r.pick(&["graphite", "native", "statsd", "files", "internal"]), port());
    let via = r.chance(1, 2);
    let to = if via { "filters.delay.d" } else { "sinks.console" };
    let mut conf = format!("data-directory = {:?}\nscripts-directory = {:?}\nflush-interval = 1\n[sinks.console]\nbin_width = 1\nflush_interval = 1\n", p("data"), p("scripts"));
    if via { conf += "[filters.delay.d]\ntolerance = 1000000\nforwards = [\"sinks.console\"]\n"; }
    conf += &match kind {
        "internal" => format!("[sources.internal]\nforwards = [{:?}]\n", to),
        "files" => format!("[sources.files.s]\npath = {:?}\nforwards = [{:?}]\n", p("a.log"), to),
        _ => format!("[sources.{}.s]\nport = {}\n{} = \"127.0.0.1\"\nforwards = [{:?}]\n", kind, pt, if kind == "native" { "ip" } else { "host" }, to),
    };
    let shown = conf.clone();
    note(&shown);
    std::fs::write(p("c.toml"), &conf).unwrap();
    let mut run = start(&p("c.toml"));
    let till = Instant::now() + Duration::from_secs(60);
    let udp = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let want = if kind == "internal" { "Flushing metrics" } else { "pulse" };
    let mut conn: Option<TcpStream> = None;
    let mut native = None;
    loop {
        if run.out.lock().unwrap().contains(want) { return ok(shown, true); }
        if run.err.lock().unwrap().contains("AddrInUse") { return ok(shown, false); }
        if let Some(s) = run.child.try_wait().unwrap() { return fail("died", shown, format!("cernan ended before it was told to, with {}: {}", s, run.err.lock().unwrap())); }
        if Instant::now() > till { return fail("no-pulse", shown, format!("points are sent all the time, none is written within 60 s: {} {}", run.out.lock().unwrap(), run.err.lock().unwrap())); }
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        match kind {
            "statsd" => { let _ = udp.send_to(b"pulse:1|c", ("127.0.0.1", pt)); }
            "graphite" => {
                if conn.is_none() { conn = connect(pt, till); }
                if let Some(s) = conn.as_mut() { let _ = s.write_all(format!("pulse 1 {}\n", now).as_bytes()); }
            }
            "native" => {
                if native.is_none() && connect(pt, till).is_some() { native = Some(Native::init(NativeConfig { host: "127.0.0.1".to_string(), port: pt, config_path: None, flush_interval: 1, tags: Default::default() })); }
                if let Some(s) = native.as_mut() {
                    s.deliver(Telemetry::new().name("pulse").value(1.0).timestamp(now).kind(AggregationMethod::Sum).harden().unwrap());
                    s.flush();
                }
            }
            "files" => { let _ = std::fs::OpenOptions::new().create(true).append(true).open(p("a.log")).and_then(|mut f| f.write_all(b"pulse\n")); }
            _ => {}
        }
        std::thread::sleep(Duration::from_millis(100));
    }
}
fn main() { wit::main(&[Case { name: "topology", every: 1, run: topology }, Case { name: "pulse", every: 5, run: pulse }]); }
