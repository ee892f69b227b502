SEEDS = []
def S(**k): SEEDS.append(k)

S(id="statsd_no_pulse", property="C35", file="src/bin/cernan.rs",
  old='''    if let Some(cfg_map) = mem::replace(&mut args.statsds, None) {
        for (config_path, config) in cfg_map {
            populate_forwards(
                Some(&mut flush_sends),''',
  new='''    if let Some(cfg_map) = mem::replace(&mut args.statsds, None) {
        for (config_path, config) in cfg_map {
            populate_forwards(
                None,''',
  needs="a sink that only statsd sources forward to", breaks="such a sink gets no flush pulses, and writes nothing before the end",
  demo='''
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
fn main() {
    let dir = std::env::temp_dir();
    let data = dir.join("data");
    std::fs::create_dir(&data).unwrap();
    let port = std::net::UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let conf = dir.join("c.toml");
    let mut f = std::fs::File::create(&conf).unwrap();
    write!(f, "data-directory = {:?}\\nflush-interval = 1\\n[sources.statsd.a]\\nport = {}\\nhost = \\"127.0.0.1\\"\\nforwards = [\\"sinks.console\\"]\\n[sinks.console]\\nbin_width = 1\\n", data, port).unwrap();
    drop(f);
    let mut child = Command::new("/repo/target/debug/cernan").arg("--config").arg(&conf).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        let mut all = String::new();
        while let Ok(n) = out.read(&mut b) {
            if n == 0 { break; }
            all.push_str(&String::from_utf8_lossy(&b[..n]));
            if all.contains("seen.by.console") { let _ = tx.send(()); break; }
        }
    });
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let till = Instant::now() + Duration::from_secs(25);
    let mut seen = false;
    while !seen && Instant::now() < till {
        let _ = s.send_to(b"seen.by.console:1|c", ("127.0.0.1", port));
        seen = rx.recv_timeout(Duration::from_millis(300)).is_ok();
    }
    let _ = child.kill();
    let _ = child.wait();
    if !seen { eprintln!("the console never wrote the point"); std::process::exit(1); }
}
''')
S(id="odd_fields", property="C04", file="src/protocols/graphite.rs",
  old='''                None => return false,
            },
            None => return false,
        }
    }''',
  new='''                None => break,
            },
            None => return false,
        }
    }''',
  needs="whole triples followed by a name and a value alone", breaks="text that is no whole number of triples is accepted in part",
  demo='''
use std::sync::Arc;
fn main() {
    for text in &["a 1 2 b 3", "a 1 2\\nb 3 4\\nc 5\\n", "a 1 2 b", "a 1"] {
        let mut res = Vec::new();
        let ok = cernan::protocols::graphite::parse_graphite(text, &mut res, &Arc::new(Some(cernan::metric::Telemetry::default())));
        assert!(!ok, "{:?} is accepted", text);
    }
}
''')
S(id="counter_race", property="C24", file="src/source/internal.rs",
  old='''macro_rules! atom_telem {
    ($name:expr, $atom:expr, $chans:expr) => {
        let now = time::now();
        let value = $atom.swap(0, Ordering::Relaxed);
        if value != 0 {''',
  new='''macro_rules! atom_telem {
    ($name:expr, $atom:expr, $chans:expr) => {
        let now = time::now();
        let value = $atom.load(Ordering::Relaxed);
        if value != 0 {
            $atom.store(0, Ordering::Relaxed);''',
  needs="a count made between reading and resetting a counter", breaks="the count is lost",
  externs=["hopper"],
  demo='''
use cernan::metric::Event;
use cernan::source::{Internal, InternalConfig, Source};
use cernan::thread::Stoppable;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
fn main() {
    let dir = std::env::temp_dir().join("q");
    std::fs::create_dir(&dir).unwrap();
    let (snd, mut rcv) = hopper::channel("q", &dir).unwrap();
    let handle = Internal::new(vec![snd], InternalConfig::default()).run();
    let end = Instant::now() + Duration::from_millis(12_300);
    let workers: Vec<_> = (0..4).map(|_| std::thread::spawn(move || {
        let mut n = 0usize;
        while Instant::now() < end { for _ in 0..500 { cernan::util::UTIL_SEND_HOPPER_ERROR_FULL.fetch_add(1, Ordering::Relaxed); n += 1; } }
        n
    })).collect();
    let made: usize = workers.into_iter().map(|w| w.join().unwrap()).sum();
    std::thread::sleep(Duration::from_millis(2_500));
    handle.shutdown();
    let mut seen = 0.0;
    for e in rcv.iter() {
        match e {
            Event::Shutdown => break,
            Event::Telemetry(ref t) if t.name == "cernan.util.hopper.error.full" => seen += t.sum().unwrap(),
            _ => {}
        }
    }
    assert_eq!(seen, made as f64);
}
''')
S(id="lua_empty_value", property="C30", file="src/filter/programmable_filter.rs",
  old='''        match state.to_str(3).map(|k| k.to_owned()) {
            Some(key) => {
                (*pyld).logs[idx].value = key;
            }
            None => {''',
  new='''        match state.to_str(3).map(|k| k.to_owned()) {
            Some(ref key) if key.is_empty() => {}
            Some(key) => {
                (*pyld).logs[idx].value = key;
            }
            None => {''',
  needs="a script that sets a line's value to the empty string", breaks="the line keeps its old value",
  demo='''
use cernan::filter::{Filter, ProgrammableFilter, ProgrammableFilterConfig};
use cernan::metric::{Event, LogLine};
fn main() {
    let dir = std::env::temp_dir();
    std::fs::write(dir.join("s.lua"), "function process_metric(pyld) end\\nfunction tick(pyld) end\\nfunction process_log(pyld)\\n payload.log_set_value(pyld, 1, string.gsub(payload.log_value(pyld, 1), \\"secret\\", \\"\\"))\\nend\\n").unwrap();
    let mut c = ProgrammableFilterConfig::default();
    c.scripts_directory = Some(dir.clone());
    c.script = Some(dir.join("s.lua"));
    c.config_path = Some("filters.f".to_string());
    let mut f = ProgrammableFilter::new(c);
    for (given, due) in &[("a secret", "a "), ("secret", ""), ("", "")] {
        let mut res = Vec::new();
        let _ = f.process(Event::new_log(LogLine::new("p", given)), &mut res);
        assert_eq!(res.len(), 1);
        match res[0] { Event::Log(ref l) => assert_eq!(l.value, *due), _ => panic!() }
    }
}
''')
S(id="payload_at_max", property="C07", file="src/source/nonblocking.rs",
  old="if self.payload_size.unwrap() > self.max_payload_size {", new="if self.payload_size.unwrap() >= self.max_payload_size {",
  needs="a payload of exactly the configured maximum", breaks="it is refused",
  externs=["mio", "byteorder", "log"],
  demo='''
#[macro_use]
extern crate log;
#[path = "/repo/src/source/nonblocking.rs"]
#[allow(dead_code)]
mod nonblocking;
use nonblocking::BufferedPayload;
use std::io::Write;
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let mut a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (b, _) = l.accept().unwrap();
    let mut r = BufferedPayload::new(mio::net::TcpStream::from_stream(b).unwrap(), 100);
    for n in &[99u32, 100, 0, 100] {
        a.write_all(&n.to_be_bytes()).unwrap();
        a.write_all(&vec![7; *n as usize]).unwrap();
        let till = std::time::Instant::now() + std::time::Duration::from_secs(10);
        let got = loop {
            match r.read() {
                Ok(p) => break p,
                Err(e) => { assert!(format!("{:?}", e) == "WouldBlock" && std::time::Instant::now() < till, "{:?} for {} bytes", e, n); std::thread::sleep(std::time::Duration::from_millis(2)); }
            }
        };
        assert_eq!(got, vec![7u8; *n as usize]);
    }
}
''')
