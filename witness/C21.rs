// C21: a real file, written, cut, truncated, replaced and removed while the real watcher follows
// it; and the real source following several files.
extern crate cernan;
extern crate hopper;
pub mod source { pub mod internal { pub fn report_full_telemetry(_: &str, _: f64, _: Option<Vec<(&str, &str)>>) {} } }
use cernan::{metric, time, util};
#[path = "/repo/src/source/file/file_watcher.rs"]
mod file_watcher;
#[path = "wit.rs"]
mod wit;
#[path = "ev.rs"]
mod ev;
use cernan::metric::Event;
use cernan::source::{FileServer, FileServerConfig, Source};
use cernan::thread::Stoppable;
use file_watcher::FileWatcher;
use std::fs::{File, OpenOptions};
use std::io::Write;
use std::path::PathBuf;
use std::time::{Duration, Instant};
use wit::*;

fn piece(r: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..r.size(4, 60) {
        match r.below(9) {
            0 => b.extend(r.text("aé漢🦀\u{0}\r\t ", 1, 6, |_| true).into_bytes()),
            1 => b.push(10),
            2 => b.extend(b"\r\n"),
            3 => { let k = 1 + r.below(3); let x = r.bytes(k); b.extend(x) }
            4 => { let k = r.size(20_000, 100_000); b.extend(vec![b'z'; k]) }
            5 => { let c = "漢🦀".as_bytes(); let k = r.below(c.len()); b.extend(&c[..k]) }
            _ => { b.extend(r.string("abc 1", 1, 12).into_bytes()); b.push(10) }
        }
    }
    b
}
/// what the file system holds, and what is to be yielded
struct World { dir: PathBuf, path: PathBuf, f: Option<File>, held: Vec<u8>, want: Vec<Option<String>>, empties: usize, n: usize }
impl World {
    fn wrote(&mut self, b: &[u8]) {
        for x in b {
            if *x == 10 { self.end() } else { self.held.push(*x) }
        }
    }
    fn end(&mut self) {
        let l = std::mem::replace(&mut self.held, Vec::new());
        if l.is_empty() { self.empties += 1 } else { self.want.push(String::from_utf8(l).ok()) }
    }
}
fn watch(r: &mut Rng) -> Res {
    let dir = ev::Dir::new();
    let path = dir.0.join("log");
    let mut w = World { dir: dir.0.clone(), path: path.clone(), f: None, held: vec![], want: vec![], empties: 0, n: 0 };
    let mut shown = String::new();
    let pre = r.chance(2, 3);
    if pre {
        let mut f = File::create(&path).unwrap();
        let b = piece(r);
        f.write_all(&b).unwrap();
        shown += &format!("[before: {} bytes]", b.len());
        w.f = Some(f);
    }
    note(&shown);
    let mut fw = FileWatcher::new(&path).unwrap();
    let mut size = if pre { std::fs::metadata(&path).unwrap().len() } else { 0 };
    let mut got: Vec<Option<String>> = Vec::new();
    let mut buf = String::new();
    // the buffer may hold something already
    let junk = r.string("j", 0, 2);
    for _ in 0..1 + r.below(10) {
        let gone = w.f.is_none();
        match if gone { 6 } else { r.below(6) } {
            0 | 1 | 2 => for _ in 0..1 + r.below(3) {
                let b = piece(r);
                w.f.as_mut().unwrap().write_all(&b).unwrap();
                w.wrote(&b);
                shown += &format!("[write {:?}]", String::from_utf8_lossy(&b[..b.len().min(60)]));
                if r.chance(1, 3) { shown += "[read]"; read(&mut fw, &mut buf, &junk, &mut got); }
            },
            3 if size > 0 => {
                // truncated, and possibly written again but not up to where it was
                if !w.held.is_empty() { w.end(); }
                w.f = Some(File::create(&w.path).unwrap());
                let b = piece(r);
                let k = b.len().min(size as usize - 1);
                w.f.as_mut().unwrap().write_all(&b[..k]).unwrap();
                w.wrote(&b[..k]);
                shown += &format!("[truncate, write {:?}]", String::from_utf8_lossy(&b[..k.min(60)]));
            }
            4 => {
                // replaced: what is written to the old one until then belongs to it
                let b = piece(r);
                w.n += 1;
                let to = w.dir.join(format!("log.{}", w.n));
                std::fs::rename(&w.path, &to).unwrap();
                w.f.as_mut().unwrap().write_all(&b).unwrap();
                w.wrote(&b);
                if !w.held.is_empty() { w.end(); }
                let mut f = File::create(&w.path).unwrap();
                let c = piece(r);
                f.write_all(&c).unwrap();
                w.wrote(&c);
                w.f = Some(f);
                shown += &format!("[old {:?}, replaced, new {:?}]", String::from_utf8_lossy(&b[..b.len().min(60)]), String::from_utf8_lossy(&c[..c.len().min(60)]));
            }
            5 => {
                let b = piece(r);
                w.f.as_mut().unwrap().write_all(&b).unwrap();
                w.wrote(&b);
                if !w.held.is_empty() { w.end(); }
                std::fs::remove_file(&w.path).unwrap();
                w.f = None;
                shown += &format!("[write {:?}, remove]", String::from_utf8_lossy(&b[..b.len().min(60)]));
            }
            6 => {
                let mut f = File::create(&w.path).unwrap();
                let c = piece(r);
                f.write_all(&c).unwrap();
                w.wrote(&c);
                w.f = Some(f);
                shown += &format!("[created, {:?}]", String::from_utf8_lossy(&c[..c.len().min(60)]));
            }
            _ => {}
        }
        note(&shown);
        // read all there is; an empty line is not told from no line
        let mut idle = 0;
        while idle < 6 + w.empties {
            if read(&mut fw, &mut buf, &junk, &mut got) { idle = 0 } else { idle += 1 }
            if got.len() > w.want.len() + 20 { break; }
        }
        w.empties = 0;
        size = std::fs::metadata(&w.path).map(|m| m.len()).unwrap_or(0);
        if got != w.want {
            let i = (0..).find(|i| got.get(*i) != w.want.get(*i)).unwrap();
            return fail("lines", shown, format!("line {}: {:?} was yielded instead of {:?}", i, got.get(i), w.want.get(i)));
        }
        if w.f.is_none() && !fw.dead() { return fail("undead", shown, "a file that is gone is not seen to be".into()); }
        if w.f.is_some() && fw.dead() { return fail("dead", shown, "a file that is there is seen as gone".into()); }
    }
    ok(shown, !got.is_empty())
}
/// one call; whether it yielded something
fn read(fw: &mut FileWatcher, buf: &mut String, junk: &str, got: &mut Vec<Option<String>>) -> bool {
    buf.clear();
    buf.push_str(junk);
    match fw.read_line(buf) {
        Ok(0) => { if buf != junk { got.push(Some(format!("nothing, but the buffer holds {:?}", buf))); } false }
        Ok(n) => {
            if !buf.starts_with(junk) || buf.len() != junk.len() + n { got.push(Some(format!("length {} for {:?}", n, buf))); }
            else { got.push(Some(buf[junk.len()..].to_string())); }
            true
        }
        Err(_) => { got.push(None); true }
    }
}

/// the source, following three files
fn serve(r: &mut Rng) -> Res {
    let dir = ev::Dir::new();
    let logs = dir.0.join("logs");
    std::fs::create_dir(&logs).unwrap();
    let q = dir.0.join("q");
    std::fs::create_dir(&q).unwrap();
    let (snd, mut rcv) = hopper::channel_with_explicit_capacity::<Event>("f", &q, 1 << 20, 1 << 20, 100).unwrap();
    let paths: Vec<PathBuf> = (0..3).map(|i| logs.join(format!("f{}.log", i))).collect();
    let open = |p: &PathBuf| OpenOptions::new().append(true).create(true).open(p).unwrap();
    let mut fs: Vec<File> = paths.iter().map(|p| open(p)).collect();
    let most = *r.pick(&[1usize, 10, 2048]);
    let conf = FileServerConfig { path: Some(logs.join("*.log")), max_read_bytes: most, forwards: vec![], config_path: None };
    let h = FileServer::new(vec![snd], conf).run();
    let mut want: Vec<Vec<String>> = vec![vec![]; 3];
    let mut got: Vec<Vec<String>> = vec![vec![]; 3];
    let desc = format!("three files, at most {} bytes at once", most);
    note(&desc);
    let mut it = rcv.iter();
    let before = panics();
    // the files are followed once a line of each has come through
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (stop2, mut fs2): (_, Vec<File>) = (stop.clone(), paths.iter().map(|p| open(p)).collect());
    let writer = std::thread::spawn(move || {
        while !stop2.load(std::sync::atomic::Ordering::SeqCst) {
            for f in &mut fs2 { f.write_all(b"sync\n").unwrap(); }
            std::thread::sleep(Duration::from_millis(10));
        }
    });
    let mut live = [false; 3];
    while !live.iter().all(|x| *x) {
        match it.next() {
            Some(Event::Log(l)) => { if let Some(i) = paths.iter().position(|p| p.to_str() == Some(&l.path)) { live[i] = true; } }
            e => return fail("serve-other", desc, format!("sent on {:?}", e)),
        }
        if panics() > before { return fail("serve-panic", desc, last_panic()); }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    writer.join().unwrap();
    for n in 0..30 + r.below(40) {
        let i = r.below(3);
        let l = match r.below(6) { 0 => r.string("abé", 1, 1), 1 => { let k = r.size(3, 9000); r.text("abcdé \t", 1, 1 + k, |w| !w.contains('\n')) } _ => format!("{} {}", n, r.string("abcdé ", 0, 30)) };
        fs[i].write_all(l.as_bytes()).unwrap();
        if r.chance(1, 4) { std::thread::sleep(Duration::from_millis(r.below(4) as u64)); }
        if r.chance(1, 9) {
            // unfinished, rotated away, and finished only then
            std::fs::rename(&paths[i], logs.join(format!("f{}.{}", i, n))).unwrap();
            fs[i].write_all(b"\n").unwrap();
            // for a while there is no file, or there is right away
            if r.chance(1, 2) { std::thread::sleep(Duration::from_millis(r.below(40) as u64)); }
            fs[i] = open(&paths[i]);
            std::thread::sleep(Duration::from_millis(2));
            want[i].push(l);
            // wait until it is through: two replacements at once cannot be told from one
            let m = format!("mark {}", n);
            fs[i].write_all(format!("{}\n", m).as_bytes()).unwrap();
            want[i].push(m.clone());
            loop {
                match it.next() {
                    Some(Event::Log(e)) => { let j = match paths.iter().position(|p| p.to_str() == Some(&e.path)) { Some(j) => j, None => return fail("serve-path", desc, e.path) }; let hit = e.value == m; if e.value != "sync" { got[j].push(e.value); } if hit { break; } }
                    e => return fail("serve-other", desc, format!("sent on {:?}", e)),
                }
            }
        } else {
            fs[i].write_all(b"\n").unwrap();
            want[i].push(l);
        }
        if r.chance(1, 9) { fs[i].write_all(b"\n").unwrap(); }
    }
    for i in 0..3 { fs[i].write_all(b"the end\n").unwrap(); want[i].push("the end".into()); }
    let mut ends = 0;
    while ends < 3 {
        match it.next() {
            Some(Event::Log(e)) => { let j = match paths.iter().position(|p| p.to_str() == Some(&e.path)) { Some(j) => j, None => return fail("serve-path", desc, e.path) }; if e.value == "the end" { ends += 1; } if e.value != "sync" { got[j].push(e.value); } }
            e => return fail("serve-other", desc, format!("sent on {:?}", e)),
        }
        if panics() > before { return fail("serve-panic", desc, last_panic()); }
    }
    h.shutdown();
    match it.next() { Some(Event::Shutdown) => {} e => return fail("serve-shutdown", desc, format!("after the last line: {:?}", e)) }
    for i in 0..3 {
        if got[i] != want[i] {
            let k = (0..).find(|k| got[i].get(*k) != want[i].get(*k)).unwrap();
            return fail("serve-lines", desc, format!("file {}, line {}: {:?} instead of {:?}", i, k, got[i].get(k), want[i].get(k)));
        }
    }
    ok(desc, true)
}
fn main() {
    wit::main(&[Case { name: "watch", every: 1, run: watch }, Case { name: "serve", every: 400, run: serve }]);
}
