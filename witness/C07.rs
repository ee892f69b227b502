// C07: length-prefixed payloads over a real loopback connection, cut into arbitrary pieces.
extern crate byteorder;
extern crate mio;
#[macro_use]
extern crate log;
#[path = "/repo/src/source/nonblocking.rs"]
mod nonblocking;
#[path = "wit.rs"]
mod wit;
use nonblocking::{write_all, BufferedPayload, PayloadErr};
use std::io::{Read, Write};
use std::time::{Duration, Instant};
use wit::*;

fn pair() -> (std::net::TcpStream, mio::net::TcpStream) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (b, _) = l.accept().unwrap();
    a.set_nodelay(true).unwrap();
    (a, mio::net::TcpStream::from_stream(b).unwrap())
}

fn frames(r: &mut Rng) -> Res {
    let max = *r.pick(&[16usize, 5000, 20_000, 1_048_576]);
    let n = 1 + r.size(5, 40);
    let mut sent: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        let len = match r.below(10) {
            8 | 9 => (sent.last().map_or(0, |p: &Vec<u8>| p.len()) + 1 + r.below(9)).min(max),
            0 => 0, 1 => 1, 2 => max, 3 => r.below(max + 1).min(9000), 4 => (8192 - 4usize).min(max), 5 => (8192 - 6 + r.below(12)).min(max), 6 => r.size(40, max).min(max), _ => r.below(40).min(max) };
        sent.push(r.bytes(len));
    }
    let mut wire = Vec::new();
    for p in &sent { wire.extend_from_slice(&(p.len() as u32).to_be_bytes()); wire.extend_from_slice(p); }
    // how the stream goes on behind the payloads
    let tail = r.below(3);
    let over = max as u32 + 1 + r.below(1 << 30) as u32;
    let mut whole = wire.clone();
    if tail == 1 { whole.extend_from_slice(&over.to_be_bytes()); match r.below(2) { 0 => whole.extend_from_slice(&r.bytes(9)), _ => for _ in 0..3 { whole.extend_from_slice(&[0, 0, 0, 2, 7, 7]); } } }
    if tail == 2 { let mut part = (5u32).to_be_bytes().to_vec(); part.extend_from_slice(&[1, 2]); part.truncate(r.below(7)); whole.extend_from_slice(&part); }
    let mut cuts: Vec<usize> = Vec::new();
    let mut at = 0;
    while at < whole.len() {
        at += match r.below(4) { 0 => 1, 1 => 1 + r.below(5), 2 => 1 + r.below(200), _ => 1 + r.below(30_000) };
        cuts.push(at.min(whole.len()));
    }
    let desc = format!("max {} payload lengths {:?} tail {} pieces ending at {:?}", max, sent.iter().map(|p| p.len()).collect::<Vec<_>>(), tail, cuts.iter().take(60).collect::<Vec<_>>());
    note(&desc);
    let (mut w, s) = pair();
    let mut reader = BufferedPayload::new(s, max);
    let mut got: Vec<Vec<u8>> = Vec::new();
    let mut from = 0;
    let mut refused = false;
    let mut ended = false;
    for c in &cuts {
        w.write_all(&whole[from..*c]).unwrap();
        from = *c;
        // what is complete by now
        let (mut due, mut k) = (0, 0);
        for p in &sent { k += 4 + p.len(); if k <= from { due += 1; } }
        let t = Instant::now();
        loop {
            match reader.read() {
                Ok(p) => got.push(p),
                Err(PayloadErr::WouldBlock) => {
                    if got.len() >= due { break; }
                    if t.elapsed() > Duration::from_secs(3) { return fail("frames-missing", desc, format!("{} payloads have arrived, {} were read", due, got.len())); }
                    std::thread::sleep(Duration::from_micros(50));
                }
                Err(PayloadErr::LengthTooLarge) => { refused = true; break; }
                Err(e) => return fail("frames-error", desc, format!("unexpected answer {:?} after {} payloads", e, got.len())),
            }
        }
        if got[..] != sent[..got.len().min(sent.len())] {
            let i = (0..got.len()).find(|i| *i >= sent.len() || got[*i] != sent[*i]).unwrap();
            return fail("frames-wrong", desc, format!("payload {} differs from the one sent (length {} for {})", i, got[i].len(), sent.get(i).map_or(0, |p| p.len())));
        }
        if refused {
            for _ in 0..4 { if let Ok(p) = reader.read() { return fail("frames-made-up", desc, format!("a payload of {} bytes after a refusal", p.len())); } }
            break;
        }
    }
    if refused && (tail != 1 || got.len() < sent.len()) { return fail("frames-refused", desc, "a payload within the maximum was refused".into()); }
    drop(w);
    let t = Instant::now();
    while !ended && t.elapsed() < Duration::from_secs(3) {
        match reader.read() {
            Ok(p) => return fail("frames-made-up", desc, format!("a payload of {} bytes that was never sent{}", p.len(), if refused { ", after a refusal" } else { "" })),
            Err(PayloadErr::WouldBlock) => std::thread::sleep(Duration::from_micros(50)),
            Err(PayloadErr::LengthTooLarge) => {
                refused = true;
                ended = true;
                // what was refused stays refused: nothing behind it is taken for a payload
                for _ in 0..4 { if let Ok(p) = reader.read() { return fail("frames-made-up", desc, format!("a payload of {} bytes after a refusal", p.len())); } }
            }
            Err(PayloadErr::EOF) => ended = true,
            // the peer closed without reading, which may reset the connection
            Err(PayloadErr::IO(_)) => ended = true,
            Err(e) => return fail("frames-end", desc, format!("unexpected answer {:?} at the end", e)),
        }
    }
    if !ended { return fail("frames-no-end", desc, "the end of the stream is not reported".into()); }
    if tail == 1 && !refused { return fail("frames-too-large", desc, format!("a payload of {} bytes was not refused", over)); }
    if got != sent { return fail("frames-wrong", desc, "payloads lost".into()); }
    ok(desc, true)
}

fn writes(r: &mut Rng) -> Res {
    let n = *r.pick(&[0usize, 1, 100, 70_000, 3_000_000, 8_000_000]);
    let data = r.bytes(n);
    let pause = r.below(3) as u64;
    let desc = format!("{} bytes to a peer that waits {} ms", n, pause);
    note(&desc);
    let (mut peer, s) = pair();
    let t = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(pause));
        let mut v = Vec::new();
        let mut b = vec![0; 100_000];
        loop { match peer.read(&mut b) { Ok(0) => return v, Ok(k) => v.extend_from_slice(&b[..k]), Err(_) => return v } }
    });
    let res = write_all(&s, &data);
    drop(s);
    let got = t.join().unwrap();
    if res.is_err() || got != data { return fail("write-all", desc, format!("answered {:?}, peer got {} bytes", res.is_ok(), got.len())); }
    ok(desc, n > 0)
}

fn main() {
    wit::main(&[Case { name: "frames", every: 1, run: frames }, Case { name: "writes", every: 20, run: writes }]);
}
