// C22: the real token slab and the real delay.
extern crate cernan;
extern crate mio;
#[path = "wit.rs"]
mod wit;
use cernan::util::TokenSlab;
use std::time::Instant;
use wit::*;

#[derive(Debug)]
struct Conn(u64);
impl mio::Evented for Conn {
    fn register(&self, _: &mio::Poll, _: mio::Token, _: mio::Ready, _: mio::PollOpt) -> std::io::Result<()> { Ok(()) }
    fn reregister(&self, _: &mio::Poll, _: mio::Token, _: mio::Ready, _: mio::PollOpt) -> std::io::Result<()> { Ok(()) }
    fn deregister(&self, _: &mio::Poll) -> std::io::Result<()> { Ok(()) }
}
fn tokens(r: &mut Rng) -> Res {
    let n = match r.below(20) { 0 => 2048, 1 => 2040 + r.below(9), 2 => 1000 + r.below(1048), _ => r.below(40) };
    let desc = format!("{} connections registered", n);
    note(&desc);
    let mut s: TokenSlab<Conn> = TokenSlab::new();
    let mut held: Vec<(mio::Token, u64)> = Vec::new();
    for i in 0..n {
        if s.count() != i { return fail("count", desc, format!("{} counted of {}", s.count(), i)); }
        let id = r.u64();
        let t = s.insert(Conn(id));
        if t == cernan::constants::SYSTEM { return fail("system", desc, format!("connection {} got the system token", i)); }
        held.push((t, id));
    }
    if s.count() != n { return fail("count", desc, format!("{} counted of {}", s.count(), n)); }
    let mut seen = std::collections::HashSet::new();
    for (t, id) in &held {
        if !seen.insert(t.0) { return fail("twice", desc, format!("{:?} handed out twice", t)); }
        if s[*t].0 != *id { return fail("lookup", desc, format!("{:?} yields another's connection", t)); }
    }
    for (t, id) in &mut held {
        if r.chance(1, 3) { *id = r.u64(); s[*t].0 = *id; }
    }
    let mut all: Vec<(usize, u64)> = s.iter().map(|(i, c)| (i, c.0)).collect();
    all.sort();
    let mut want: Vec<(usize, u64)> = held.iter().map(|(t, id)| (t.0, *id)).collect();
    want.sort();
    if all != want { return fail("iter", desc, "iteration yields other tokens or connections".into()); }
    ok(format!("{} {:?}", desc, held.get(0)), n > 0)
}
/// a busy machine can only make a delay longer
fn delays(r: &mut Rng) -> Res {
    let n = match r.below(4) { 0 => 9 + r.below(5) as u32, 1 => *r.pick(&[u32::max_value(), 1 << 16, 64, 63, 33, 32, 31]), _ => r.below(9) as u32 };
    let desc = format!("attempt {}", n);
    note(&desc);
    let (lo, hi) = if n == 0 { (0, 0) } else if n >= 9 { (512, 512) } else { (1 << (n - 1), 1 << n) };
    let mut best = u64::max_value();
    for _ in 0..4 {
        let t = Instant::now();
        cernan::time::delay(n);
        let d = t.elapsed();
        let ms = d.as_secs() * 1000 + d.subsec_millis() as u64;
        if ms < lo { return fail("short", desc, format!("{} ms instead of at least {}", ms, lo)); }
        best = best.min(ms);
        if best <= hi + hi / 4 + 2 { break; }
    }
    if best > hi + 400 { return fail("long", desc, format!("at least {} ms instead of {}", best, hi)); }
    ok(desc, n > 0)
}
fn main() {
    wit::main(&[Case { name: "tokens", every: 1, run: tokens }, Case { name: "delays", every: 20, run: delays }]);
}
