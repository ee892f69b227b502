// C35: the flush pulses (numbered from one up, one every hundredth of a second, each to every forward); and what a
// sink or source is put to work with.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod metric { pub enum Event { TimerFlush(u64), Shutdown, Other } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { _p: () }
impl Duration {
    pub uninterp spec fn ms(&self) -> int;
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Self) ensures r.ms() == n { unimplemented!() }
}
/// the outputs, and what has been sent to all of them
#[verifier::external_body]
pub struct Channel { _p: () }
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    /// the pulses sent so far
    pub uninterp spec fn pulses(&self) -> int;
    /// the time waited since the last
    pub uninterp spec fn waited(&self) -> int;
}
impl Duration { pub open spec fn hundredth(&self) -> bool { self.ms() == 10 } }
#[verifier::external_body]
pub fn sleep(d: Duration, w: &mut World)
    requires d.hundredth(), old(w).waited() == 0
    ensures final(w).waited() == d.ms(), final(w).pulses() == old(w).pulses()
{ unimplemented!() }
#[verifier::external_body]
pub fn send(chans: &mut Channel, ev: metric::Event, w: &mut World)
    requires ev == metric::Event::TimerFlush((old(w).pulses() + 1) as u64), old(w).waited() == 10
    ensures final(w).pulses() == old(w).pulses() + 1, final(w).waited() == 0
{ unimplemented!() }
/// at a hundred a second, 2^64 pulses are six thousand million years
#[verifier::external_body]
pub proof fn no_end_of_pulses(w: World) ensures w.pulses() < 0xffff_ffff_ffff_ffff { unimplemented!() }
/*@ fn src/source/flush.rs flushes_per_second
sig:
    pub fn flushes_per_second() -> (r: u64)
spec:
    ensures r == 100
@*/
/*@ fn src/source/flush.rs FlushTimer.run
sig:
    pub fn run(mut chans: Channel, w: &mut World) -> !
rw `sleep($*d)` => `sleep($*d, w)`
rw `send(&mut chans, $*e)` => `send(&mut chans, $*e, w)`
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
    requires old(w).pulses() == 0, old(w).waited() == 0
loop 1:
    invariant idx == w.pulses(), w.waited() == 0, flush_duration.hundredth()
at loop 1 start:
    proof { no_end_of_pulses(*w); }
@*/

// ---- a component is put to work with what it is given
#[verifier::external_body]
pub struct Receiver { _p: () }
#[verifier::external_body]
pub struct Chans { _p: () }
pub mod mio { #[verifier::external_body] pub struct Poll { _p: () } }
/// what a thread does: a component works
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct ThreadHandle<S> { _p: std::marker::PhantomData<S> }
impl<S> ThreadHandle<S> {
    /// the component at work, with the queue it reads and the names it is told, or the queues it writes
    pub uninterp spec fn sink(&self) -> (Receiver, Seq<Seq<char>>, S);
    pub uninterp spec fn source(&self) -> (Chans, S);
}
pub mod thread {
    use super::*;
    /// whether this is the new thread
    #[verifier::external_body]
    pub fn forked() -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn ends() -> ! ensures false { unimplemented!() }
    #[verifier::external_body]
    pub fn poller() -> mio::Poll { unimplemented!() }
    #[verifier::external_body]
    pub fn of_sink<S>(Ghost(j): Ghost<(Receiver, Seq<Seq<char>>, S)>) -> (r: ThreadHandle<S>) ensures r.sink() == j { unimplemented!() }
    #[verifier::external_body]
    pub fn of_source<S>(Ghost(j): Ghost<(Chans, S)>) -> (r: ThreadHandle<S>) ensures r.source() == j { unimplemented!() }
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub trait Sink<SConfig>: Sized {
    /// it was made from these settings
    spec fn made(c: SConfig, s: Self) -> bool;
    fn init(config: SConfig) -> (r: Self) ensures Self::made(config, r);
}
pub trait Source<SConfig>: Sized {
    spec fn made(c: SConfig, s: Self) -> bool;
    fn init(config: SConfig) -> (r: Self) ensures Self::made(config, r);
    fn run(self, chans: Chans, poller: mio::Poll, Ghost(j): Ghost<(Chans, Self)>) requires j == (chans, self);
}
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(SConfig)]
pub struct RunnableSink<S, SConfig> { pub recv: Receiver, pub sources: Vec<String>, pub state: S, pub config: std::marker::PhantomData<SConfig> }
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(SConfig)]
pub struct RunnableSource<S, SConfig> { pub chans: Chans, pub source: S, pub config: std::marker::PhantomData<SConfig> }
impl<S: Sink<SConfig>, SConfig> RunnableSink<S, SConfig> {
    pub open spec fn job(self) -> (Receiver, Seq<Seq<char>>, S) { (self.recv, texts(self.sources@), self.state) }
    /// C12
    #[verifier::external_body]
    fn consume(self, Ghost(j): Ghost<(Receiver, Seq<Seq<char>>, S)>) requires j == self.job() { unimplemented!() }
/*@ fn src/sink/mod.rs RunnableSink.new
sig:
    pub fn new(recv: Receiver, sources: Vec<String>, config: SConfig) -> (r: RunnableSink<S, SConfig>)
rw `PhantomData` => `std::marker::PhantomData`
spec:
    ensures r.recv == recv, r.sources == sources, S::made(config, r.state)
@*/
/*@ fn src/sink/mod.rs RunnableSink.run
sig:
    pub fn run(self) -> (r: ThreadHandle<S>)
rw `thread::spawn(move |_poll| { self.consume(); })` => `{ let ghost j = self.job(); if thread::forked() { self.consume(Ghost(j)); thread::ends() } thread::of_sink(Ghost(j)) }`
spec:
    ensures r.sink() == self.job()
@*/
}
/*@ fn src/sink/mod.rs trait Sink.new
sig:
    pub fn sink_new<Me: Sink<SConfig>, SConfig>(recv: Receiver, sources: Vec<String>, config: SConfig) -> (r: RunnableSink<Me, SConfig>)
rw `Self` => `Me`
spec:
    ensures r.job().0 == recv, r.job().1 == texts(sources@), Me::made(config, r.job().2)
@*/
impl<S: Source<SConfig>, SConfig> RunnableSource<S, SConfig> {
    pub open spec fn job(self) -> (Chans, S) { (self.chans, self.source) }
/*@ fn src/source/mod.rs RunnableSource.new
sig:
    pub fn new(chans: Chans, config: SConfig) -> (r: RunnableSource<S, SConfig>)
rw `PhantomData` => `std::marker::PhantomData`
spec:
    ensures r.chans == chans, S::made(config, r.source)
@*/
/*@ fn src/source/mod.rs RunnableSource.run
sig:
    pub fn run(self) -> (r: ThreadHandle<S>)
rw `thread::spawn(move |poller| self.source.run(self.chans, poller))` => `{ let ghost j = self.job(); if thread::forked() { let poller = thread::poller(); self.source.run(self.chans, poller, Ghost(j)); thread::ends() } thread::of_source(Ghost(j)) }`
spec:
    ensures r.source() == self.job()
@*/
}
/*@ fn src/source/mod.rs trait Source.new
sig:
    pub fn source_new<Me: Source<SConfig>, SConfig>(chans: Chans, config: SConfig) -> (r: RunnableSource<Me, SConfig>)
rw `Self` => `Me`
spec:
    ensures r.job().0 == chans, Me::made(config, r.job().1)
@*/
fn main() {}
}
