// C23: how a source ends.
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
global size_of usize == 8;

/// What one source does to its surroundings. Threads, registrations and connections go by keys; a thread's key
/// is that of the registration by which it is told to end.
pub struct W {
    /// what a poller listens to: poller, token, registration
    pub heard: Set<(int, usize, int)>,
    pub started: Set<int>,
    /// threads told to end, or otherwise signalled
    pub told: Set<int>,
    /// threads known to have done their work
    pub done: Set<int>,
    /// threads waited for to the end
    pub ended: Set<int>,
    /// threads waited for without being told, nor known to be done
    pub idle: Set<int>,
    /// connections accepted
    pub conns: Seq<int>,
    /// there was nothing left to accept when last asked
    pub dry: bool,
    // of another thread's course
    pub ran: bool,
    pub noted: Option<usize>,
}
#[verifier::external_body]
pub struct World { _p: () }
impl View for World { type V = W; uninterp spec fn view(&self) -> W; }
#[verifier::external_body]
pub struct Fault { _p: () }
impl std::fmt::Debug for Fault {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl World {
    /// The text after it is what another thread runs, some time.
    #[verifier::external_body]
    pub fn elsewhere(&mut self) -> (r: bool) ensures r ==> final(self)@ == (W { ran: false, noted: None, ..old(self)@ }), !r ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn over(&mut self) ensures false { unimplemented!() }
    /// less than 2^64 connections
    #[verifier::external_body]
    pub fn not_that_many(&self, p: &ThreadPool) ensures p.next() < usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn ran(&mut self) ensures final(self)@ == (W { ran: true, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn start(&mut self, key: Ghost<int>) -> (r: thread::JoinHandle<()>)
        ensures r.key() == key@, final(self)@ == (W { started: old(self)@.started.insert(key@), ..old(self)@ })
    { unimplemented!() }
}
pub mod thread {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct JoinHandle<T> { _p: PhantomData<T> }
    impl<T> JoinHandle<T> {
        pub uninterp spec fn key(&self) -> int;
        /// Err if the thread panicked
        #[verifier::external_body]
        pub fn join(self, w: &mut World) -> (r: Result<T, Fault>) ensures final(w)@ == waited(old(w)@, self.key()) { unimplemented!() }
    }
}
pub open spec fn waited(w: W, k: int) -> W {
    W { ended: w.ended.insert(k), idle: if w.told.contains(k) || w.done.contains(k) { w.idle } else { w.idle.insert(k) }, ..w }
}
pub open spec fn told(w: W, k: int) -> W { W { told: w.told.insert(k), ..w } }
pub trait Evented {
    spec fn key(&self) -> int;
}
pub mod mio {
    use super::*;
    pub type Token = usize;
    pub use super::Evented;
    #[verifier::external_body]
    pub struct Poll { _p: () }
    #[verifier::external_body]
    pub struct Events { _p: () }
    #[verifier::external_body]
    pub struct Event { _p: () }
    #[verifier::external_body]
    pub struct Registration { _p: () }
    #[verifier::external_body]
    pub struct SetReadiness { _p: () }
    pub struct Ready {}
    impl Ready { pub fn readable() -> Ready { Ready {} } }
    pub struct PollOpt {}
    impl PollOpt { pub fn edge() -> PollOpt { PollOpt {} } }
    impl Evented for Registration { uninterp spec fn key(&self) -> int; }
    impl Registration {
        #[verifier::external_body]
        pub fn new2(w: &mut World) -> (r: (Registration, SetReadiness))
            ensures r.0.key() == r.1.key(), !old(w)@.started.contains(r.1.key()), final(w)@ == old(w)@
        { unimplemented!() }
    }
    impl SetReadiness {
        pub uninterp spec fn key(&self) -> int;
        #[verifier::external_body]
        pub fn set_readiness(&self, x: Ready, w: &mut World) -> (r: Result<(), Fault>) ensures r is Ok, final(w)@ == told(old(w)@, self.key()) { unimplemented!() }
    }
    impl Events {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> Events { unimplemented!() }
        pub uninterp spec fn of(&self) -> Seq<Event>;
    }
    impl Event {
        pub uninterp spec fn tok(&self) -> usize;
        #[verifier::external_body]
        pub fn token(&self) -> (r: usize) ensures r == self.tok() { unimplemented!() }
    }
    pub open spec fn heard(h: Set<(int, usize, int)>, p: int, t: usize) -> bool { exists|k: int| #[trigger] h.contains((p, t, k)) }
    pub broadcast proof fn lemma_heard(h: Set<(int, usize, int)>, p: int, t: usize, k: int, p2: int, t2: usize)
        ensures #[trigger] heard(h.insert((p, t, k)), p2, t2) ==> heard(h, p2, t2) || (p2 == p && t2 == t)
    {
        if heard(h.insert((p, t, k)), p2, t2) {
            let k2 = choose|k2: int| #[trigger] h.insert((p, t, k)).contains((p2, t2, k2));
            if h.contains((p2, t2, k2)) { }
        }
    }
    impl Poll {
        pub uninterp spec fn key(&self) -> int;
        #[verifier::external_body]
        pub fn new() -> (r: Result<Poll, Fault>) ensures r is Ok { unimplemented!() }
        /// the poller a thread is handed
        #[verifier::external_body]
        pub fn anothers() -> Poll { unimplemented!() }
        #[verifier::external_body]
        pub fn register<E: Evented>(&self, e: &E, t: usize, x: Ready, o: PollOpt, w: &mut World) -> (r: Result<(), Fault>)
            ensures final(w)@ == if r is Ok { W { heard: old(w)@.heard.insert((self.key(), t, e.key())), ..old(w)@ } } else { old(w)@ }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn deregister<E: Evented>(&self, e: &E, w: &mut World) -> (r: Result<(), Fault>) ensures final(w)@ == old(w)@ { unimplemented!() }
        /// Whatever happens of what was registered; waiting itself is taken not to fail.
        #[verifier::external_body]
        pub fn poll(&self, events: &mut Events, t: Option<()>, w: &World) -> (r: Result<usize, Fault>)
            ensures r is Ok, forall|i: int| 0 <= i < final(events).of().len() ==> heard(w@.heard, self.key(), (#[trigger] final(events).of()[i]).tok())
        { unimplemented!() }
    }
    pub mod net {
        use super::*;
        #[verifier::external_body]
        pub struct TcpStream { _p: () }
        impl Evented for TcpStream { uninterp spec fn key(&self) -> int; }
        #[verifier::external_body]
        pub struct TcpListener { _p: () }
        impl Evented for TcpListener { uninterp spec fn key(&self) -> int; }
        #[verifier::external_body]
        pub struct UdpSocket { _p: () }
        impl Evented for UdpSocket { uninterp spec fn key(&self) -> int; }
        pub struct Addr {}
        impl TcpListener {
            /// the next connection, if there is one
            #[verifier::external_body]
            pub fn accept(&self, w: &mut World) -> (r: Result<(TcpStream, Addr), std_io::Error>)
                ensures match r {
                    Ok((s, _)) => final(w)@ == (W { conns: old(w)@.conns.push(s.key()), dry: false, ..old(w)@ }),
                    Err(e) => final(w)@ == (W { dry: e.is() is WouldBlock, ..old(w)@ }),
                }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn bind(a: &Addr) -> (r: Result<TcpListener, Fault>) { unimplemented!() }
        }
        impl UdpSocket {
            #[verifier::external_body]
            pub fn bind(a: &Addr) -> (r: Result<UdpSocket, Fault>) { unimplemented!() }
        }
    }
}
pub enum ErrorKind { ConnectionAborted, Interrupted, TimedOut, WouldBlock, Other }
pub mod std_io {
    use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Error {
        pub uninterp spec fn is(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.is() { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn events_of(e: mio::Events) -> (r: Vec<mio::Event>) ensures r@ == e.of() { unimplemented!() }

pub mod metric {
    pub struct Telemetry {}
    pub enum Event { Shutdown, Telemetry(Telemetry), Log, Raw }
}
/// hopper's senders, as many as there are forwards
pub mod hopper {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { _p: PhantomData<T> }
}
pub mod util {
    use super::*;
    /// The channels to the forwards: `sent` is what went to all of them (C14), `ways` are the channels.
    #[verifier::external_body]
    pub struct Channel { _p: () }
    impl Channel {
        pub uninterp spec fn sent(&self) -> Seq<metric::Event>;
        pub uninterp spec fn ways(&self) -> Seq<hopper::Sender<metric::Event>>;
        #[verifier::external_body]
        pub fn copied(&self) -> (r: Channel) ensures r.ways() == self.ways() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn send(chans: &mut Channel, event: metric::Event)
        ensures final(chans).sent() == old(chans).sent().push(event), final(chans).ways() == old(chans).ways()
    { unimplemented!() }
    /// C22 proves it: tokens are 0, 1, 2, ...
    #[verifier::external_body]
    #[verifier::reject_recursive_types(E)]
    pub struct TokenSlab<E> { _p: PhantomData<E> }
    impl<E: Evented> TokenSlab<E> {
        pub uninterp spec fn held(&self) -> Seq<E>;
        #[verifier::external_body]
        pub fn new() -> (r: TokenSlab<E>) ensures r.held().len() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, e: E) -> (r: usize) ensures final(self).held() == old(self).held().push(e), r == old(self).held().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn count(&self) -> (r: usize) ensures r == self.held().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn at(&self, i: usize) -> (r: &E) requires i < self.held().len() ensures *r == self.held()[i as int] { unimplemented!() }
        #[verifier::external_body]
        pub fn pairs<'a>(&'a self) -> (r: Vec<(usize, &'a E)>)
            ensures r@.len() == self.held().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == self.held()[i]
        { unimplemented!() }
    }
}
pub use util::send;
/// util::HashMap<usize, ThreadHandle>
#[verifier::external_body]
pub struct Handles { _p: () }
impl View for Handles { type V = Map<usize, ThreadHandle>; uninterp spec fn view(&self) -> Map<usize, ThreadHandle>; }
impl Handles {
    #[verifier::external_body]
    pub fn default() -> (r: Handles) ensures r@ == Map::<usize, ThreadHandle>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: ThreadHandle) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &usize) -> (r: Option<ThreadHandle>)
        ensures final(self)@ == old(self)@.remove(*k), match r { Some(v) => old(self)@.dom().contains(*k) && v == old(self)@[*k], None => !old(self)@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<(usize, ThreadHandle)>)
        ensures
            final(self)@ == Map::<usize, ThreadHandle>::empty(),
            forall|i: int| 0 <= i < r@.len() ==> old(self)@.dom().contains((#[trigger] r@[i]).0) && old(self)@[r@[i].0] == r@[i].1,
            forall|k: usize| #[trigger] old(self)@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
/// Arc<Mutex<Vec<usize>>>: whose threads are done, shared with those threads
#[verifier::external_body]
pub struct Joinable { _p: () }
#[verifier::external_body]
pub struct Guard { _p: () }
impl Joinable {
    /// the thread a number stands for
    pub uninterp spec fn key_of(&self, id: usize) -> int;
    #[verifier::external_body]
    pub fn new() -> Joinable { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Joinable) ensures forall|i: usize| r.key_of(i) == self.key_of(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<Guard, Fault>) ensures r is Ok, forall|i: usize| r->Ok_0.key_of(i) == self.key_of(i) { unimplemented!() }
    /// A number stands for the first thread it is given to.
    #[verifier::external_body]
    pub fn stands_for(&self, id: usize, h: &ThreadHandle) ensures self.key_of(id) == h.key() { unimplemented!() }
}
impl Guard {
    pub uninterp spec fn key_of(&self, id: usize) -> int;
    /// numbers are put there by the threads they stand for, when their work is done
    #[verifier::external_body]
    pub fn push(&mut self, id: usize, w: &mut World)
        requires old(w)@.ran, old(w)@.noted is None
        ensures final(w)@ == (W { noted: Some(id), ..old(w)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, w: &mut World) -> (r: Option<usize>)
        ensures
            forall|i: usize| final(self).key_of(i) == old(self).key_of(i),
            final(w)@ == match r { Some(id) => W { done: old(w)@.done.insert(old(self).key_of(id)), ..old(w)@ }, None => old(w)@ },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_of(r: &Option<mio::SetReadiness>) -> (c: Option<mio::SetReadiness>)
    ensures match *r { Some(x) => c is Some && c->Some_0.key() == x.key(), None => c is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn unreached() requires false ensures false { unimplemented!() }
/// the program does not come up
#[verifier::external_body]
pub fn stop<T>() -> (r: T) ensures false { unimplemented!() }
impl<T> OrStop<T> for Result<T, Fault> {
    open spec fn good(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } }
    fn or_stop(self) -> (r: T) { match self { Ok(x) => x, Err(_) => stop() } }
}
pub trait OrStop<T>: Sized {
    spec fn good(&self) -> Option<T>;
    fn or_stop(self) -> (r: T) ensures Some(r) == self.good();
}

/*@ rewrites
rw `self.handle.join()` => `self.handle.join(w)`
rw `self.join();` => `self.join(w);`
rw `h.join()` => `h.join(w)`
rw `h.shutdown()` => `h.shutdown(w)`
rw `handle.join();` => `handle.join(w);`
rw `mio::Registration::new2()` => `mio::Registration::new2(w)`
rw `.set_readiness($*a)` => `.set_readiness($*a, w)`
rw `constants::SYSTEM` => `2048`
rw `util::HashMap<usize, ThreadHandle>` => `Handles`
rw `util::HashMap::default()` => `Handles::default()`
rw `sync::Arc<sync::Mutex<Vec<usize>>>` => `Joinable`
rw `sync::Arc::new(sync::Mutex::new(Vec::new()))` => `Joinable::new()`
rw `option::Option` => `Option`
rw `thread::ThreadPool` => `ThreadPool`
rw `mio::Token::from($*a)` => `$*a`
rw `mio::Token(0)` => `0`
rw `mio::PollOpt::edge(),` => `mio::PollOpt::edge(), w,`
rw `if let Err(e) = poller` => `if let Err(_) = poller`
rw `self.listeners.iter()` => `self.listeners.pairs()`
rw `self.conns.iter()` => `self.conns.pairs()`
rw `&self.listeners[$*i]` => `self.listeners.at($*i)`
rw `&self.conns[$*i]` => `self.conns.at($*i)`
rw `for $e in events {` => `for $e in events_of(events) {`
rw `.poll(&mut events, None)` => `.poll(&mut events, None, w)`
rw `panic!($*a)` => `unreached()`
rw `std::io::Error` => `std_io::Error`
rw `sync::Arc<StatsdParseConfig>` => `StatsdParseConfig`
rw `self.threads.drain().for_each(|(_, h)| $*b);` => `for (_, h) in self.threads.drain() { $*b; }`
rw `self.join_ready()` => `self.join_ready(w)`
@*/
/*@ item src/thread.rs struct ThreadHandle
@*/
impl ThreadHandle {
    pub closed spec fn key(&self) -> int { self.handle.key() }
    /// it is told to end by the signal its thread listens to
    pub closed spec fn wf(&self) -> bool { self.shutdown_event.key() == self.handle.key() }
/*@ fn src/thread.rs Stoppable@ThreadHandle.join
sig:
    pub fn join(self, w: &mut World)
spec:
    // however the thread came to its end
    ensures final(w)@ == waited(old(w)@, self.key())
@*/
/*@ fn src/thread.rs Stoppable@ThreadHandle.shutdown
sig:
    pub fn shutdown(self, w: &mut World)
spec:
    requires self.wf()
    ensures final(w)@ == waited(told(old(w)@, self.key()), self.key())
@*/
}
/*@ fn src/thread.rs spawn
sig:
    pub fn spawn<F>(f: F, w: &mut World) -> (r: ThreadHandle) where F: FnOnce(mio::Poll) -> ()
rw `mio::Registration::new2(w);` => `mio::Registration::new2(w); let ghost sk = shutdown_event.key();`
rw `thread::spawn(move || { $*b })` => `{ if w.elsewhere() { $*b w.over(); } w.start(Ghost(sk)) }`
rw `f(child_poller);` => `proof { assert(w@.heard.contains((child_poller.key(), 2048, sk))); } f(child_poller);`
rw `.expect("Failed to register system pipe")` => `.or_stop()`
spec:
    requires forall|p: mio::Poll| f.requires((p,))
    ensures
        r.wf(), !old(w)@.started.contains(r.key()),
        final(w)@ == (W { started: old(w)@.started.insert(r.key()), ..old(w)@ }),
@*/
/*@ item src/thread.rs struct ThreadPool
@*/
impl ThreadPool {
    pub closed spec fn ok(&self) -> bool {
        forall|id: usize| #[trigger] self.threads@.dom().contains(id) ==> id < self.thread_id && self.threads@[id].wf() && self.threads@[id].key() == self.joinable.key_of(id)
    }
    pub closed spec fn holds(&self, k: int) -> bool { exists|id: usize| #[trigger] self.threads@.dom().contains(id) && self.threads@[id].key() == k }
    pub closed spec fn next(&self) -> usize { self.thread_id }
    pub closed spec fn wakes(&self) -> Option<int> { match self.thread_event_readiness { Some(r) => Some(r.key()), None => None } }
    /// every thread started is at hand, or has been waited for
    pub open spec fn covers(&self, w: W) -> bool { forall|k: int| #[trigger] w.started.contains(k) ==> w.ended.contains(k) || self.holds(k) }
/*@ fn src/thread.rs ThreadPool.new
attr: pub
ret: r
spec:
    ensures r.ok(), forall|k: int| !r.holds(k), r.next() == 0, r.wakes() == match thread_events_readiness { Some(r) => Some(r.key()), None => None }
@*/
/*@ fn src/thread.rs ThreadPool.next_thread_id
ret: r
spec:
    requires old(self).next() < usize::MAX
    ensures r == old(self).next(), *final(self) == (ThreadPool { thread_id: (old(self).thread_id + 1) as usize, ..*old(self) })
@*/
/*@ fn src/thread.rs ThreadPool.spawn
sig:
    pub fn spawn<F>(&mut self, f: F, w: &mut World) -> (r: usize) where F: FnOnce(mio::Poll) -> ()
rw `self.thread_event_readiness.clone()` => `copy_of(&self.thread_event_readiness)`
rw `joinable.push(id)` => `joinable.push(id, w)`
rw `f(poller);` => `f(poller); w.ran();`
rw `spawn(move |poller| { $*b })` => `{ if w.elsewhere() { let poller = mio::Poll::anothers(); $*b proof { assert(w@.noted == Some(id)); assert(self.wakes() is Some ==> w@.told.contains(self.wakes()->Some_0)); } w.over(); } spawn(move |p: mio::Poll| { }, w) }`
rw `self.threads.insert(id, handler);` => `self.joinable.stands_for(id, &handler); let ghost hk = handler.key(); let ghost before = self.threads@; self.threads.insert(id, handler);`
spec:
    requires old(self).ok(), old(self).next() < usize::MAX, old(self).covers(old(w)@), forall|p: mio::Poll| f.requires((p,))
    ensures
        final(self).ok(), final(self).covers(final(w)@), final(self).next() == old(self).next() + 1, final(self).wakes() == old(self).wakes(),
        exists|k: int| !old(w)@.started.contains(k) && final(w)@ == (W { started: #[trigger] old(w)@.started.insert(k), ..old(w)@ }),
at after `self.threads.insert(id, handler);`:
    proof {
        assert(self.threads@.dom().contains(id) && self.threads@[id].key() == hk);
        assert forall|k: int| old(self).holds(k) implies self.holds(k) by {
            let i = choose|i: usize| #[trigger] before.dom().contains(i) && before[i].key() == k;
            assert(self.threads@.dom().contains(i) && self.threads@[i] == before[i]);
        }
    }
@*/
/*@ fn src/thread.rs ThreadPool.join_ready
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn join_ready(&mut self, w: &mut World) -> (r: Vec<usize>)
rw `joinable.pop()` => `joinable.pop(w)`
spec:
    requires old(self).ok(), old(self).covers(old(w)@)
    ensures
        final(self).ok(), final(self).covers(final(w)@), final(self).next() == old(self).next(), final(self).wakes() == old(self).wakes(),
        // it waits for none that is not done
        final(w)@ == (W { done: final(w)@.done, ended: final(w)@.ended, ..old(w)@ }),
        old(w)@.ended.subset_of(final(w)@.ended),
loop 1 while:
    invariant
        self.ok(), self.covers(w@), self.next() == old(self).next(), self.wakes() == old(self).wakes(),
        forall|i: usize| joinable.key_of(i) == self.joinable.key_of(i),
        w@ == (W { done: w@.done, ended: w@.ended, ..old(w)@ }), old(w)@.ended.subset_of(w@.ended),
at loop 1 start:
    let ghost held = self.threads@;
    let ghost ended = w@.ended;
at loop 1 end:
    proof {
        assert forall|k: int| #[trigger] w@.started.contains(k) implies w@.ended.contains(k) || self.holds(k) by {
            if !ended.contains(k) {
                let i = choose|i: usize| #[trigger] held.dom().contains(i) && held[i].key() == k;
                if i != id { assert(self.threads@.dom().contains(i) && self.threads@[i] == held[i]); }
            }
        }
    }
@*/
/*@ fn src/thread.rs ThreadPool.shutdown
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn shutdown(self, w: &mut World) -> (r: Vec<usize>)
spec:
    requires self.ok(), self.covers(old(w)@)
    ensures
        // all have ended, each having been told
        final(w)@.started == old(w)@.started, final(w)@.started.subset_of(final(w)@.ended), final(w)@.idle == old(w)@.idle,
        final(w)@.conns == old(w)@.conns,
loop 1 for iter it:
    invariant
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).1.wf(),
        w@.started == old(w)@.started, w@.idle == old(w)@.idle, w@.conns == old(w)@.conns, old(w)@.ended.subset_of(w@.ended),
        forall|i: int| 0 <= i < it.index() ==> w@.ended.contains((#[trigger] it.seq()[i]).1.key()),
        forall|k: int| #[trigger] w@.started.contains(k) ==> old(w)@.ended.contains(k) || exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).1.key() == k,
        self_.threads@ == Map::<usize, ThreadHandle>::empty(),
@*/
}

pub type Ends = util::Channel;
/// what is done with one connection (C04, C06, C07, C08)
pub trait TCPStreamHandler: Sized {
    fn new() -> (r: Self);
    /// It is handed the forwards, a poller which listens to the connection, and the connection.
    fn handle_stream(&mut self, c: util::Channel, p: &mio::Poll, s: mio::net::TcpStream, w: &mut World)
        requires old(w)@.heard.contains((p.key(), 0, s.key())), old(w)@.conns.len() > 0, s.key() == old(w)@.conns.last(), !old(w)@.ran
        ensures final(w)@ == (W { ran: true, ..old(w)@ });
}
/*@ item src/source/tcp.rs struct TCPConfig
@*/
/// fewer addresses than tokens
#[verifier::external_body]
pub fn addrs_of(host: &String, port: u16) -> (r: Result<Vec<mio::net::Addr>, Fault>) ensures r is Ok ==> r->Ok_0@.len() <= 2047 { unimplemented!() }
/*@ item src/source/tcp.rs struct TCP
attr: #[verifier::reject_recursive_types(H)]
@*/
impl<H: TCPStreamHandler> TCP<H> {
    pub closed spec fn ok(&self) -> bool {
        self.handlers.ok() && self.listeners.held().len() <= 2047 && self.stream_events_token == self.listeners.held().len()
        && self.handlers.wakes() == Some(self.stream_events.key())
    }
    pub closed spec fn pool(&self) -> ThreadPool { self.handlers }
    pub closed spec fn end(&self) -> usize { self.stream_events_token }
    /// what may be heard of: the call to end, connections to accept, handlers which are done
    pub open spec fn known(&self, w: W, p: int) -> bool { forall|t: usize| mio::heard(w.heard, p, t) ==> t == 2048 || t <= self.end() }
/*@ fn src/source/tcp.rs Source@TCP.init
sig:
    pub fn init(config: TCPConfig, w: &mut World) -> (r: Self)
rw `(config.host.as_str(), config.port).to_socket_addrs()` => `addrs_of(&config.host, config.port)`
rw `let ips: Vec<_> = ips.collect();` => ``
rw `.expect("Unable to bind to TCP socket")` => `.or_stop()`
rw `unreached()` => `stop::<()>()`
rw `thread::ThreadPool::new` => `ThreadPool::new`
spec:
    ensures r.ok(), forall|k: int| !r.pool().holds(k), final(w)@ == old(w)@
loop 1 for iter it:
    invariant it.seq().len() <= 2047, listeners.held().len() == it.index()
@*/
/*@ fn src/source/tcp.rs TCP.spawn_stream_handlers
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn spawn_stream_handlers(&mut self, chans: &util::Channel, listener_token: mio::Token, w: &mut World) -> (r: Result<(), std_io::Error>)
rw `listener.accept()` => `listener.accept(w)`
rw `chans.to_owned()` => `chans.copied()`
rw `.unwrap();` => `.or_stop();`
rw `handler.handle_stream($*a);` => `proof { assert(rchans.ways() == chans.ways()); } handler.handle_stream($*a, w);`
rw `self.handlers.spawn(move |poller| { $*b });` => `{ if w.elsewhere() { let poller = mio::Poll::anothers(); $*b proof { assert(w@.ran); } w.over(); } w.not_that_many(&self.handlers); self.handlers.spawn(move |p: mio::Poll| { }, w); }`
spec:
    requires old(self).ok(), old(self).pool().covers(old(w)@), listener_token < old(self).end()
    ensures
        final(self).ok(), final(self).end() == old(self).end(), final(self).pool().covers(final(w)@),
        final(w)@.heard == old(w)@.heard, final(w)@.idle == old(w)@.idle, old(w)@.ended == final(w)@.ended,
        // every connection there is has been accepted
        r is Ok ==> final(w)@.dry,
loop 1 loop:
    invariant
        self.ok(), self.end() == old(self).end(), self.pool().covers(w@), listener_token < self.end(),
        w@.heard == old(w)@.heard, w@.idle == old(w)@.idle, old(w)@.ended == w@.ended,
@*/
/*@ fn src/source/tcp.rs TCP.accept_loop
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn accept_loop(self, chans: &mut util::Channel, poll: &mio::Poll, w: &mut World)
rw `self.handlers.shutdown();` => `self.handlers.shutdown(w);`
rw `util::send(&mut chans, $*e);` => `util::send(chans, $*e);`
rw `self.handlers.join_ready()` => `self.handlers.join_ready(w)`
rw `self.spawn_stream_handlers(&chans, listener_token)` => `self.spawn_stream_handlers(&*chans, listener_token, w)`
rw `poll.deregister(listener)` => `poll.deregister(listener, w)`
spec:
    requires self.ok(), self.pool().covers(old(w)@), self.known(old(w)@, poll.key())
    ensures
        // the end is announced, once, when every handler has ended
        final(chans).sent() == old(chans).sent().push(metric::Event::Shutdown),
        final(w)@.started.subset_of(final(w)@.ended),
        // none was waited for that did not know
        final(w)@.idle == old(w)@.idle,
loop 1 loop:
    invariant
        self_.ok(), self_.pool().covers(w@), self_.end() == self.end(), self_.known(w@, poll.key()),
        w@.heard == old(w)@.heard, w@.idle == old(w)@.idle, chans.sent() == old(chans).sent(),
loop 2 for iter it:
    invariant
        self_.ok(), self_.pool().covers(w@), self_.end() == self.end(), self_.known(w@, poll.key()),
        w@.heard == old(w)@.heard, w@.idle == old(w)@.idle, chans.sent() == old(chans).sent(),
        forall|i: int| 0 <= i < it.seq().len() ==> mio::heard(w@.heard, poll.key(), (#[trigger] it.seq()[i]).tok()),
@*/
/*@ fn src/source/tcp.rs Source@TCP.run
sig:
    pub fn run(self, chans: &mut util::Channel, poller: mio::Poll, w: &mut World)
rw `self.accept_loop(chans, &poller)` => `self.accept_loop(chans, &poller, w)`
spec:
    requires
        self.ok(), self.pool().covers(old(w)@),
        // what a thread is given to listen to is the call to end
        forall|t: usize| mio::heard(old(w)@.heard, poller.key(), t) ==> t == 2048,
    ensures
        final(chans).sent() == old(chans).sent().push(metric::Event::Shutdown),
        final(w)@.started.subset_of(final(w)@.ended), final(w)@.idle == old(w)@.idle,
loop 1 for iter it:
    invariant
        self.ok(), self.pool().covers(w@), self.known(w@, poller.key()), w@.idle == old(w)@.idle,
        it.seq().len() == self.listeners.held().len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i,
at fn-start:
    broadcast use mio::lemma_heard;
at loop 1 start:
    broadcast use mio::lemma_heard;
@*/
}

pub struct StatsdParseConfig {}
pub struct StatsdHandlerErr {}
/*@ item src/source/statsd.rs struct Statsd
@*/
impl Statsd {
    pub closed spec fn sockets(&self) -> nat { self.conns.held().len() }
    /// C05: only points are sent
    #[verifier::external_body]
    fn handle_datagrams(&self, chans: &mut util::Channel, s: &mio::net::UdpSocket, buf: &mut Vec<u8>) -> (r: Result<(), StatsdHandlerErr>)
        requires exists|i: int| 0 <= i < self.sockets() && *s == self.conns.held()[i]
        ensures only_points(old(chans).sent(), final(chans).sent())
    { unimplemented!() }
/*@ fn src/source/statsd.rs Source@Statsd.run
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn run(self, chans: &mut util::Channel, poller: mio::Poll, w: &mut World)
rw `poller.poll(` => `poller.poll(`
rw `send(&mut chans, $*e);` => `send(chans, $*e);`
rw `self.handle_datagrams(&mut chans, $*e)` => `self.handle_datagrams(chans, $*e)`
rw `vec![0; 16_250]` => `buffer()`
spec:
    requires forall|t: usize| mio::heard(old(w)@.heard, poller.key(), t) ==> t == 2048, self.sockets() <= 2048
    ensures ended(old(chans).sent(), final(chans).sent())
at fn-start:
    broadcast use mio::lemma_heard;
loop 1 for iter it:
    invariant
        self.sockets() <= 2048, forall|t: usize| mio::heard(w@.heard, poller.key(), t) ==> t == 2048 || t < self.sockets(),
        it.seq().len() == self.sockets(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i,
at loop 1 start:
    broadcast use mio::lemma_heard;
loop 2 loop:
    invariant
        self.sockets() <= 2048, forall|t: usize| mio::heard(w@.heard, poller.key(), t) ==> t == 2048 || t < self.sockets(),
        only_points(old(chans).sent(), chans.sent()),
at loop 3 start:
    broadcast use lemma_points;
loop 3 for iter it:
    invariant
        self.sockets() <= 2048, forall|t: usize| mio::heard(w@.heard, poller.key(), t) ==> t == 2048 || t < self.sockets(),
        only_points(old(chans).sent(), chans.sent()),
        forall|i: int| 0 <= i < it.seq().len() ==> mio::heard(w@.heard, poller.key(), (#[trigger] it.seq()[i]).tok()),
@*/
}
pub fn buffer() -> Vec<u8> { Vec::new() }
/// what is sent from `a` to `b` are points
pub open spec fn only_points(a: Seq<metric::Event>, b: Seq<metric::Event>) -> bool {
    a.is_prefix_of(b) && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]) is Telemetry
}
pub broadcast proof fn lemma_points(a: Seq<metric::Event>, b: Seq<metric::Event>, c: Seq<metric::Event>)
    requires #[trigger] only_points(a, b), #[trigger] only_points(b, c)
    ensures only_points(a, c)
{
    assert forall|i: int| a.len() <= i < c.len() implies (#[trigger] c[i]) is Telemetry by { if i < b.len() { assert(b[i] == c[i]); } }
}
/// points, and then the end
pub open spec fn ended(a: Seq<metric::Event>, b: Seq<metric::Event>) -> bool {
    b.len() > a.len() && b.last() is Shutdown && only_points(a, b.drop_last())
}
fn main() {}
} // verus!
