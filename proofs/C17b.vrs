// C17: every request that reaches the prometheus sink's server is handed to the handler, until the sink ends.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
/*@ rewrites
rw `panic!($*a)` => `stop()`
rw `.poll($*a)` => `.poll($*a, w)`
rw `std::time::Duration` => `Duration`
@*/
#[verifier::external_body]
pub struct Duration { _p: () }
impl Duration {
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub struct Fault { _p: () }
/// the server's thread ends at once: a fault of the poller's or of the socket's
#[verifier::external_body]
pub fn stop() -> ! { unimplemented!() }
pub struct W {
    /// the requests taken off the socket, and those handled
    pub taken: Seq<int>,
    pub handled: Seq<int>,
    /// the server has been told to end
    pub told: bool,
}
#[verifier::external_body]
pub struct World { _p: () }
impl View for World { type V = W; uninterp spec fn view(&self) -> W; }
pub mod tiny_http {
    use super::*;
    #[verifier::external_body]
    pub struct Request { _p: () }
    impl Request { pub uninterp spec fn id(&self) -> int; }
    #[verifier::external_body]
    pub struct Server { _p: () }
    impl Server {
        pub uninterp spec fn at(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn http(at: String) -> (r: Result<Server, Fault>) ensures match r { Ok(s) => s.at() == at@, Err(_) => true } { unimplemented!() }
        /// the next is taken when the last has been handled
        #[verifier::external_body]
        pub fn recv_timeout(&self, d: Duration, w: &mut World) -> (r: Result<Option<Request>, Fault>)
            requires old(w)@.taken == old(w)@.handled, !old(w)@.told
            ensures match r { Ok(Some(q)) => final(w)@ == (W { taken: old(w)@.taken.push(q.id()), ..old(w)@ }), _ => final(w)@ == old(w)@ }
        { unimplemented!() }
    }
}
pub type Request = tiny_http::Request;
pub trait Handler: Sized {
    fn handle(&self, request: Request, w: &mut World)
        ensures final(w)@ == (W { handled: old(w)@.handled.push(request.id()), ..old(w)@ });
}
/// where requests are taken, and by whom they are handled
pub struct Serves { pub at: Seq<char>, pub by: int }
pub uninterp spec fn who<H>(h: H) -> int;
pub mod thread {
    use super::*;
    /// whether this is the new thread, of which nothing has been taken yet
    #[verifier::external_body]
    pub fn forked(w: &mut World) -> (r: bool) ensures final(w)@.taken == final(w)@.handled { unimplemented!() }
    #[verifier::external_body]
    pub fn ends() -> ! ensures false { unimplemented!() }
    #[verifier::external_body]
    pub fn poller() -> Poll { unimplemented!() }
    #[verifier::external_body]
    pub fn of(Ghost(j): Ghost<Serves>) -> (r: ThreadHandle) ensures r.serves() == j { unimplemented!() }
    #[verifier::external_body]
    pub struct Poll { _p: () }
    #[verifier::external_body]
    pub struct Events { _p: () }
    impl Events {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> (r: Events) requires n > 0 { unimplemented!() }
    }
    impl Poll {
        /// An event is that it is to end (C23: nothing else is registered). It waits for one no longer than it is told to.
        #[verifier::external_body]
        pub fn poll(&self, e: &mut Events, d: Option<Duration>, w: &mut World) -> (r: Result<usize, Fault>)
            requires d is Some
            ensures match r { Ok(n) => final(w)@ == (W { told: n > 0, ..old(w)@ }), Err(_) => final(w)@ == old(w)@ }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ThreadHandle { _p: () }
    impl ThreadHandle {
        pub uninterp spec fn serves(&self) -> Serves;
        pub uninterp spec fn key(&self) -> int;
        /// C23
        #[verifier::external_body]
        pub fn join(self, e: &mut Ends) ensures final(e).told() == old(e).told(), final(e).ended() == old(e).ended().insert(self.key()) { unimplemented!() }
        #[verifier::external_body]
        pub fn shutdown(self, e: &mut Ends) ensures final(e).told() == old(e).told().insert(self.key()), final(e).ended() == old(e).ended().insert(self.key()) { unimplemented!() }
    }
}
pub trait OrStop<T>: Sized { fn or_stop(self) -> (r: T) ensures Some(r) == self.good(); spec fn good(&self) -> Option<T>; }
impl<T> OrStop<T> for Result<T, Fault> {
    open spec fn good(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } }
    fn or_stop(self) -> (r: T) { match self { Ok(x) => x, Err(_) => stop() } }
}
/// the threads told to end, and those waited for
#[verifier::external_body]
pub struct Ends { _p: () }
impl Ends {
    pub uninterp spec fn told(&self) -> Set<int>;
    pub uninterp spec fn ended(&self) -> Set<int>;
}
/*@ fn src/http.rs http_server
sig:
    pub fn http_server<H>(poller: &thread::Poll, tiny_http_server: &tiny_http::Server, handler: &H, w: &mut World, Ghost(j): Ghost<Serves>) where H: Handler
attr: #[verifier::exec_allows_no_decreases_clause]
rw `.recv_timeout($*a)` => `.recv_timeout($*a, w)`
rw `handler.handle(request)` => `handler.handle(request, w)`
spec:
    requires old(w)@.taken == old(w)@.handled, j == (Serves { at: tiny_http_server.at(), by: who(*handler) })
    ensures final(w)@.taken == final(w)@.handled, final(w)@.told
loop 1:
    invariant w@.taken == w@.handled
    ensures w@.taken == w@.handled, w@.told
@*/
/*@ item src/http.rs struct Server
@*/
impl Server {
    pub closed spec fn key(&self) -> int { self.thread.key() }
    pub closed spec fn serves(&self) -> Serves { self.thread.serves() }
/*@ fn src/http.rs Server.new
sig:
    pub fn new<H: Handler>(host_port: String, handler: H, w: &mut World) -> (r: Self)
rw `thread::spawn(move |poller| { $*b })` => `{ let ghost j = Serves { at: host_port@, by: who(handler) }; if thread::forked(w) { let poller = thread::poller(); $*b; thread::ends() } thread::of(Ghost(j)) }`
rw `.unwrap()` => `.or_stop()`
rw `&handler)` => `&handler, w, Ghost(j))`
spec:
    ensures r.serves() == (Serves { at: host_port@, by: who(handler) })
@*/
/*@ fn src/http.rs Stoppable@Server.join
sig:
    pub fn join(self, e: &mut Ends)
rw `.join()` => `.join(e)`
spec:
    ensures final(e).ended() == old(e).ended().insert(self.key())
@*/
/*@ fn src/http.rs Stoppable@Server.shutdown
sig:
    pub fn shutdown(self, e: &mut Ends)
rw `.shutdown()` => `.shutdown(e)`
spec:
    ensures final(e).told() == old(e).told().insert(self.key()), final(e).ended() == old(e).ended().insert(self.key())
@*/
}
fn main() {}
}
