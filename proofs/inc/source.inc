// what a source is given: a poller, an output channel, bytes
pub mod mio {
    use super::*;
    #[verifier::external_body]
    pub struct Poll { _p: () }
    #[verifier::external_body]
    pub struct PollError { _p: () }
    #[verifier::external_body]
    pub struct Event { _p: () }
    #[verifier::external_body]
    pub struct Events { _p: () }
    impl Events {
        #[verifier::external_body]
        pub fn with_capacity(n: usize) -> Events { unimplemented!() }
    }
    impl Poll {
        /// Whatever happens, in whatever order; waiting itself is taken not to fail.
        #[verifier::external_body]
        pub fn poll(&self, events: &mut Events, t: Option<()>) -> (r: Result<usize, PollError>) ensures r is Ok { unimplemented!() }
    }
    impl Event {
        /// the number of the event's token
        #[verifier::external_body]
        pub fn token(&self) -> usize { unimplemented!() }
    }
    pub mod net {
        use super::*;
        #[verifier::external_body]
        pub struct TcpStream { _p: () }
        impl TcpStream {
            /// every byte the peer will ever send on it
            pub uninterp spec fn all(&self) -> Seq<u8>;
        }
        #[verifier::external_body]
        pub struct UdpSocket { _p: () }
    }
}
#[verifier::external_body]
pub fn events_of(e: mio::Events) -> Vec<mio::Event> { unimplemented!() }

/// The downstream channels, seen as one: `sent` is everything passed to `send` so far.
/// (C14 proves what `send` does with each channel.)
pub mod util {
    use super::*;
    #[verifier::external_body]
    pub struct Channel { _p: () }
    impl Channel { pub uninterp spec fn sent(&self) -> Seq<Event>; }
    #[verifier::external_body]
    pub fn send(chans: &mut Channel, event: Event)
        ensures final(chans).sent() == old(chans).sent().push(event)
    { unimplemented!() }
}
pub use util::send;

pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub struct NotUtf8 {}
#[verifier::external_body]
pub fn text_of(b: &[u8]) -> (r: Result<&str, NotUtf8>)
    ensures match utf8(b@) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn drain_all<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
{ unimplemented!() }
pub fn check(b: bool) requires b {}
/// a panic
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }

/*@ rewrites
rw `for $e in events {` => `for $e in events_of(events) {`
rw `constants::SYSTEM` => `2048`
rw `str::from_utf8($*a)` => `text_of($*a)`
rw `assert!($*c);` => `check($*c);`
rw `panic!($*a)` => `unreached()`
rw `$a.drain(..)` => `drain_all(&mut $a)`
rw `$a.fetch_add(1, Ordering::Relaxed);` => ``
@*/
