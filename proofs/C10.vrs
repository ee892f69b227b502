// C10: the delay filter passes exactly the events inside the configured window.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub mod metric { pub use super::Event; }
pub mod filter { pub use super::FilterError; }

/// Stand-ins for fields this property never looks at (opaque, so nothing can depend on them).
#[verifier::external_body]
pub struct Rest { _p: () }

pub struct Telemetry { pub timestamp: i64, pub rest: Rest }
pub struct LogLine { pub time: i64, pub rest: Rest }
pub enum Event {
    Telemetry(Telemetry),
    Log(LogLine),
    TimerFlush(u64),
    Shutdown,
    Raw { order_by: u64, rest: Rest },
}
pub enum FilterError { NoSuchFunction, LuaError }

/// `r` is a second the system's clock may state while cernan runs.
pub uninterp spec fn utc_reads(r: i64) -> bool;
/// `r` is a value the global clock may return now: a second that was read and then kept.
pub open spec fn clock_reads(r: i64) -> bool { utc_reads(r) && r >= 0 }
pub mod time {
    use super::*;
    pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
    /// Cernan's view of time. Whoever stores into it stores a second it read: what is loaded
    /// is such a one, whoever stored it.
    pub struct Now {}
    pub const NOW: Now = Now {};
    pub open spec fn read(v: usize) -> bool { clock_reads(v as i64) && v as i64 >= 0 }
    impl Now {
        #[verifier::external_body]
        pub fn load(&self, o: Ordering) -> (r: usize) ensures read(r), r <= i64::MAX { unimplemented!() }
        #[verifier::external_body]
        pub fn store(&self, v: usize, o: Ordering, k: &mut Keeper) requires read(v), v <= i64::MAX ensures final(k).kept@ == old(k).kept@ + 1, final(k).slept@ == old(k).slept@ { unimplemented!() }
    }
    /// A clock that is set past 1970 is assumed.
    pub struct Utc {}
    pub struct Stamp { pub t: i64 }
    impl Utc {
        #[verifier::external_body]
        pub fn now() -> (r: Stamp) ensures clock_reads(r.t) { unimplemented!() }
    }
    impl Stamp {
        pub fn timestamp(&self) -> (r: i64) ensures r == self.t { self.t }
        /// other readings of the same moment, in other units
        #[verifier::external_body]
        pub fn timestamp_millis(&self) -> (r: i64) ensures r >= 0 { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub struct Duration { pub ms: Ghost<int> }
    impl Duration {
        pub fn from_millis(n: u64) -> (r: Duration) ensures r.ms@ == n { Duration { ms: Ghost(n as int) } }
        pub fn from_secs(n: u64) -> (r: Duration) ensures r.ms@ == 1000 * n { Duration { ms: Ghost(1000 * n) } }
    }
    /// of whoever keeps the clock: how often it kept a second, how long it slept
    pub struct Keeper { pub kept: Ghost<int>, pub slept: Ghost<int> }
    pub mod thread {
        use super::*;
        #[verifier::external_body]
        pub fn sleep(d: Duration, k: &mut Keeper)
            ensures final(k).slept@ == old(k).slept@ + d.ms@, final(k).kept@ == old(k).kept@
        { unimplemented!() }
    }
/*@ fn src/time.rs now
attr: pub
ret: r
spec:
    ensures clock_reads(r), r >= 0
@*/
/*@ fn src/time.rs update_time
attr: #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
rw `time::Duration` => `Duration`
rw `thread::sleep($*a)` => `thread::sleep($*a, &mut keeper)`
rw `NOW.store($*a)` => `NOW.store($*a, &mut keeper)`
at fn-start:
    let mut keeper = Keeper { kept: Ghost(0), slept: Ghost(0) };
spec:
    // it never ends, and keeps a second it read within every second, and nothing else
    ensures false
loop 1:
    invariant true
at loop 1 start:
    let ghost k0 = keeper;
at loop 1 end:
    assert(keeper.kept@ > k0.kept@ && keeper.slept@ <= k0.slept@ + 1000);
@*/
}
pub assume_specification [ i128::abs ](x: i128) -> (r: i128)
    requires x > i128::MIN,
    ensures r == (if x < 0 { -x } else { x as int });

pub open spec fn dist(a: int, b: int) -> int { if a > b { a - b } else { b - a } }

/// Every timestamp the event carries, if any.
pub open spec fn event_ts(e: Event) -> Option<int> {
    match e {
        Event::Telemetry(t) => Some(t.timestamp as int),
        Event::Log(l) => Some(l.time as int),
        _ => None,
    }
}

/*@ item src/filter/delay_filter.rs struct DelayFilter
@*/

impl DelayFilter {
/*@ fn src/filter/delay_filter.rs DelayFilter.within_tolerance
ret: ret
spec:
    ensures exists|now: i64| #[trigger] clock_reads(now) && ret == (dist(timestamp as int, now as int) < self.tolerance),
@*/

/*@ fn src/filter/delay_filter.rs Filter@DelayFilter.process
ret: ret
rw `$A.fetch_add($*a);` => ``
spec:
    ensures
        ret is Ok,
        final(self).tolerance == old(self).tolerance,
        match event_ts(event) {
            None => final(res)@ == old(res)@.push(event),
            Some(ts) => exists|now: i64| #[trigger] clock_reads(now) && final(res)@ == (
                if dist(ts, now as int) < old(self).tolerance { old(res)@.push(event) } else { old(res)@ }),
        },
@*/
}

fn main() {}
} // verus!
