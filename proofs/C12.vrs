// C12: the sink run loop.
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {

#[verifier::external_body]
pub struct Telemetry { _p: () }
#[verifier::external_body]
pub struct LogLine { _p: () }
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct Encoding { _p: () }

/*@ item src/metric/event.rs enum Event
@*/
/*@ item src/util.rs enum Valve
@*/

pub mod time {
    use super::*;
    #[verifier::external_body]
    pub fn delay(attempts: u32) { unimplemented!() }
}
#[verifier::external_body]
pub fn count_poll(attempts: u32) -> u32 { attempts + 1 }

/// The queue a sink reads from: `got` is everything it has handed out so far.
pub mod hopper {
    use super::*;
    use std::marker::PhantomData;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { _p: PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct IntoIter<T> { _p: PhantomData<T> }
    impl<T> IntoIter<T> {
        pub uninterp spec fn got(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures match r {
                Some(e) => final(self).got() == old(self).got().push(e),
                None => final(self).got() == old(self).got(),
            }
        { unimplemented!() }
    }
    impl<T> Receiver<T> {
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: IntoIter<T>)
            ensures r.got() == Seq::<T>::empty()
        { unimplemented!() }
    }
}

/// What a sink is made to do, in order.
pub enum Op {
    Deliver(Telemetry),
    Line(LogLine),
    Raw(u64, Encoding, Vec<u8>, Option<Metadata>, Option<Uuid>),
    /// `by_valve`: the valve was closed when the flush was asked for
    Flush { by_valve: bool },
}

pub trait Sink<SConfig>: Sized {
    spec fn ops(&self) -> Seq<Op>;
    spec fn closed(&self) -> bool;
    spec fn interval(&self) -> Option<u64>;

    fn flush_interval(&self) -> (r: Option<u64>)
        ensures r == self.interval();
    fn flush(&mut self)
        ensures final(self).ops() == old(self).ops().push(Op::Flush { by_valve: old(self).closed() }),
                final(self).interval() == old(self).interval();
    fn valve_state(&self) -> (r: Valve)
        ensures (r is Closed) == self.closed();
    // nothing may be handed to a sink whose valve is closed
    fn deliver(&mut self, t: Telemetry)
        requires !old(self).closed()
        ensures final(self).ops() == old(self).ops().push(Op::Deliver(t)),
                final(self).interval() == old(self).interval();
    fn deliver_line(&mut self, l: LogLine)
        requires !old(self).closed()
        ensures final(self).ops() == old(self).ops().push(Op::Line(l)),
                final(self).interval() == old(self).interval();
    fn deliver_raw(&mut self, order_by: u64, encoding: Encoding, bytes: Vec<u8>, metadata: Option<Metadata>, connection_id: Option<Uuid>)
        requires !old(self).closed()
        ensures final(self).ops() == old(self).ops().push(Op::Raw(order_by, encoding, bytes, metadata, connection_id)),
                final(self).interval() == old(self).interval();
    fn shutdown(self);
}

/// The largest flush index among the first events.
pub open spec fn last_idx(evs: Seq<Event>) -> u64
    decreases evs.len()
{
    if evs.len() == 0 { 0 } else {
        let l = last_idx(evs.drop_last());
        match evs.last() { Event::TimerFlush(i) => if i > l { i } else { l }, _ => l }
    }
}
pub open spec fn due(idx: u64, interval: Option<u64>) -> bool {
    match interval { None => false, Some(n) => n == 0 || idx as int % n as int == 0 }
}
/// What the received events call for: each payload once, in order; one flush per due new index.
pub open spec fn required(evs: Seq<Event>, interval: Option<u64>) -> Seq<Op>
    decreases evs.len()
{
    if evs.len() == 0 { Seq::empty() } else {
        let r = required(evs.drop_last(), interval);
        match evs.last() {
            Event::Telemetry(t) => r.push(Op::Deliver(t)),
            Event::Log(l) => r.push(Op::Line(l)),
            Event::Raw { order_by, encoding, bytes, metadata, connection_id } => r.push(Op::Raw(order_by, encoding, bytes, metadata, connection_id)),
            Event::TimerFlush(i) => if i > last_idx(evs.drop_last()) && due(i, interval) { r.push(Op::Flush { by_valve: false }) } else { r },
            Event::Shutdown => r,
        }
    }
}
pub open spec fn shutdowns(evs: Seq<Event>) -> nat
    decreases evs.len()
{
    if evs.len() == 0 { 0 } else {
        shutdowns(evs.drop_last()) + if evs.last() is Shutdown { 1nat } else { 0nat }
    }
}
/// The operations without the flushes that only serve to open a closed valve.
pub open spec fn own(ops: Seq<Op>) -> Seq<Op>
    decreases ops.len()
{
    if ops.len() == 0 { Seq::empty() } else {
        let r = own(ops.drop_last());
        if ops.last() == (Op::Flush { by_valve: true }) { r } else { r.push(ops.last()) }
    }
}
pub proof fn lemma_own_push(ops: Seq<Op>, o: Op)
    ensures own(ops.push(o)) == if o == (Op::Flush { by_valve: true }) { own(ops) } else { own(ops).push(o) }
{
    assert(ops.push(o).drop_last() =~= ops);
}
pub broadcast proof fn bc_own_push(ops: Seq<Op>, o: Op)
    ensures #[trigger] own(ops.push(o)) == if o == (Op::Flush { by_valve: true }) { own(ops) } else { own(ops).push(o) }
{
    lemma_own_push(ops, o);
}
pub broadcast proof fn bc_evs_push(evs: Seq<Event>, e: Event)
    ensures (#[trigger] evs.push(e)).drop_last() == evs, evs.push(e).last() == e
{
    assert(evs.push(e).drop_last() =~= evs);
}

/// The state of affairs after every event taken from the queue.
pub open spec fn faithful<SConfig, S: Sink<SConfig>>(s: S, start: Seq<Op>, got: Seq<Event>) -> bool {
    own(s.ops()) == own(start) + required(got, s.interval())
}

/*@ item src/sink/mod.rs struct RunnableSink
rw `S: Send + Sink<SConfig>,` => `S: Sink<SConfig>,`
rw `SConfig: 'static + Send + Clone,` => ``
@*/

impl<S, SConfig> RunnableSink<S, SConfig> where S: Sink<SConfig> {
/*@ fn src/sink/mod.rs RunnableSink.consume
attr: #[verifier::exec_allows_no_decreases_clause]
// the count of consecutive empty polls (half a second each) is taken not to reach 2^32
rw `attempts += 1` => `attempts = count_poll(attempts)`
at fn-start:
    broadcast use {bc_own_push, bc_evs_push};
    let ghost start = self_.state.ops();
    let ghost n_sources = self_.sources@.len();
    proof { vstd::std_specs::vec::axiom_spec_len(&self_.sources); }
loop 1 loop:
    invariant
        self_.sources@.len() == n_sources,
        last_flush_idx == last_idx(recv.got()),
        total_shutdowns == shutdowns(recv.got()),
        total_shutdowns == 0 || total_shutdowns < n_sources,
        n_sources <= usize::MAX,
        faithful::<SConfig, S>(self_.state, start, recv.got()),
loop 2 loop:
    invariant_except_break
        recv.got().len() > 0, event == recv.got().last(),
        last_flush_idx == last_idx(recv.got().drop_last()),
        total_shutdowns == shutdowns(recv.got().drop_last()),
        total_shutdowns == 0 || total_shutdowns < n_sources,
        self_.sources@.len() == n_sources,
        n_sources <= usize::MAX,
        faithful::<SConfig, S>(self_.state, start, recv.got().drop_last()),
    ensures
        recv.got().len() > 0,
        self_.sources@.len() == n_sources,
        last_flush_idx == last_idx(recv.got()),
        total_shutdowns == shutdowns(recv.got()),
        total_shutdowns == 0 || total_shutdowns < n_sources,
        n_sources <= usize::MAX,
        faithful::<SConfig, S>(self_.state, start, recv.got()),
at loop 2 start:
    broadcast use {bc_own_push, bc_evs_push};
at loop 1 start:
    broadcast use {bc_own_push, bc_evs_push};
at before `self_.state.shutdown();`:
    // the sink is only ever shut down after one Shutdown per upstream node, with everything delivered
    assert(shutdowns(recv.got()) >= n_sources);
    assert(shutdowns(recv.got().drop_last()) == 0 || shutdowns(recv.got().drop_last()) < n_sources);
    assert(faithful::<SConfig, S>(self_.state, start, recv.got()));
@*/
}

/// What a sink does that states nothing of its own: it never closes and takes what it is
/// given for nothing.
pub struct Plain { pub held: u64 }
impl Plain {
/*@ fn src/sink/mod.rs trait Sink.valve_state
ret: r
spec:
    ensures r is Open
@*/
/*@ fn src/sink/mod.rs trait Sink.deliver
spec:
    ensures *final(self) == *old(self)
@*/
/*@ fn src/sink/mod.rs trait Sink.deliver_line
spec:
    ensures *final(self) == *old(self)
@*/
/*@ fn src/sink/mod.rs trait Sink.deliver_raw
spec:
    ensures *final(self) == *old(self)
@*/
}
fn main() {}
} // verus!
