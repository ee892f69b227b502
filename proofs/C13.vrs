// C13: the filter run loop.
use vstd::prelude::*;
verus! {

#[verifier::external_body]
pub struct Telemetry { _p: () }
#[verifier::external_body]
pub struct LogLine { _p: () }
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct Encoding { _p: () }

/*@ item src/metric/event.rs enum Event
@*/
/*@ item src/filter/mod.rs enum FilterError
@*/
pub mod metric { pub use super::Event; }

pub mod time {
    use super::*;
    #[verifier::external_body]
    pub fn delay(attempts: u32) { unimplemented!() }
}
#[verifier::external_body]
pub fn count_poll(attempts: u32) -> u32 { attempts + 1 }

/// The input queue: `got` is everything it has handed out so far.
pub mod hopper {
    use super::*;
    use std::marker::PhantomData;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { _p: PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct IntoIter<T> { _p: PhantomData<T> }
    impl<T> IntoIter<T> {
        pub uninterp spec fn got(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures match r {
                Some(e) => final(self).got() == old(self).got().push(e),
                None => final(self).got() == old(self).got(),
            }
        { unimplemented!() }
    }
    impl<T> Receiver<T> {
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: IntoIter<T>)
            ensures r.got() == Seq::<T>::empty()
        { unimplemented!() }
    }
}

/// The downstream channels, seen as one: `sent` is everything passed to `send` so far.
/// (C14 proves what `send` does with each channel.)
pub mod util {
    use super::*;
    #[verifier::external_body]
    pub struct Channel { _p: () }
    impl Channel { pub uninterp spec fn sent(&self) -> Seq<Event>; }
    #[verifier::external_body]
    pub fn send(chans: &mut Channel, event: Event)
        ensures final(chans).sent() == old(chans).sent().push(event)
    { unimplemented!() }
}

/// Vec::drain over the full range, taken to the end
#[verifier::external_body]
pub fn drain_all<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0
{ v.drain(..).collect() }

/// One step of a filter: the input, what it emitted, and the event carried by its error, if any.
pub struct Step { pub input: Event, pub emitted: Seq<Event>, pub error: Option<Event> }

pub open spec fn fe_event(fe: FilterError) -> Event {
    match fe { FilterError::NoSuchFunction(_, m) => m, FilterError::LuaError(_, m) => m }
}
/*@ fn src/filter/mod.rs msg_in_fe
attr: #[verifier::external_body]
@*/
/*@ fn src/filter/mod.rs event_in_fe
ret: r
spec:
    ensures r == fe_event(fe)
@*/

/// What has to have been forwarded after these steps.
pub open spec fn output(steps: Seq<Step>) -> Seq<Event>
    decreases steps.len()
{
    if steps.len() == 0 { Seq::empty() } else {
        let s = steps.last();
        let o = output(steps.drop_last()) + s.emitted;
        match s.error { Some(e) => o.push(e), None => o }
    }
}
pub open spec fn inputs(steps: Seq<Step>) -> Seq<Event> { steps.map_values(|s: Step| s.input) }
pub open spec fn payload(evs: Seq<Event>) -> Seq<Event> { evs.filter(|e: Event| !(e is Shutdown)) }
pub open spec fn shutdowns(evs: Seq<Event>) -> nat
    decreases evs.len()
{
    if evs.len() == 0 { 0 } else { shutdowns(evs.drop_last()) + if evs.last() is Shutdown { 1nat } else { 0nat } }
}
pub broadcast proof fn bc_payload_push(evs: Seq<Event>, e: Event)
    ensures #[trigger] payload(evs.push(e)) == if e is Shutdown { payload(evs) } else { payload(evs).push(e) },
{
    reveal(Seq::filter);
    assert(evs.push(e).drop_last() =~= evs);
}
pub broadcast proof fn bc_shutdowns_push(evs: Seq<Event>, e: Event)
    ensures #[trigger] shutdowns(evs.push(e)) == shutdowns(evs) + if e is Shutdown { 1nat } else { 0nat },
{
    assert(evs.push(e).drop_last() =~= evs);
}
pub broadcast proof fn bc_output_push(steps: Seq<Step>, s: Step)
    ensures #[trigger] output(steps.push(s)) == match s.error {
                Some(e) => (output(steps) + s.emitted).push(e), None => output(steps) + s.emitted },
            inputs(steps.push(s)) == inputs(steps).push(s.input),
{
    assert(steps.push(s).drop_last() =~= steps);
    assert(inputs(steps.push(s)) =~= inputs(steps).push(s.input));
}

pub trait Filter: Sized {
    /// every call of `process` so far
    spec fn steps(&self) -> Seq<Step>;

    // the filters themselves only ever append to their output
    fn process(&mut self, event: metric::Event, res: &mut Vec<metric::Event>) -> (r: Result<(), FilterError>)
        requires !(event is Shutdown), old(res)@.len() == 0,
        ensures
            final(self).steps() == old(self).steps().push(Step {
                input: event,
                emitted: final(res)@,
                error: match r { Ok(_) => None, Err(fe) => Some(fe_event(fe)) },
            });

    // asked for once, at the end: a step without an input of its own
    fn drain(&mut self, res: &mut Vec<metric::Event>)
        requires old(res)@.len() == 0,
        ensures final(self).steps() == old(self).steps().push(Step { input: Event::Shutdown, emitted: final(res)@, error: None });

/*@ fn src/filter/mod.rs trait Filter.run
attr: #[verifier::exec_allows_no_decreases_clause]
// the count of consecutive empty polls (half a second each) is taken not to reach 2^32
rw `attempts += 1` => `attempts = count_poll(attempts)`
rw `Vec::with_capacity(64)` => `Vec::<Event>::with_capacity(64)`
// Vec::drain(..) hands out every element in order and leaves the vector empty
rw `for ev in events.drain(..)` => `for ev in drain_all(&mut events)`
rw `mut chans: util::Channel` => `chans: &mut util::Channel`
rw `&mut chans` => `chans`
spec:
    requires old(self).steps() == Seq::<Step>::empty(),
    ensures
        // everything the filter emitted went out, in order, and exactly one Shutdown at the very end
        final(chans).sent() == (old(chans).sent() + output(final(self).steps())).push(Event::Shutdown),
at fn-start:
    broadcast use {bc_payload_push, bc_output_push, bc_shutdowns_push};
    proof { vstd::std_specs::vec::axiom_spec_len(&sources); }
loop 1 loop:
    invariant
        events@.len() == 0,
        total_shutdowns == shutdowns(recv.got()),
        sources@.len() <= usize::MAX,
        total_shutdowns == 0 || total_shutdowns < sources@.len(),
        inputs(self.steps()) == payload(recv.got()),
        chans.sent() == old(chans).sent() + output(self.steps()),
at loop 1 start:
    broadcast use {bc_payload_push, bc_output_push, bc_shutdowns_push};
    let ghost base = chans.sent();
loop 2 for iter it:
    invariant
        chans.sent() == base + it.seq().take(it.index() as int),
        it.seq() == self.steps().last().emitted,
        events@.len() == 0,
at loop 2 end:
    assert(it.seq().take(it.index() + 1) =~= it.seq().take(it.index() as int).push(ev));
at loop 2 after:
    assert(chans.sent() =~= base + self.steps().last().emitted);
loop 3 for iter it:
    invariant
        chans.sent() == base + it.seq().take(it.index() as int),
        it.seq() == self.steps().last().emitted,
        events@.len() == 0,
at loop 3 end:
    assert(it.seq().take(it.index() + 1) =~= it.seq().take(it.index() as int).push(ev));
at loop 3 after:
    assert(chans.sent() =~= base + self.steps().last().emitted);
loop 4 for iter it:
    invariant
        chans.sent() == base + it.seq().take(it.index() as int),
        it.seq() == self.steps().last().emitted,
        events@.len() == 0,
at loop 4 end:
    assert(it.seq().take(it.index() + 1) =~= it.seq().take(it.index() as int).push(ev));
at loop 4 after:
    assert(chans.sent() =~= base + self.steps().last().emitted);
at before `return;`:
    assert(shutdowns(recv.got()) >= sources@.len());
    assert(inputs(self.steps()) == payload(recv.got()).push(Event::Shutdown));
@*/
}

/// a filter that states nothing of its own about what it still holds: it holds nothing
pub struct Plain { pub held: u64 }
impl Plain {
/*@ fn src/filter/mod.rs trait Filter.drain
spec:
    ensures *final(self) == *old(self), final(_res)@ == old(_res)@
@*/
}

fn main() {}
} // verus!
