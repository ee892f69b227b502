// C14: fan-out.
use vstd::prelude::*;
verus! {

#[verifier::external_body]
pub struct Event { _p: () }
impl Clone for Event {
    #[verifier::external_body]
    fn clone(&self) -> (r: Event) ensures r == *self { unimplemented!() }
}
pub mod metric { pub use super::Event; }

pub mod hopper {
    use super::*;
    use std::marker::PhantomData;
    pub enum Error { NoSuchDirectory, IoError, NoFlush, Full }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { _p: PhantomData<T> }
    impl<T> Sender<T> {
        /// everything the queue has accepted
        pub uninterp spec fn log(&self) -> Seq<T>;
        /// how often the queue has answered that it is full
        pub uninterp spec fn fulls(&self) -> nat;
        #[verifier::external_body]
        pub fn send(&mut self, event: T) -> (r: Result<(), (T, Error)>)
            ensures match r {
                Ok(_) => final(self).log() == old(self).log().push(event) && final(self).fulls() == old(self).fulls(),
                Err(x) => x.0 == event && final(self).log() == old(self).log()
                    && final(self).fulls() == old(self).fulls() + if x.1 is Full { 1nat } else { 0nat },
            }
        { unimplemented!() }
    }
}
pub type Channel = Vec<hopper::Sender<metric::Event>>;

/// &mut v[from..]
#[verifier::external_body]
pub fn tail_mut<T>(v: &mut Vec<T>, from: usize) -> (r: &mut [T])
    requires from <= old(v)@.len()
    ensures r@ == old(v)@.subrange(from as int, old(v)@.len() as int),
            final(v)@ == old(v)@.subrange(0, from as int) + final(r)@,
            final(r)@.len() == r@.len(),
{ &mut v[from..] }

/// One queue got the event exactly once, or it said it was full, once, and was left alone.
pub open spec fn served(before: hopper::Sender<Event>, after: hopper::Sender<Event>, e: Event) -> bool {
    ||| after.log() == before.log().push(e) && after.fulls() == before.fulls()
    ||| after.log() == before.log() && after.fulls() == before.fulls() + 1
}

/*@ fn src/util.rs send
attr: #[verifier::exec_allows_no_decreases_clause]
rw `$A.fetch_add($*a);` => ``
rw `in &mut chans[$a..]` => `in tail_mut(chans, $a).iter_mut()`
spec:
    ensures
        final(chans)@.len() == old(chans)@.len(),
        forall|i: int| 0 <= i < old(chans)@.len() ==> served(#[trigger] old(chans)@[i], final(chans)@[i], event),
at fn-start:
    let ghost o = chans@;
    let ghost e0 = event;
loop 1 for iter it:
    invariant
        event == e0,
        it.seq().len() == o.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == o[i + 1],
        forall|i: int| 0 <= i < it.index() ==> served(o[i + 1], *final(#[trigger] it.seq()[i]), e0),
at loop 1 start:
    let ghost c0 = *chan;
loop 2 while:
    invariant_except_break
        chan.log() == c0.log(), chan.fulls() == c0.fulls(),
        snd_event == e0, 
    ensures served(c0, *chan, e0),
loop 3 while:
    invariant_except_break
        event == e0,
        chans@.len() == o.len(), o.len() > 0,
        chans@[0].log() == o[0].log(), chans@[0].fulls() == o[0].fulls(),
        forall|i: int| 1 <= i < o.len() ==> served(#[trigger] o[i], chans@[i], e0),
    ensures
        chans@.len() == o.len(),
        forall|i: int| 0 <= i < o.len() ==> served(#[trigger] o[i], chans@[i], e0),
@*/

fn main() {}
} // verus!
