// C20: waiting for acknowledgements.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { _p: () }
pub mod time { pub type Duration = u64; }
pub fn min(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/*@ item src/metric/ackbag.rs struct SyncAckProps
@*/
impl Copy for SyncAckProps {}
impl Clone for SyncAckProps { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl SyncAckProps {
/*@ fn src/metric/ackbag.rs Default@SyncAckProps.default
ret: r
spec:
    ensures r.acks_received == 0
@*/
/*@ fn src/metric/ackbag.rs SyncAckProps.ack
spec:
    ensures
        old(self).acks_received < usize::MAX ==> final(self).acks_received == old(self).acks_received + 1,
        old(self).acks_received == usize::MAX ==> final(self).acks_received == usize::MAX,
@*/
/*@ fn src/metric/ackbag.rs SyncAckProps.acks_received
ret: r
spec:
    ensures r == self.acks_received
@*/
}

/// util::HashMap<Uuid, SyncAckProps>
#[verifier::external_body]
pub struct SyncAckBagMap { _p: () }
impl View for SyncAckBagMap {
    type V = Map<Uuid, SyncAckProps>;
    uninterp spec fn view(&self) -> Map<Uuid, SyncAckProps>;
}
impl SyncAckBagMap {
    #[verifier::external_body]
    pub fn default() -> (r: SyncAckBagMap) ensures r@ == Map::<Uuid, SyncAckProps>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Uuid) -> (r: Option<&SyncAckProps>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Uuid) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Uuid, v: SyncAckProps) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Uuid) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Uuid) -> (r: Option<&mut SyncAckProps>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
}
pub uninterp spec fn applied<F>(f: F, v: SyncAckProps) -> SyncAckProps;
#[verifier::external_body]
pub fn call<F>(f: F, v: &mut SyncAckProps) ensures *final(v) == applied(f, *old(v)) { unimplemented!() }

pub struct SyncAckBag {}
/// One thread's use of the bag: what it found each time it took the lock (whatever the others had made of it
/// by then), what it left each time, and how long it slept.
#[verifier::external_body]
pub struct Run { _p: () }
pub struct Visit {
    pub found: Map<Uuid, SyncAckProps>,
    pub left: Map<Uuid, SyncAckProps>,
}
impl Run {
    pub uninterp spec fn visits(&self) -> Seq<Visit>;
    pub uninterp spec fn naps(&self) -> Seq<u64>;
    pub open spec fn found(&self) -> Map<Uuid, SyncAckProps> { self.visits().last().found }
    pub open spec fn left(&self) -> Map<Uuid, SyncAckProps> { self.visits().last().left }
    /// one visit more, no sleep
    pub open spec fn one_more(&self, from: &Run) -> bool {
        self.visits().len() == from.visits().len() + 1 && self.visits().drop_last() == from.visits() && self.naps() == from.naps()
    }
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut SyncAckBagMap)
        ensures
            final(self).visits() == old(self).visits().push(Visit { found: r@, left: final(r)@ }), final(self).naps() == old(self).naps(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn nap<F>(t: &mut Run, f: &F, d: u64) ensures final(t).naps() == old(t).naps().push(d), final(t).visits() == old(t).visits() { unimplemented!() }

/// 5 ms at first, doubling, 250 ms at most
pub open spec fn nap_time(i: nat) -> nat
    decreases i
{
    if i == 0 { 5 } else if 2 * nap_time((i - 1) as nat) > 250 { 250 } else { 2 * nap_time((i - 1) as nat) }
}
pub open spec fn must_wait(m: Map<Uuid, SyncAckProps>, k: Uuid) -> bool { m.dom().contains(k) && m[k].acks_received == 0 }
/// From `t0` to `t1` the key was looked at `n` times, found unacknowledged each time, each time followed by a nap.
pub open spec fn waited(t0: Run, t1: Run, n: nat, k: Uuid) -> bool {
    &&& t1.visits().len() == t0.visits().len() + n && t1.naps().len() == t0.naps().len() + n
    &&& t0.visits().is_prefix_of(t1.visits()) && t0.naps().is_prefix_of(t1.naps())
    &&& forall|i: int| t0.visits().len() <= i < t1.visits().len() ==> must_wait((#[trigger] t1.visits()[i]).found, k) && t1.visits()[i].left == t1.visits()[i].found
    &&& forall|i: int| t0.naps().len() <= i < t1.naps().len() ==> #[trigger] t1.naps()[i] == nap_time((i - t0.naps().len()) as nat)
}
/// and then looked at once more, when it was acknowledged or gone
pub open spec fn released(t0: Run, t1: Run, k: Uuid) -> bool {
    &&& t1.visits().len() > t0.visits().len()
    &&& !must_wait(t1.found(), k) && t1.left() == t1.found()
    &&& exists|t: Run| #[trigger] waited(t0, t, (t1.visits().len() - t0.visits().len() - 1) as nat, k) && t1.one_more(&t)
}

/*@ rewrites
rw `let mut bag = self.waiting_syncs.lock().unwrap();` => `let bag = t.lock();`
rw `let bag = self.waiting_syncs.lock().unwrap();` => `let bag = t.lock();`
rw `self.waiting_syncs.lock().unwrap()` => `t.lock()`
rw `time::Duration::from_millis($*a)` => `$*a`
rw `callback($*v)` => `call(callback, $*v)`
rw `cb($*d)` => `nap(t, &cb, $*d)`
rw `thread::sleep` => `Sleep {}`
rw `self.props_for($*k)` => `self.props_for(t, $*k)`
rw `self.wait_for_callback($*k)` => `self.wait_for_callback(t, $*k)`
@*/
pub struct Sleep {}
impl SyncAckBag {
/*@ fn src/metric/ackbag.rs SyncAckBag.props_for
sig:
    pub fn props_for(&self, t: &mut Run, key: Uuid) -> (r: Option<SyncAckProps>)
spec:
    ensures
        final(t).one_more(old(t)), final(t).left() == final(t).found(),
        match r { Some(p) => final(t).found().dom().contains(key) && p == final(t).found()[key], None => !final(t).found().dom().contains(key) },
at fn-start:
    assert(forall|v: Visit| t.visits().push(v).drop_last() =~= t.visits());
@*/
/*@ fn src/metric/ackbag.rs SyncAckBag.prepare_wait
sig:
    pub fn prepare_wait(&self, t: &mut Run, key: Uuid)
spec:
    ensures
        final(t).one_more(old(t)),
        final(t).left() == final(t).found().insert(key, SyncAckProps { acks_received: 0 }),
at fn-start:
    assert(forall|v: Visit| t.visits().push(v).drop_last() =~= t.visits());
@*/
/*@ fn src/metric/ackbag.rs SyncAckBag.remove
sig:
    pub fn remove(&self, t: &mut Run, key: Uuid)
spec:
    ensures
        final(t).one_more(old(t)),
        final(t).left() == final(t).found().remove(key),
at fn-start:
    assert(forall|v: Visit| t.visits().push(v).drop_last() =~= t.visits());
@*/
/*@ fn src/metric/ackbag.rs SyncAckBag.with_props
sig:
    pub fn with_props<F>(&self, t: &mut Run, key: Uuid, callback: F)
spec:
    ensures
        final(t).one_more(old(t)),
        // the one key's entry, and no other
        final(t).left() == if final(t).found().dom().contains(key) { final(t).found().insert(key, applied(callback, final(t).found()[key])) } else { final(t).found() },
at fn-start:
    assert(forall|v: Visit| t.visits().push(v).drop_last() =~= t.visits());
@*/
/*@ fn src/metric/ackbag.rs SyncAckBag.wait_for
sig:
    pub fn wait_for(&self, t: &mut Run, key: Uuid)
spec:
    ensures released(*old(t), *final(t), key)
@*/
/*@ fn src/metric/ackbag.rs SyncAckBag.wait_for_callback
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn wait_for_callback<F>(&self, t: &mut Run, key: Uuid, cb: F)
spec:
    ensures released(*old(t), *final(t), key)
at fn-start:
    let ghost t0 = *t;
    let ghost mut n: nat = 0;
loop 1 while:
    invariant
        t0 == *old(t), max_nap_time == 250, wait ==> current_nap_time == nap_time(n), nap_time(n) <= 250,
        wait ==> waited(t0, *t, n, key),
        !wait ==> released(t0, *t, key),
at loop 1 start:
    let ghost b = *t;
at loop 1 end:
    proof {
        if wait {
            assert(t.visits() =~= b.visits().push(t.visits().last()));
            assert forall|i: int| t0.visits().len() <= i < t.visits().len() implies must_wait((#[trigger] t.visits()[i]).found, key) && t.visits()[i].left == t.visits()[i].found by {
                if i < b.visits().len() { assert(t.visits()[i] == b.visits()[i]); }
            }
            assert forall|i: int| t0.naps().len() <= i < t.naps().len() implies #[trigger] t.naps()[i] == nap_time((i - t0.naps().len()) as nat) by {
                if i < b.naps().len() { assert(t.naps()[i] == b.naps()[i]); }
            }
            assert(t0.visits().is_prefix_of(t.visits()));
            assert(t0.naps().is_prefix_of(t.naps()));
        } else {
            assert(waited(t0, b, (t.visits().len() - t0.visits().len() - 1) as nat, key) && t.one_more(&b));
        }
        n = n + 1;
    }
@*/
}
fn main() {}
} // verus!
