// C09: the flush boundary filter.
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {

pub mod metric { pub use super::Event; }
pub mod filter { pub use super::FilterError; }
pub mod mem { pub use std::mem::replace; }

pub assume_specification<T> [ std::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

#[verifier::external_body]
pub struct Rest { _p: () }
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct Encoding { _p: () }
pub struct Telemetry { pub timestamp: i64, pub rest: Rest }
pub struct LogLine { pub time: i64, pub rest: Rest }
/*@ item src/metric/event.rs enum Event
@*/
pub enum FilterError { NoSuchFunction, LuaError }

/// The moment an event belongs to, if it has one.
pub open spec fn event_ts(e: Event) -> Option<i64> {
    match e {
        Event::Telemetry(t) => Some(t.timestamp),
        Event::Log(l) => Some(l.time),
        _ => None,
    }
}
impl Event {
/*@ fn src/metric/event.rs Event.is_timer_flush
ret: r
spec:
    ensures r == (*self is TimerFlush)
@*/
/*@ fn src/metric/event.rs Event.timestamp
ret: r
spec:
    ensures r == event_ts(*self)
@*/
}

/*@ item src/filter/flush_boundary_filter.rs struct FlushBoundaryFilter
@*/
/*@ item src/filter/flush_boundary_filter.rs struct Hold
@*/

/// `n` is `h` with one hold put in at `i`, between the earlier and the later ones
pub open spec fn at_place(h: Seq<Hold>, n: Seq<Hold>, i: int) -> bool {
    &&& 0 <= i <= h.len()
    &&& n == h.insert(i, n[i])
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] h[j]).timestamp < n[i].timestamp
    &&& forall|j: int| i <= j < h.len() ==> (#[trigger] h[j]).timestamp > n[i].timestamp
}
/// how each hold compares with the event's time
pub open spec fn cmps(h: Seq<Hold>, e: Event) -> Seq<Ordering> {
    Seq::new(h.len(), |j: int| order(h[j].timestamp, event_ts(e)->0))
}
pub open spec fn order(a: i64, b: i64) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

/// slice::binary_search_by, on a slice ordered with respect to the comparison
#[verifier::external_body]
pub fn search_by<T, F: Fn(&T) -> Ordering>(v: &Vec<T>, f: F, Ghost(c): Ghost<Seq<Ordering>>) -> (r: Result<usize, usize>)
    requires
        c.len() == v@.len(),
        forall|j: int| 0 <= j < v@.len() ==> f.requires((&#[trigger] v@[j],)),
        forall|j: int, o: Ordering| 0 <= j < v@.len() && #[trigger] f.ensures((&v@[j],), o) ==> o == c[j],
        forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Greater ==> #[trigger] c[k] == Ordering::Greater,
        forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Equal ==> #[trigger] c[k] != Ordering::Less,
    ensures
        match r {
            Ok(i) => i < v@.len() && c[i as int] == Ordering::Equal,
            Err(i) => i <= v@.len() && (forall|j: int| 0 <= j < i ==> #[trigger] c[j] == Ordering::Less)
                && (forall|j: int| i <= j < c.len() ==> #[trigger] c[j] == Ordering::Greater),
        }
{ v.binary_search_by(f) }

// ---- what the filter holds

/// strictly ascending times, nothing empty, every event where it belongs, nothing overdue
pub open spec fn wf(holds: Seq<Hold>, tolerance: usize) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < holds.len() ==> (#[trigger] holds[i]).timestamp < (#[trigger] holds[j]).timestamp
    &&& forall|i: int| 0 <= i < holds.len() ==> (#[trigger] holds[i]).age <= tolerance
    &&& forall|i: int, k: int| 0 <= i < holds.len() && 0 <= k < (#[trigger] holds[i]).events@.len() ==>
            event_ts(#[trigger] holds[i].events@[k]) == Some(holds[i].timestamp)
}
/// everything held, oldest time first, arrival order within one time
pub open spec fn flat(holds: Seq<Hold>) -> Seq<Event>
    decreases holds.len()
{
    if holds.len() == 0 { Seq::empty() } else { flat(holds.drop_last()) + holds.last().events@ }
}
pub open spec fn aged(h: Hold) -> int { h.age + 1 }
/// events of the holds that the coming flush releases
pub open spec fn released(holds: Seq<Hold>, tolerance: usize) -> Seq<Event>
    decreases holds.len()
{
    if holds.len() == 0 { Seq::empty() } else {
        let r = released(holds.drop_last(), tolerance);
        if aged(holds.last()) > tolerance { r + holds.last().events@ } else { r }
    }
}
/// (time, age, events) of the holds that stay, one flush older
pub open spec fn kept(holds: Seq<Hold>, tolerance: usize) -> Seq<(i64, int, Seq<Event>)>
    decreases holds.len()
{
    if holds.len() == 0 { Seq::empty() } else {
        let r = kept(holds.drop_last(), tolerance);
        if aged(holds.last()) > tolerance { r } else { r.push((holds.last().timestamp, aged(holds.last()), holds.last().events@)) }
    }
}
pub open spec fn shape(holds: Seq<Hold>) -> Seq<(i64, int, Seq<Event>)> {
    Seq::new(holds.len(), |i: int| (holds[i].timestamp, holds[i].age as int, holds[i].events@))
}
pub proof fn lemma_kept_sorted(holds: Seq<Hold>, tolerance: usize)
    requires wf(holds, tolerance)
    ensures
        kept(holds, tolerance).len() <= holds.len(),
        forall|i: int, j: int| 0 <= i < j < kept(holds, tolerance).len() ==> (#[trigger] kept(holds, tolerance)[i]).0 < (#[trigger] kept(holds, tolerance)[j]).0,
        forall|i: int| 0 <= i < kept(holds, tolerance).len() ==> (#[trigger] kept(holds, tolerance)[i]).1 <= tolerance
            && holds.len() > 0 && kept(holds, tolerance)[i].0 <= holds.last().timestamp,
        forall|i: int, k: int| 0 <= i < kept(holds, tolerance).len() && 0 <= k < (#[trigger] kept(holds, tolerance)[i]).2.len() ==>
            event_ts(#[trigger] kept(holds, tolerance)[i].2[k]) == Some(kept(holds, tolerance)[i].0),
    decreases holds.len()
{
    if holds.len() > 0 {
        let d = holds.drop_last();
        assert(wf(d, tolerance)) by {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).timestamp < (#[trigger] d[j]).timestamp by {
                assert(holds[i].timestamp < holds[j].timestamp);
            }
        }
        lemma_kept_sorted(d, tolerance);
        if d.len() > 0 { assert(holds[d.len() - 1].timestamp < holds[d.len() as int].timestamp); }
    }
}

pub proof fn lemma_kept_wf(h: Seq<Hold>, n: Seq<Hold>, tol: usize)
    requires wf(h, tol), shape(n) == kept(h, tol)
    ensures wf(n, tol)
{
    lemma_kept_sorted(h, tol);
    let k = kept(h, tol);
    assert(shape(n).len() == n.len());
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).timestamp == k[i].0 && n[i].age == k[i].1 && n[i].events@ == k[i].2 by {
        assert(shape(n)[i] == k[i]);
    }
    assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).timestamp < (#[trigger] n[b]).timestamp by {
        assert(k[a].0 < k[b].0);
    }
    assert forall|a: int, j: int| 0 <= a < n.len() && 0 <= j < (#[trigger] n[a]).events@.len() implies
            event_ts(#[trigger] n[a].events@[j]) == Some(n[a].timestamp) by {
        assert(event_ts(k[a].2[j]) == Some(k[a].0));
    }
}
pub proof fn lemma_push(h: Seq<Hold>, n: Seq<Hold>, i: int, e: Event, tol: usize)
    requires
        wf(h, tol), 0 <= i < h.len(), n.len() == h.len(),
        forall|j: int| 0 <= j < h.len() && j != i ==> #[trigger] n[j] == h[j],
        n[i].timestamp == h[i].timestamp, n[i].age == h[i].age, n[i].events@ == h[i].events@.push(e),
        event_ts(e) == Some(h[i].timestamp),
    ensures
        wf(n, tol),
        shape(n) == shape(h).update(i, (h[i].timestamp, h[i].age as int, h[i].events@.push(e))),
{
    assert(shape(n) =~= shape(h).update(i, (h[i].timestamp, h[i].age as int, h[i].events@.push(e))));
    assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).timestamp < (#[trigger] n[b]).timestamp by {
        assert(h[a].timestamp < h[b].timestamp);
    }
    assert forall|a: int, k: int| 0 <= a < n.len() && 0 <= k < (#[trigger] n[a]).events@.len() implies
            event_ts(#[trigger] n[a].events@[k]) == Some(n[a].timestamp) by {
        if a != i { assert(n[a] == h[a]); } else if k < h[i].events@.len() { assert(h[i].events@[k] == n[i].events@[k]); }
    }
}
pub proof fn lemma_insert(h: Seq<Hold>, n: Seq<Hold>, i: int, e: Event, tol: usize)
    requires
        wf(h, tol), 0 <= i <= h.len(), n == h.insert(i, n[i]),
        forall|j: int| 0 <= j < i ==> (#[trigger] h[j]).timestamp < n[i].timestamp,
        forall|j: int| i <= j < h.len() ==> (#[trigger] h[j]).timestamp > n[i].timestamp,
        n[i].age == 0, n[i].events@ == seq![e], event_ts(e) == Some(n[i].timestamp),
    ensures
        wf(n, tol),
        shape(n) == shape(h).insert(i, (n[i].timestamp, 0int, seq![e])),
{
    assert(shape(n) =~= shape(h).insert(i, (n[i].timestamp, 0int, seq![e])));
    assert forall|a: int| 0 <= a < n.len() implies #[trigger] n[a] == (if a < i { h[a] } else if a == i { n[i] } else { h[a - 1] }) by {}
    assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).timestamp < (#[trigger] n[b]).timestamp by {
        if a != i && b != i {
            let x = if a < i { a } else { a - 1 };
            let y = if b < i { b } else { b - 1 };
            assert(h[x].timestamp < h[y].timestamp);
        }
    }
}

impl Hold {
/*@ fn src/filter/flush_boundary_filter.rs Hold.new
ret: r
spec:
    requires event_ts(event) is Some
    ensures r.timestamp == event_ts(event)->0, r.age == 0, r.events@ == seq![event]
@*/
}

impl FlushBoundaryFilter {
/*@ fn src/filter/flush_boundary_filter.rs Filter@FlushBoundaryFilter.process
ret: ret
rw `for $p in &mut self.holds {` => `for $p in self.holds.iter_mut() {`
rw `self.holds.insert($i, $*h)` => `{ self.holds.insert($i, $*h); proof { assert(self.holds@ =~= h0.insert($i as int, self.holds@[$i as int])); assert forall|j: int| 0 <= j < h0.len() implies (#[trigger] h0[j]).timestamp != ts && ((h0[j].timestamp < ts) == (j < $i)) by { assert(cmps(h0, event0)[j] == order(h0[j].timestamp, ts)); } assert(at_place(h0, self.holds@, $i as int)); } }`
rw `self.holds.binary_search_by(|$h| $*e)` => `search_by(&self.holds, |$h: &Hold| -> (o: Ordering) ensures o == order($h.timestamp, ts) { $*e }, Ghost(cmps(h0, event0)))`
spec:
    requires wf(old(self).holds@, old(self).tolerance), old(self).tolerance < usize::MAX,
    ensures
        ret is Ok,
        wf(final(self).holds@, final(self).tolerance),
        final(self).tolerance == old(self).tolerance,
        event is TimerFlush ==> {
            // held long enough: out, in order, before the flush that released it
            &&& final(res)@ == (old(res)@ + released(old(self).holds@, old(self).tolerance)).push(event)
            &&& shape(final(self).holds@) == kept(old(self).holds@, old(self).tolerance)
        },
        !(event is TimerFlush) && event_ts(event) is Some ==> {
            let t = event_ts(event)->0;
            let o = old(self).holds@;
            let n = final(self).holds@;
            &&& final(res)@ == old(res)@
            &&& (exists|i: int| 0 <= i < o.len() && o[i].timestamp == t && shape(n) == #[trigger] shape(o).update(i, (t, o[i].age as int, o[i].events@.push(event))))
                || ((forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).timestamp != t)
                    && exists|i: int| 0 <= i <= o.len() && shape(n) == #[trigger] shape(o).insert(i, (t, 0int, seq![event])))
        },
        !(event is TimerFlush) && event_ts(event) is None ==>
            final(res)@ == old(res)@.push(event) && final(self).holds@ == old(self).holds@,
at fn-start:
    let ghost h0 = self.holds@;
    let ghost r0 = res@;
    let ghost tol = self.tolerance;
    let ghost event0 = event;
loop 1 for iter it:
    invariant
        it.seq().len() == h0.len(), tol < usize::MAX,
        wf(h0, tol),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == h0[i],
        forall|i: int| 0 <= i < it.index() ==> {
            let f = *final(#[trigger] it.seq()[i]);
            f.age == h0[i].age + 1 && f.timestamp == h0[i].timestamp && f.events == h0[i].events },
loop 2 for iter it:
    invariant
        tol == self.tolerance,
        it.seq().len() == h0.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> {
            let f = #[trigger] it.seq()[i];
            f.age == h0[i].age + 1 && f.timestamp == h0[i].timestamp && f.events == h0[i].events },
        res@ == r0 + released(h0.take(it.index() as int), tol),
        shape(too_new@) == kept(h0.take(it.index() as int), tol),
at loop 2 start:
    proof {
        assert(h0.take(it.index() + 1).drop_last() =~= h0.take(it.index() as int));
    }
    let ghost tn = too_new@;
at loop 2 end:
    proof {
        assert(shape(too_new@) =~= kept(h0.take(it.index() + 1), tol));
        assert(res@ =~= r0 + released(h0.take(it.index() + 1), tol));
    }
at loop 2 before:
    assert(h0.take(0) =~= Seq::empty());
    assert(res@ =~= r0 + released(h0.take(0), tol));
    assert(shape(too_new@) =~= kept(h0.take(0), tol));
at after `self.holds = too_new;`:
    proof {
        assert(h0.take(h0.len() as int) =~= h0);
        lemma_kept_wf(h0, self.holds@, tol);
    }
at before `Ok(())`:
    proof {
        let n = self.holds@;
        if event_ts(event0) is Some {
            let t = event_ts(event0)->0;
            if exists|i: int| 0 <= i < h0.len() && h0[i].timestamp == t {
                let i = choose|i: int| 0 <= i < h0.len() && h0[i].timestamp == t;
                assert(cmps(h0, event0)[i] == Ordering::Equal);
                lemma_push(h0, n, i, event0, tol);
            } else {
                assert(forall|j: int| 0 <= j < h0.len() ==> cmps(h0, event0)[j] != Ordering::Equal);
                let i = choose|i: int| 0 <= i <= h0.len() && at_place(h0, n, i);
                lemma_insert(h0, n, i, event0, tol);
            }
        }
    }
@*/

/*@ fn src/filter/flush_boundary_filter.rs Filter@FlushBoundaryFilter.drain
spec:
    ensures
        final(res)@ == old(res)@ + flat(old(self).holds@),
        final(self).holds@.len() == 0,
at fn-start:
    let ghost h0 = self.holds@;
    let ghost r0 = res@;
loop 1 for iter it:
    invariant
        it.seq() == h0,
        self.holds@.len() == 0,
        res@ == r0 + flat(h0.take(it.index() as int)),
at loop 1 start:
    assert(h0.take(it.index() + 1).drop_last() =~= h0.take(it.index() as int));
at loop 1 end:
    assert(res@ =~= r0 + flat(h0.take(it.index() + 1)));
at loop 1 after:
    assert(h0.take(h0.len() as int) =~= h0);
@*/
}

/// Nothing is lost: at every flush what was held is either released or still held.
pub proof fn lemma_conservation(holds: Seq<Hold>, tolerance: usize, next: Seq<Hold>)
    requires shape(next) == kept(holds, tolerance)
    ensures released(holds, tolerance).to_multiset().add(flat(next).to_multiset()) == flat(holds).to_multiset()
    decreases holds.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if holds.len() == 0 {
        assert(next.len() == 0) by { assert(shape(next).len() == 0); }
        assert(released(holds, tolerance).to_multiset().add(flat(next).to_multiset()) =~= flat(holds).to_multiset());
    } else {
        let d = holds.drop_last();
        let l = holds.last();
        if aged(l) > tolerance {
            lemma_conservation(d, tolerance, next);
            vstd::seq_lib::lemma_multiset_commutative(released(d, tolerance), l.events@);
            vstd::seq_lib::lemma_multiset_commutative(flat(d), l.events@);
        } else {
            assert(shape(next).len() == next.len());
            assert(next.len() > 0);
            let nd = next.drop_last();
            assert(shape(nd) =~= kept(d, tolerance)) by {
                assert forall|i: int| 0 <= i < nd.len() implies #[trigger] shape(nd)[i] == kept(d, tolerance)[i] by {
                    assert(shape(next)[i] == kept(holds, tolerance)[i]);
                }
            }
            assert(shape(next).last() == kept(holds, tolerance).last());
            assert(next.last().events@ == l.events@);
            lemma_conservation(d, tolerance, nd);
            vstd::seq_lib::lemma_multiset_commutative(flat(nd), l.events@);
            vstd::seq_lib::lemma_multiset_commutative(flat(d), l.events@);
        }
        assert(released(holds, tolerance).to_multiset().add(flat(next).to_multiset()) =~= flat(holds).to_multiset());
    }
}

fn main() {}
} // verus!
