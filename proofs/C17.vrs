// C17: what the prometheus sink keeps, and what a scrape states.
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
/*@ rewrites
rw `assert_eq!(telem.kind(), AggregationMethod::Summarize);` => `must_be(telem.kind().same(&AggregationMethod::Summarize));`
rw `assert!($*a);` => `must_be($*a);`
@*/
/// assert!, which must never fail
pub fn must_be(b: bool) requires b {}

// ================================================================ the aggregation
pub mod aggr {
use super::*;
//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc
//@include inc/search.inc
//@include inc/shown.inc
//@include inc/readout.inc
impl Telemetry {
/*@ fn src/metric/telemetry.rs Telemetry.samples_sum
ret: r
spec:
    requires self.ok(), self.agg() is Quant || self.agg() is Hist
    ensures r == ssum(*self)
@*/
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Telemetry) ensures r == *self { unimplemented!() }
}
pub open spec fn ssum(t: Telemetry) -> Option<f64> { match t.agg() { Agg::Hist { sum, .. } => sum, _ => Some(sum_of(t)) } }
pub open spec fn sum_of(t: Telemetry) -> f64 { match t.override_sample_sum { Some(s) => s, None => t.agg()->Quant_sum } }

pub assume_specification [ i128::abs ](x: i128) -> (r: i128)
    requires x > i128::MIN,
    ensures r == (if x < 0 { -x } else { x as int });
pub open spec fn dist(a: int, b: int) -> int { if a > b { a - b } else { b - a } }
/*@ fn src/time.rs distance
ret: r
rw `now()` => `time::now()`
spec:
    ensures exists|now: i64| #[trigger] clock_reads(now) && r == dist(time as int, now as int)
@*/
/*@ rewrites
rw `time::distance($*a)` => `distance($*a)`
@*/

/*@ item src/sink/prometheus.rs enum Accumulator
@*/
/// What can be seen of a point.
pub struct Pt { pub name: Seq<char>, pub agg: Agg, pub timestamp: i64, pub tags: Option<TagMap>, pub persist: bool }
pub open spec fn pt(t: Telemetry) -> Pt {
    Pt { name: t.name@, agg: t.agg(), timestamp: t.timestamp, tags: t.tags, persist: t.persist }
}
pub open spec fn pts(s: Seq<Telemetry>) -> Seq<Pt> { s.map_values(|t: Telemetry| pt(t)) }
/// a later point worked into one that is there
pub open spec fn joined(a: Pt, b: Pt) -> Pt { Pt { agg: plus(a.agg, b.agg), persist: b.persist, ..a } }
/// a summary with a sample in it
pub open spec fn sampled(t: Telemetry) -> bool { t.ok() && t.agg() is Quant && t.agg()->Quant_data.len() > 0 }
pub open spec fn full(t: Telemetry) -> bool { t.ok() && (t.agg() is Quant ==> sampled(t)) }
/// samples in strictly ascending seconds
pub open spec fn window_ok(s: Seq<Telemetry>, cap: usize) -> bool {
    &&& s.len() <= cap
    &&& forall|i: int| 0 <= i < s.len() ==> sampled(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).timestamp < (#[trigger] s[j]).timestamp
}
pub open spec fn acc_ok(a: Accumulator) -> bool {
    match a {
        Accumulator::Perpetual(t) => t.ok() && !(t.agg() is Quant),
        Accumulator::Windowed { cap, samples, .. } => window_ok(samples@, cap),
    }
}
pub open spec fn acc_kind(a: Accumulator) -> AggregationMethod {
    match a { Accumulator::Perpetual(t) => kind_of(t.agg()), _ => AggregationMethod::Summarize }
}
/// the newest of them
pub open spec fn newest(s: Seq<Pt>, cap: int) -> Seq<Pt> { if s.len() > cap { s.skip(s.len() - cap) } else { s } }
/// A sample joins the one of its second, or stands in its place in time; beyond the capacity the oldest goes.
pub open spec fn slid(a: Seq<Pt>, p: Pt, b: Seq<Pt>, cap: int) -> bool {
    ||| exists|i: int| #![trigger a[i]] 0 <= i < a.len() && a[i].timestamp == p.timestamp && b == a.update(i, joined(a[i], p))
    ||| exists|i: int| 0 <= i <= a.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).timestamp < p.timestamp)
            && (forall|j: int| i <= j < a.len() ==> (#[trigger] a[j]).timestamp > p.timestamp)
            && b == newest(#[trigger] a.insert(i, p), cap)
}
pub uninterp spec fn f64_max() -> f64;
/// std::f64::MAX
#[verifier::external_body]
pub fn max_f64() -> (r: f64) ensures r == f64_max() { unimplemented!() }
/// the sum over all samples ever, wrapped around where it would leave the numbers
pub open spec fn summed(s: f64, v: f64) -> f64 {
    if fle(fsub(f64_max(), v), s) { fsub(v, fsub(f64_max(), s)) } else { fadd(s, v) }
}
/// the number of samples ever, begun anew where it would leave the numbers
pub open spec fn counted(n: u64, k: usize) -> u64 { if u64::MAX - n <= k { k as u64 } else { (n + k) as u64 } }
pub open spec fn took(a: Accumulator, t: Telemetry, b: Accumulator) -> bool {
    match (a, b) {
        (Accumulator::Perpetual(x), Accumulator::Perpetual(y)) => y.ok() && pt(y) == joined(pt(x), pt(t)),
        (Accumulator::Windowed { cap, sum, count, samples }, Accumulator::Windowed { cap: c, sum: s, count: n, samples: v }) => {
            c == cap && s == summed(sum, sum_of(t)) && n == counted(count, n_of(t)) && slid(pts(samples@), pt(t), pts(v@), cap as int)
        }
        _ => false,
    }
}
/// Vec::drain of the first, dropped
#[verifier::external_body]
pub fn drop_first(v: &mut Vec<Telemetry>, n: usize)
    requires n <= old(v)@.len()
    ensures final(v)@ == old(v)@.skip(n as int)
{ unimplemented!() }
pub open spec fn cmps(v: Seq<Telemetry>, t: i64) -> Seq<Ordering> { Seq::new(v.len(), |j: int| order(v[j].timestamp as int, t as int)) }
/// Ord for i64
#[verifier::external_body]
pub fn cmp_i64(a: &i64, b: &i64) -> (o: Ordering) ensures o == order(*a as int, *b as int) { unimplemented!() }

/// the ones that stay, each judged by the clock
pub open spec fn kept(s: Seq<Telemetry>, keep: Seq<bool>) -> Seq<Telemetry>
    decreases s.len()
{ if s.len() == 0 { s } else { let r = kept(s.drop_last(), keep.drop_last()); if keep.last() { r.push(s.last()) } else { r } } }
pub open spec fn judged(t: Telemetry, cap: usize, stays: bool) -> bool {
    exists|now: i64| #[trigger] clock_reads(now) && stays == (dist(t.timestamp as int, now as int) <= cap)
}
pub open spec fn purged(a: Accumulator, b: Accumulator, n: usize) -> bool {
    match (a, b) {
        (Accumulator::Perpetual(x), Accumulator::Perpetual(y)) => x == y && n == 0,
        (Accumulator::Windowed { cap, sum, count, samples }, Accumulator::Windowed { cap: c, sum: s, count: k, samples: v }) => {
            c == cap && s == sum && k == count && n + v@.len() == samples@.len() && exists|keep: Seq<bool>| #[trigger] kept(samples@, keep) == v@ && keep.len() == samples@.len()
                && forall|i: int| 0 <= i < keep.len() ==> judged(samples@[i], cap, #[trigger] keep[i])
        }
        _ => false,
    }
}
pub proof fn lemma_joined(a: Seq<Telemetry>, b: Seq<Telemetry>, t: Telemetry, i: int, cap: usize)
    requires
        window_ok(a, cap), 0 <= i < a.len(), a[i].timestamp == t.timestamp, sampled(t),
        b == a.update(i, b[i]), b[i].ok(), b[i].agg() == plus(a[i].agg(), t.agg()), b[i].persist == t.persist,
        b[i].name == a[i].name, b[i].tags == a[i].tags, b[i].timestamp == a[i].timestamp,
    ensures window_ok(b, cap), slid(pts(a), pt(t), pts(b), cap as int)
{
    assert(pts(a)[i] == pt(a[i]));
    assert(pts(b) =~= pts(a).update(i, joined(pts(a)[i], pt(t))));
}
pub proof fn lemma_placed(a: Seq<Telemetry>, b: Seq<Telemetry>, t: Telemetry, i: int, cap: usize)
    requires
        window_ok(a, cap), 0 <= i <= a.len(), sampled(t),
        forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).timestamp < t.timestamp, forall|j: int| i <= j < a.len() ==> (#[trigger] a[j]).timestamp > t.timestamp,
        b == (if a.len() + 1 > cap { a.insert(i, t).skip(a.len() + 1 - cap) } else { a.insert(i, t) }),
    ensures window_ok(b, cap), slid(pts(a), pt(t), pts(b), cap as int)
{
    let c = a.insert(i, t);
    assert(pts(c) =~= pts(a).insert(i, pt(t)));
    assert(pts(b) =~= newest(pts(a).insert(i, pt(t)), cap as int));
}
pub open spec fn aged(a: Accumulator, b: Accumulator) -> bool { exists|n: usize| #[trigger] purged(a, b, n) }
impl Accumulator {
/*@ fn src/sink/prometheus.rs Accumulator.kind
ret: r
spec:
    requires acc_ok(*self)
    ensures r == acc_kind(*self)
@*/
/*@ fn src/sink/prometheus.rs Accumulator.insert
rw `use std::u64;` => ``
rw `f64::MAX` => `max_f64()`
rw `*t += telem` => `t.add_assign(telem)`
rw `samples[idx] += telem;` => `samples[idx].add_assign(telem); proof { lemma_joined(s0, samples@, tel0, idx as int, cap); }`
rw `if samples.len() > cap { $*b }` => `if samples.len() > cap { $*b } proof { assert forall|j: int| 0 <= j < s0.len() implies (j < idx ==> (#[trigger] s0[j]).timestamp < tel0.timestamp) && (j >= idx ==> s0[j].timestamp > tel0.timestamp) by { assert(cmps(s0, tel0.timestamp)[j] == order(s0[j].timestamp as int, tel0.timestamp as int)); } lemma_placed(s0, samples@, tel0, idx as int, cap); }`
rw `samples.drain(0..$*n);` => `drop_first(samples, $*n);`
rw `$a.timestamp.cmp(&$b.timestamp)` => `cmp_i64(&$a.timestamp, &$b.timestamp)`
rw `samples.binary_search_by(|$h| $*e)` => `search_by(samples, |$h: &Telemetry| -> (o: Ordering) ensures o == order($h.timestamp as int, telem.timestamp as int) { $*e }, Ghost(cmps(samples@, telem.timestamp)))`
spec:
    requires
        acc_ok(*old(self)), full(telem), kind_of(telem.agg()) == acc_kind(*old(self)),
        // two histograms of one name have the same bins (see the known finding C02/histogram-bins)
        *old(self) matches Accumulator::Perpetual(t) ==> compatible(t.agg(), telem.agg()),
    ensures acc_ok(*final(self)), acc_kind(*final(self)) == acc_kind(*old(self)), took(*old(self), telem, *final(self))
at fn-start:
    broadcast use floats;
    let ghost tel0 = telem;
at before `match search_by(samples`:
    let ghost s0 = samples@;
@*/
/*@ fn src/sink/prometheus.rs Accumulator.purge
ret: r
spec:
    requires acc_ok(*old(self))
    ensures acc_ok(*final(self)), acc_kind(*final(self)) == acc_kind(*old(self)), purged(*old(self), *final(self), r)
at loop 1 before:
    let ghost s0 = samples@;
    let ghost mut keep = Seq::<bool>::empty();
    proof { assert(samples@.skip(0) =~= s0); assert(s0.take(0) =~= Seq::empty()); assert(samples@.take(0) =~= Seq::empty()); }
loop 1 while:
    invariant
        window_ok(s0, cap), window_ok(samples@, cap), i <= samples@.len(), purged + samples@.len() == s0.len(),
        keep.len() == i + purged, samples@.take(i as int) == kept(s0.take(i + purged), keep), samples@.skip(i as int) == s0.skip(i + purged),
        forall|j: int| 0 <= j < keep.len() ==> judged(s0[j], cap, #[trigger] keep[j]),
    decreases samples@.len() - i
at loop 1 start:
    let ghost (s1, i1, p1, k1) = (samples@, i as int, purged as int, keep);
    proof {
        assert(s0.skip(i1 + p1)[0] == s0[i1 + p1]); assert(s1.skip(i1)[0] == s1[i1]);
        assert(s0.take(i1 + p1 + 1).drop_last() =~= s0.take(i1 + p1)); assert(s0.take(i1 + p1 + 1).last() == s0[i1 + p1]);
    }
at loop 1 end:
    proof {
        let stays = i == i1 + 1;
        keep = k1.push(stays);
        assert(judged(s0[i1 + p1], cap, stays));
        assert(k1.push(stays).drop_last() =~= k1);
        assert(s0.skip(i1 + p1).skip(1) =~= s0.skip(i1 + p1 + 1));
        if stays {
            assert(s1.take(i1 + 1) =~= s1.take(i1).push(s1[i1]));
            assert(s1.skip(i1).skip(1) =~= s1.skip(i1 + 1));
        } else {
            assert(s1.remove(i1).take(i1) =~= s1.take(i1));
            assert(s1.remove(i1).skip(i1) =~= s1.skip(i1).skip(1));
        }
    }
at loop 1 after:
    proof {
        assert(samples@.take(i as int) =~= samples@); assert(s0.take(s0.len() as int) =~= s0);
    }
@*/
}
// ---- every name's accumulator
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
pub type Kept = Map<Text, Accumulator>;
pub struct OccupiedEntry<'a> { pub slot: &'a mut Accumulator }
pub struct VacantEntry<'a> { pub slot: &'a mut Option<Accumulator> }
pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
impl<'a> OccupiedEntry<'a> {
    pub fn get_mut(&mut self) -> (r: &mut Accumulator)
        ensures *r == *old(self).slot, *final(self).slot == *final(r), *final(old(self).slot) == *final(final(self).slot)
    { &mut *self.slot }
}
impl<'a> VacantEntry<'a> {
    pub fn insert(self, a: Accumulator) ensures *final(self.slot) == Some(a)
    { *self.slot = Some(a); }
}
/// all of the map's names, in any order
pub open spec fn lists(ks: Seq<Text>, m: Kept) -> bool { ks.no_duplicates() && ks.to_set() == m.dom() }
pub open spec fn listed(ks: Seq<Text>, m: Kept) -> Seq<Accumulator> { ks.map_values(|k: Text| m[k]) }
pub open spec fn stored(a: Accumulator) -> nat { match a { Accumulator::Windowed { samples, .. } => samples@.len(), _ => 0 } }
pub open spec fn stored_all(m: Kept, ks: Seq<Text>) -> nat
    decreases ks.len()
{ if ks.len() == 0 { 0 } else { stored_all(m, ks.drop_last()) + stored(m[ks.last()]) } }
impl HashMap<String, Accumulator> {
    pub uninterp spec fn map(&self) -> Kept;
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures r.map() == Map::<Text, Accumulator>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.map().dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: String) -> (r: Entry<'a>)
        ensures match r {
            Entry::Occupied(o) => old(self).map().dom().contains(k@) && *o.slot == old(self).map()[k@]
                && final(self).map() == old(self).map().insert(k@, *final(o.slot)),
            Entry::Vacant(v) => !old(self).map().dom().contains(k@) && *v.slot is None
                && final(self).map() == (match *final(v.slot) { Some(x) => old(self).map().insert(k@, x), None => old(self).map() }),
        }
    { unimplemented!() }
    // what is stored fits the memory, so that it can be counted
    #[verifier::external_body]
    pub fn values_mut(&mut self) -> (r: (Vec<&mut Accumulator>, Ghost<Seq<Text>>))
        ensures
            lists(r.1@, old(self).map()), r.0@.len() == r.1@.len(), stored_all(old(self).map(), r.1@) <= usize::MAX,
            forall|i: int| 0 <= i < r.1@.len() ==> *(#[trigger] r.0@[i]) == old(self).map()[r.1@[i]],
            final(self).map().dom() == old(self).map().dom(),
            forall|i: int| 0 <= i < r.1@.len() ==> final(self).map()[#[trigger] r.1@[i]] == *final(r.0@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: Values<'a, String, Accumulator>)
        ensures exists|ks: Seq<Text>| #[trigger] lists(ks, self.map()) && r.left() == listed(ks, self.map())
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Values<'a, K, V> { _p: std::marker::PhantomData<&'a (K, V)> }
impl<'a> Values<'a, String, Accumulator> {
    pub uninterp spec fn left(&self) -> Seq<Accumulator>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Accumulator>)
        ensures match r {
            Some(a) => old(self).left().len() > 0 && *a == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
            None => old(self).left().len() == 0 && final(self).left() == old(self).left() }
    { unimplemented!() }
}
/*@ item src/sink/prometheus.rs struct PrometheusAggr
@*/
/*@ item src/sink/prometheus.rs struct Iter
@*/
/// what the first point of a name leaves
pub open spec fn begun(t: Telemetry, cap: usize, a: Accumulator) -> bool {
    match a {
        Accumulator::Perpetual(x) => !(t.agg() is Quant) && x == t,
        Accumulator::Windowed { cap: c, sum, count, samples } => t.agg() is Quant && c == cap && sum == sum_of(t) && count == n_of(t)
            && samples@ == (if cap > 0 { seq![t] } else { Seq::empty() }),
    }
}
pub open spec fn aggr_ok(m: Kept) -> bool { forall|k: Text| m.dom().contains(k) ==> acc_ok(#[trigger] m[k]) }
/// A name's first point is kept, a later one of the same kind is worked in, and one of another kind is refused.
pub open spec fn inserted(m: Kept, t: Telemetry, cap: usize, r: bool, n: Kept) -> bool {
    let k = t.name@;
    if !m.dom().contains(k) { r && n.dom() == m.dom().insert(k) && begun(t, cap, n[k]) && n == m.insert(k, n[k]) }
    else if kind_of(t.agg()) == acc_kind(m[k]) { r && took(m[k], t, n[k]) && n == m.insert(k, n[k]) }
    else { !r && n =~= m }
}
/// the point a scrape states for an accumulator
pub open spec fn stated(a: Accumulator, t: Telemetry) -> bool {
    match a {
        Accumulator::Perpetual(x) => t == x,
        Accumulator::Windowed { cap, sum, count, samples } => {
            samples@.len() > 0 && sampled(t) && pt(t) == all_of(pts(samples@)) && t.override_sample_sum == Some(sum) && t.override_count == Some(count)
        }
    }
}
/// every sample of the window
pub open spec fn all_of(s: Seq<Pt>) -> Pt
    decreases s.len()
{ if s.len() <= 1 { s[0] } else { joined(all_of(s.drop_last()), s.last()) } }
pub open spec fn bare(a: Accumulator) -> bool { a matches Accumulator::Windowed { samples, .. } && samples@.len() == 0 }
/// `k` accumulators without a sample are passed over
pub open spec fn passed(a: Seq<Accumulator>, k: int) -> bool { 0 <= k <= a.len() && forall|i: int| 0 <= i < k ==> bare(#[trigger] a[i]) }
/// the next point that can be stated
pub open spec fn drawn(a: Seq<Accumulator>, r: Option<Telemetry>, b: Seq<Accumulator>) -> bool {
    match r {
        Some(t) => exists|k: int| #[trigger] passed(a, k) && k < a.len() && stated(a[k], t) && b == a.skip(k + 1),
        None => passed(a, a.len() as int) && b.len() == 0,
    }
}
/// slices: all but the first
#[verifier::external_body]
pub fn rest_of(v: &Vec<Telemetry>) -> (r: Vec<&Telemetry>)
    requires v@.len() > 0
    ensures r@.len() == v@.len() - 1, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[i + 1]
{ unimplemented!() }

impl<'a> Iter<'a> {
/*@ fn src/sink/prometheus.rs Iterator@Iter.next
ret: r
attr: #[verifier::exec_allows_no_decreases_clause]
rw `Some(&Accumulator::Perpetual(ref $t))` => `Some(Accumulator::Perpetual($t))`
rw `Some(&Accumulator::Windowed { ref samples, $*f })` => `Some(Accumulator::Windowed { samples, $*f })`
rw `.sample_sum(sum)` => `.sample_sum(*sum)`
rw `.count(count)` => `.count(*count)`
rw `&samples[1..]` => `rest_of(samples)`
rw `start += t.clone();` => `start.add_assign(t.clone());`
spec:
    requires forall|i: int| 0 <= i < old(self).samples.left().len() ==> acc_ok(#[trigger] old(self).samples.left()[i])
    ensures drawn(old(self).samples.left(), r, final(self).samples.left())
at fn-start:
    let ghost a0 = self.samples.left();
    let ghost mut sk = 0int;
    proof { assert(a0.skip(0) =~= a0); }
loop 1 loop:
    invariant
        forall|i: int| 0 <= i < a0.len() ==> acc_ok(#[trigger] a0[i]),
        a0 == old(self).samples.left(), passed(a0, sk), self.samples.left() == a0.skip(sk),
at loop 1 start:
    let ghost sk1 = sk;
    proof {
        assert(a0.skip(sk1).len() > 0 ==> a0.skip(sk1)[0] == a0[sk1]);
        assert(a0.skip(sk1).len() > 0 ==> a0.skip(sk1).skip(1) =~= a0.skip(sk1 + 1));
        if sk1 < a0.len() && bare(a0[sk1]) { sk = sk1 + 1; }
    }
loop 2 for iter it:
    invariant
        it.seq().len() == samples@.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == samples@[i + 1],
        sampled(start), pt(start) == all_of(pts(samples@).take(it.index() + 1)),
        forall|i: int| 0 <= i < samples@.len() ==> sampled(#[trigger] samples@[i]),
at loop 2 start:
    proof {
        let n = it.index() as int;
        assert(*t == samples@[n + 1]);
        assert(pts(samples@).take(n + 2).drop_last() =~= pts(samples@).take(n + 1));
        assert(pts(samples@).take(n + 2).last() == pt(samples@[n + 1]));
    }
at loop 2 after:
    proof { assert(pts(samples@).take(samples@.len() as int) =~= pts(samples@)); }
@*/
}
impl PrometheusAggr {
/*@ fn src/sink/prometheus.rs PrometheusAggr.new
ret: r
rw `Default::default()` => `HashMap::empty()`
spec:
    ensures r.data.map() == Map::<Text, Accumulator>::empty(), r.capacity_in_seconds == capacity_in_seconds, aggr_ok(r.data.map())
@*/
/*@ fn src/sink/prometheus.rs PrometheusAggr.count
ret: r
spec:
    ensures r == self.data.map().dom().len()
@*/
/*@ fn src/sink/prometheus.rs PrometheusAggr.reportable
ret: r
spec:
    ensures exists|ks: Seq<Text>| #[trigger] lists(ks, self.data.map()) && r.samples.left() == listed(ks, self.data.map())
@*/
/*@ fn src/sink/prometheus.rs PrometheusAggr.insert
ret: r
rw `prev.kind() == telem.kind()` => `prev.kind().same(&telem.kind())`
rw `Entry<String, Accumulator>` => `Entry`
rw `telem.name.clone()` => `name_of(&telem)`
spec:
    requires
        aggr_ok(old(self).data.map()), full(telem),
        old(self).data.map().dom().contains(telem.name@) ==> (old(self).data.map()[telem.name@] matches Accumulator::Perpetual(t) ==> compatible(t.agg(), telem.agg())),
    ensures
        aggr_ok(final(self).data.map()), final(self).capacity_in_seconds == old(self).capacity_in_seconds,
        inserted(old(self).data.map(), telem, old(self).capacity_in_seconds, r, final(self).data.map()),
@*/
/*@ fn src/sink/prometheus.rs PrometheusAggr.purge
ret: r
rw `total_purged += aggr.purge();` => `let ghost i_ = it.index() as int; assert(*aggr == *g0[i_]); let n_ = aggr.purge(); assert(purged(*g0[i_], *aggr, n_)); assert(acc_ok(*aggr)); total_purged += n_; assert(*final(g0[i_]) == *aggr); assert(aged(*g0[i_], *final(g0[i_])));`
rw `for aggr in self.data.values_mut() {` => `let (given, ks) = self.data.values_mut(); let ghost (ks, g0) = (ks@, given@); for aggr in given {`
spec:
    requires aggr_ok(old(self).data.map())
    ensures
        aggr_ok(final(self).data.map()), final(self).capacity_in_seconds == old(self).capacity_in_seconds,
        final(self).data.map().dom() == old(self).data.map().dom(),
        forall|k: Text| old(self).data.map().dom().contains(k) ==> aged(old(self).data.map()[k], #[trigger] final(self).data.map()[k]),
loop 1 for iter it:
    invariant
        it.seq() == g0, g0.len() == ks.len(), lists(ks, m0), aggr_ok(m0), stored_all(m0, ks) <= usize::MAX,
        forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] g0[i]) == m0[ks[i]],
        forall|i: int| 0 <= i < it.index() ==> acc_ok(*final(#[trigger] g0[i])) && aged(*g0[i], *final(g0[i])),
        total_purged <= stored_all(m0, ks.take(it.index() as int)),
at fn-start:
    let ghost m0 = self.data.map();
at loop 1 start:
    proof {
        assert(ks.to_set().contains(ks[it.index() as int]));
        assert(ks.take(it.index() + 1).drop_last() =~= ks.take(it.index() as int));
        lemma_stored(m0, ks, it.index() + 1);
    }
@*/
}
pub proof fn lemma_stored(m: Kept, ks: Seq<Text>, n: int)
    requires 0 <= n <= ks.len()
    ensures stored_all(m, ks.take(n)) <= stored_all(m, ks)
    decreases ks.len()
{
    if n < ks.len() { lemma_stored(m, ks.drop_last(), n); assert(ks.drop_last().take(n) =~= ks.take(n)); } else { assert(ks.take(n) =~= ks); }
}
#[verifier::external_body]
pub fn name_of(t: &Telemetry) -> (r: String) ensures r@ == t.name@ { unimplemented!() }

// ================================================================ the scrape
/*@ rewrites
rw `@bytes` => `@text`
rw `.as_bytes()` => `.whole()`
rw `$x.to_string()` => `$x.shown()`
rw `$A.fetch_add($*a);` => ``
rw `$A.store($*a);` => ``
@*/
pub mod io {
    #[derive(Debug)]
    pub struct Error {}
    pub type Result<T> = core::result::Result<T, Error>;
}
/// a text as a whole
pub trait Whole {
    spec fn tw(&self) -> Text;
    fn whole(&self) -> (r: String) ensures r@ == self.tw();
}
impl Whole for str {
    open spec fn tw(&self) -> Text { self@ }
    #[verifier::external_body]
    fn whole(&self) -> (r: String) { unimplemented!() }
}
impl Whole for String {
    open spec fn tw(&self) -> Text { self@ }
    #[verifier::external_body]
    fn whole(&self) -> (r: String) { unimplemented!() }
}
impl<'a> Whole for &'a str {
    open spec fn tw(&self) -> Text { (*self)@ }
    #[verifier::external_body]
    fn whole(&self) -> (r: String) { unimplemented!() }
}
/// what can be written to
pub trait Write: Sized {
    spec fn got(&self) -> Text;
    /// whether writing to it can fail
    spec fn sure() -> bool;
    fn write_all<S: Textual>(&mut self, t: S) -> (r: io::Result<()>)
        ensures r is Ok ==> final(self).got() == old(self).got() + t.tx(), Self::sure() ==> r is Ok;
    fn flush(&mut self) -> (r: io::Result<()>)
        ensures r is Ok ==> final(self).got() == old(self).got(), Self::sure() ==> r is Ok;
}
pub type Pairs = Seq<(Text, Text)>;
pub open spec fn pairs(v: Seq<(String, String)>) -> Pairs { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub type TagIter = Vec<(String, String)>;
#[verifier::external_body]
pub fn pop_first(v: &mut TagIter) -> (r: Option<(String, String)>)
    ensures match r {
        Some(p) => old(v)@.len() > 0 && p == old(v)@[0] && final(v)@ == old(v)@.skip(1),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ unimplemented!() }
/// the point's tags, with others laid over them (C03 proves which)
pub uninterp spec fn tel_tags(t: Telemetry, over: TagMap) -> Pairs;
pub open spec fn hist_sum(t: Telemetry) -> f64 { match t.agg() { Agg::Hist { sum, .. } => match sum { Some(s) => s, None => 0.0f64 }, _ => sum_of(t) } }
impl Telemetry {
    #[verifier::external_body]
    pub fn tags(&self, over: &TagMap) -> (r: TagIter) ensures pairs(r@) == tel_tags(*self, *over) { unimplemented!() }
}
// ---- names
pub uninterp spec fn utf8(t: Text) -> Seq<u8>;
/// simple characters are a byte each
pub axiom fn ax_simple(t: Text)
    requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128
    ensures utf8(t) == t.map_values(|c: char| c as u8);
#[verifier::external_body]
pub fn bytes_of(s: &String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[derive(Debug)]
pub struct BadText {}
/// String::from_utf8, of simple characters
#[verifier::external_body]
pub fn text_from(v: Vec<u8>) -> (r: Result<String, BadText>)
    ensures (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) < 128) ==> r is Ok && r->Ok_0@ == v@.map_values(|b: u8| b as char)
{ unimplemented!() }
/// the bytes a metric's name may have
pub open spec fn fit(b: u8) -> bool {
    (97 <= b <= 122) || (65 <= b <= 90) || (48 <= b <= 57) || b == 58 || b == 95
}
pub open spec fn fitted(b: u8) -> u8 { if fit(b) { b } else { 95 } }
pub open spec fn sanitized(t: Text) -> Text { utf8(t).map_values(|b: u8| fitted(b) as char) }
/// every character of a name is one prometheus accepts
pub proof fn lemma_accepted(t: Text)
    ensures forall|i: int| 0 <= i < sanitized(t).len() ==> fit(#[trigger] sanitized(t)[i] as u8) && (sanitized(t)[i] as u32) < 128
{
    assert forall|i: int| 0 <= i < sanitized(t).len() implies fit(#[trigger] sanitized(t)[i] as u8) && (sanitized(t)[i] as u32) < 128 by {
        let b = fitted(utf8(t)[i]);
        assert(b < 128 && (b as char) as u8 == b && ((b as char) as u32) < 128);
    }
}
/// a name that is accepted already stays as it is
pub proof fn lemma_unchanged(t: Text)
    requires forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128 && fit(t[i] as u8)
    ensures sanitized(t) == t
{
    ax_simple(t);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u8) as char == t[i] by { let c = t[i]; assert((c as u32) < 128); }
    assert(sanitized(t) =~= t);
}
/*@ fn src/sink/prometheus.rs sanitize
ret: r
rw `name.whole()` => `bytes_of(&name)`
rw `*c` => `c`
rw `String::from_utf8` => `text_from`
spec:
    ensures r@ == sanitized(name@)
loop 1 for iter it:
    invariant
        it.seq() == utf8(name@), new_name@.len() == it.index(),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] new_name@[i] == fitted(it.seq()[i]),
at loop 1 after:
    proof { assert(new_name@.map_values(|b: u8| b as char) =~= sanitized(name@)); }
@*/

// ---- labels
pub open spec fn esc(c: char) -> Text {
    if c == '\\' { "\\\\"@ } else if c == '"' { "\\\""@ } else if c == '\n' { "\\n"@ } else { seq![c] }
}
pub open spec fn escaped_text(t: Text) -> Text
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { escaped_text(t.drop_last()) + esc(t.last()) } }
#[verifier::external_body]
pub fn chars_of<V: Whole>(v: &V) -> (r: Vec<char>) ensures r@ == v.tw() { unimplemented!() }
/*@ fn src/sink/prometheus.rs escape
ret: r
sig:
    fn escape<V: Whole>(value: &V) -> (r: String)
rw `value.chars()` => `chars_of(value)`
rw `escaped.push($*c)` => `escaped.put_char($*c)`
spec:
    ensures r@ == escaped_text(value.tw())
at fn-start:
    broadcast use cats;
loop 1 for iter it:
    invariant it.seq() == value.tw(), escaped@ == escaped_text(it.seq().take(it.index() as int)),
at loop 1 start:
    broadcast use cats;
    proof { assert(it.seq().take(it.index() + 1).drop_last() =~= it.seq().take(it.index() as int)); }
at loop 1 after:
    proof { assert(value.tw().take(value.tw().len() as int) =~= value.tw()); }
@*/
#[verifier::opaque]
pub open spec fn kv(k: Text, v: Text) -> Text { k + ("=\""@ + (escaped_text(v) + "\""@)) }
/// further labels
pub open spec fn more(p: Pairs) -> Text
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { more(p.drop_last()) + (", "@ + kv(p.last().0, p.last().1)) } }
#[verifier::opaque]
pub open spec fn tags_text(p: Pairs) -> Text {
    if p.len() == 0 { Seq::empty() } else { "{"@ + (kv(p[0].0, p[0].1) + (more(p.skip(1)) + "}"@)) }
}
#[verifier::opaque]
pub open spec fn metric_text(name: Text, p: Pairs, v: f64) -> Text { name + (tags_text(p) + (" "@ + (text_f64(v) + "\n"@))) }
#[verifier::opaque]
pub open spec fn type_text(name: Text, t: Text) -> Text { "# TYPE "@ + (name + (" "@ + (t + "\n"@))) }
/*@ fn src/sink/prometheus.rs write_kv
ret: r
sig:
    fn write_kv<K: Whole, V: Whole, W: Write>(k: K, v: V, s: &mut W) -> (r: io::Result<()>)
rw `escape(v)` => `escape(&v)`
spec:
    ensures r is Ok ==> final(s).got() == old(s).got() + kv(k.tw(), v.tw()), W::sure() ==> r is Ok
at fn-start:
    proof { reveal(kv); }
    broadcast use cats;
@*/
/*@ fn src/sink/prometheus.rs write_tags
ret: r
rw `iter.next()` => `pop_first(&mut iter)`
spec:
    ensures r is Ok ==> final(w).got() == old(w).got() + tags_text(pairs(iter@)), W::sure() ==> r is Ok
at fn-start:
    proof { reveal(tags_text); }
    broadcast use cats;
    let ghost p0 = pairs(iter@);
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
loop 1 for iter it:
    invariant
        p0.len() > 0, pairs(it.seq()) == p0.skip(1),
        w.got() == old(w).got() + ("{"@ + (kv(p0[0].0, p0[0].1) + more(p0.skip(1).take(it.index() as int)))),
at loop 1 before:
    proof { assert(pairs(iter@) =~= p0.skip(1)); assert(p0.skip(1).take(0) =~= Seq::empty()); }
at loop 1 start:
    broadcast use cats;
    proof { assert(p0.skip(1).take(it.index() + 1).drop_last() =~= p0.skip(1).take(it.index() as int)); assert(p0.skip(1)[it.index() as int] == pairs(it.seq())[it.index() as int]); }
at loop 1 after:
    proof { assert(p0.skip(1).take(p0.len() - 1) =~= p0.skip(1)); }
@*/
/*@ fn src/sink/prometheus.rs write_metric
ret: r
spec:
    ensures r is Ok ==> final(w).got() == old(w).got() + metric_text(name@, pairs(tags@), v), W::sure() ==> r is Ok
at fn-start:
    proof { reveal(metric_text); }
    broadcast use cats;
@*/
/*@ fn src/sink/prometheus.rs write_type
ret: r
spec:
    ensures r is Ok ==> final(w).got() == old(w).got() + type_text(name@, tname@), W::sure() ==> r is Ok
at fn-start:
    proof { reveal(type_text); }
    broadcast use cats;
@*/

// ---- everything
#[verifier::opaque]
pub open spec fn labelled(name: Text, l: Text, v: Text, p: Pairs, num: Text) -> Text {
    name + ("{"@ + (kv(l, v) + (more(p) + ("} "@ + (num + "\n"@)))))
}
pub open spec fn upto(b: Bound) -> Text { match b { Bound::Finite(x) => text_f64(x), Bound::PosInf => "+Inf"@ } }
/// each bin with the number of samples up to its bound
pub open spec fn bins_text(name: Text, p: Pairs, b: Seq<(Bound, usize)>) -> Text
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { bins_text(name, p, b.drop_last()) + labelled(name, "le"@, upto(b.last().0), p, text_int(tally(b))) } }
pub open spec fn quantiles_text(name: Text, t: Telemetry, p: Pairs, q: Seq<f64>) -> Text
    decreases q.len()
{ if q.len() == 0 { Seq::empty() } else { quantiles_text(name, t, p, q.drop_last()) + labelled(name, "quantile"@, text_f64(q.last()), p, text_f64(queried(t, q.last()))) } }
pub open spec fn quantiles() -> Seq<f64> { seq![0.0f64, 1.0f64, 0.25f64, 0.5f64, 0.75f64, 0.90f64, 0.95f64, 0.99f64, 0.999f64] }
pub open spec fn totals_text(name: Text, t: Telemetry, p: Pairs) -> Text {
    metric_text(name + "_sum"@, p, hist_sum(t)) + metric_text(name + "_count"@, p, fof(n_of(t) as int))
}
pub open spec fn kind_text(k: AggregationMethod) -> Text {
    match k { AggregationMethod::Sum => "counter"@, AggregationMethod::Set => "gauge"@, AggregationMethod::Histogram => "histogram"@, AggregationMethod::Summarize => "summary"@ }
}
pub open spec fn value_text(t: Telemetry, over: TagMap) -> Text {
    let name = sanitized(t.name@);
    let p = tel_tags(t, over);
    match t.agg() {
        Agg::Sum(x) => metric_text(name, p, x),
        Agg::Set(x) => metric_text(name, p, x),
        Agg::Hist { .. } => bins_text(name, p, hist_bins(t.value->0->Histogram_0)) + totals_text(name, t, p),
        Agg::Quant { .. } => quantiles_text(name, t, p, quantiles()) + totals_text(name, t, p),
    }
}
/// the names stated so far
pub open spec fn named(ts: Seq<Telemetry>) -> Set<Text>
    decreases ts.len()
{ if ts.len() == 0 { Set::empty() } else { named(ts.drop_last()).insert(sanitized(ts.last().name@)) } }
pub open spec fn one_text(t: Telemetry, over: TagMap, seen: Set<Text>) -> Text {
    (if seen.contains(sanitized(t.name@)) { Seq::empty() } else { type_text(sanitized(t.name@), kind_text(kind_of(t.agg()))) }) + value_text(t, over)
}
/// each point once, the kind of a name before its first
pub open spec fn scraped(ts: Seq<Telemetry>, over: TagMap) -> Text
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { scraped(ts.drop_last(), over) + one_text(ts.last(), over, named(ts.drop_last())) } }
/// the points that state accumulators, each once and in their order
pub open spec fn states(a: Seq<Accumulator>, ts: Seq<Telemetry>) -> bool
    decreases a.len()
{
    if a.len() == 0 { ts.len() == 0 } else if bare(a[0]) { states(a.skip(1), ts) }
    else { ts.len() > 0 && stated(a[0], ts[0]) && states(a.skip(1), ts.skip(1)) }
}
/// these accumulators and more have been stated
pub open spec fn so_far(a: Seq<Accumulator>, ts: Seq<Telemetry>, left: Seq<Accumulator>) -> bool {
    exists|k: int| 0 <= k <= a.len() && left == a.skip(k) && #[trigger] states(a.take(k), ts)
}
pub proof fn lemma_states_push(a: Seq<Accumulator>, ts: Seq<Telemetry>, k: int, j: int, t: Telemetry)
    requires 0 <= k <= j < a.len(), states(a.take(k), ts), forall|i: int| k <= i < j ==> bare(#[trigger] a[i]), stated(a[j], t), !bare(a[j])
    ensures states(a.take(j + 1), ts.push(t))
    decreases a.len()
{
    if k > 0 {
        let b = a.skip(1);
        assert(a.take(k).skip(1) =~= b.take(k - 1)); assert(a.take(j + 1).skip(1) =~= b.take(j));
        assert(forall|i: int| k - 1 <= i < j - 1 ==> b[i] == a[i + 1]);
        assert(a.take(k)[0] == a[0]); assert(a.take(j + 1)[0] == a[0]);
        if bare(a[0]) { lemma_states_push(b, ts, k - 1, j - 1, t); }
        else { lemma_states_push(b, ts.skip(1), k - 1, j - 1, t); assert(ts.push(t).skip(1) =~= ts.skip(1).push(t)); assert(ts.push(t)[0] == ts[0]); }
    } else if j > 0 {
        let b = a.skip(1);
        assert(a.take(j + 1).skip(1) =~= b.take(j)); assert(a.take(j + 1)[0] == a[0]); assert(b.take(0) =~= a.take(0));
        assert(forall|i: int| 0 <= i < j - 1 ==> b[i] == a[i + 1]);
        lemma_states_push(b, ts, 0, j - 1, t);
    } else {
        assert(ts =~= Seq::empty());
        assert(a.take(1).skip(1) =~= Seq::empty()); assert(ts.push(t).skip(1) =~= Seq::empty()); assert(a.take(1)[0] == a[0]);
        assert(states(Seq::<Accumulator>::empty(), Seq::<Telemetry>::empty()));
    }
}
pub proof fn lemma_states_end(a: Seq<Accumulator>, ts: Seq<Telemetry>, k: int)
    requires 0 <= k <= a.len(), states(a.take(k), ts), forall|i: int| k <= i < a.len() ==> bare(#[trigger] a[i])
    ensures states(a, ts)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.skip(1);
        if k > 0 {
            assert(a.take(k).skip(1) =~= b.take(k - 1)); assert(a.take(k)[0] == a[0]);
            assert(forall|i: int| k - 1 <= i < b.len() ==> b[i] == a[i + 1]);
            lemma_states_end(b, if bare(a[0]) { ts } else { ts.skip(1) }, k - 1);
        } else {
            assert(b.take(0) =~= a.take(0)); assert(forall|i: int| 0 <= i < b.len() ==> b[i] == a[i + 1]);
            lemma_states_end(b, ts, 0);
        }
    }
}
pub proof fn lemma_drawn(a: Seq<Accumulator>, ts: Seq<Telemetry>, left: Seq<Accumulator>, r: Option<Telemetry>, b: Seq<Accumulator>)
    requires so_far(a, ts, left), drawn(left, r, b), forall|i: int| 0 <= i < a.len() ==> acc_ok(#[trigger] a[i])
    ensures match r { Some(t) => so_far(a, ts.push(t), b) && full(t), None => states(a, ts) }
{
    let k = choose|k: int| 0 <= k <= a.len() && left == a.skip(k) && #[trigger] states(a.take(k), ts);
    match r {
        Some(t) => {
            let j = choose|j: int| #[trigger] passed(left, j) && j < left.len() && stated(left[j], t) && b == left.skip(j + 1);
            assert forall|i: int| k <= i < k + j implies bare(#[trigger] a[i]) by { assert(left[i - k] == a[i]); }
            assert(left[j] == a[k + j]); assert(acc_ok(a[k + j]));
            lemma_states_push(a, ts, k, k + j, t);
            assert(left.skip(j + 1) =~= a.skip(k + j + 1));
        }
        None => {
            assert forall|i: int| k <= i < a.len() implies bare(#[trigger] a[i]) by { assert(left[i - k] == a[i]); }
            lemma_states_end(a, ts, k);
        }
    }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _p: std::marker::PhantomData<T> }
impl HashSet<String> {
    pub uninterp spec fn set(&self) -> Set<Text>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.set() == Set::<Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures r == !old(self).set().contains(k@), final(self).set() == old(self).set().insert(k@) { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_of(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// String + &str
#[verifier::external_body]
pub fn cat(a: &String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn text_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/*@ fn src/sink/prometheus.rs write_text
ret: r
attr: #[verifier::exec_allows_no_decreases_clause]
rw `for value in aggrs {` => `let mut aggrs = aggrs; loop { let ghost l1 = aggrs.samples.left(); let next_ = aggrs.next(); proof { lemma_drawn(a0, ts, l1, next_, aggrs.samples.left()); } let value = match next_ { Some(v_) => v_, None => break };`
rw `sanitized_name.clone() + $s` => `cat(&sanitized_name, $s)`
rw `$a.clone()` => `copy_of(&$a)`
rw `for &($a, $b) in $c {` => `for ($a, $b) in $c {`
rw `for q in &[$*a] {` => `for q in vec![$*a] {`
rw `q.shown().as_str()` => `q.shown()`
rw `*q` => `q`
rw `le.as_str()` => `le`
rw `$a.count() as f64` => `f64_of($a.count())`
spec:
    requires forall|i: int| 0 <= i < aggrs.samples.left().len() ==> acc_ok(#[trigger] aggrs.samples.left()[i])
    ensures
        W::sure() ==> r is Ok,
        r is Ok ==> exists|ts: Seq<Telemetry>| #[trigger] states(aggrs.samples.left(), ts) && r->Ok_0.got() == w.got() + scraped(ts, *default),
at fn-start:
    broadcast use {cats, ax_query};
    let ghost a0 = aggrs.samples.left();
    let ghost w0 = w.got();
    let ghost mut ts = Seq::<Telemetry>::empty();
    proof { assert(a0.skip(0) =~= a0); assert(states(a0.take(0), ts)); }
loop 1 loop:
    invariant_except_break
        so_far(a0, ts, aggrs.samples.left()),
    invariant
        forall|i: int| 0 <= i < a0.len() ==> acc_ok(#[trigger] a0[i]),
        forall|i: int| 0 <= i < aggrs.samples.left().len() ==> acc_ok(#[trigger] aggrs.samples.left()[i]),
        seen.set() == named(ts), w.got() == w0 + scraped(ts, *default),
    ensures states(a0, ts), w.got() == w0 + scraped(ts, *default)
at loop 1 start:
    broadcast use {cats, ax_query};
at before `match value.kind()`:
    let ghost w1 = w.got();
    let ghost nm = sanitized(value.name@);
    let ghost p = tel_tags(value, *default);
    let ghost seen1 = seen.set();
    let ghost ty: Text = if seen1.contains(nm) { Seq::empty() } else { type_text(nm, kind_text(kind_of(value.agg()))) };
at loop 1 end:
    proof {
        assert(w.got() == w1 + (ty + value_text(value, *default)));
        assert(ts.push(value).drop_last() =~= ts);
        ts = ts.push(value);
        assert(seen.set() == named(ts));
    }
loop 2 for iter it:
    invariant
        it.seq() == hb, tally(hb) <= usize::MAX, sanitized_name@ == nm, p == tel_tags(value, *default),
        running_sum == tally(hb.take(it.index() as int)),
        w.got() == w1 + (ty + bins_text(nm, p, hb.take(it.index() as int))),
at loop 2 before:
    let ghost hb = bin_iter@;
    proof { assert(hb.take(0) =~= Seq::empty()); }
at loop 2 start:
    broadcast use cats;
    let ghost i2 = it.index() as int;
    let ghost w2 = w.got();
    proof {
        assert(hb.take(i2 + 1).drop_last() =~= hb.take(i2)); assert(hb.take(i2 + 1).last() == hb[i2]);
        lemma_tally(hb, i2 + 1);
        assert(tally(hb.take(i2 + 1)) == tally(hb.take(i2)) + val);
    }
at loop 2 end:
    proof { reveal(labelled); assert(w.got() == w2 + labelled(nm, "le"@, upto(hb[i2].0), p, text_int(tally(hb.take(i2 + 1))))); }
at loop 2 after:
    proof { assert(hb.take(hb.len() as int) =~= hb); }
loop 3 for iter it:
    invariant
        pairs(it.seq()) == p,
        w.got() == w2 + (nm + ("{"@ + (kv("le"@, le@) + more(p.take(it.index() as int))))),
at loop 3 before:
    proof { assert(p.take(0) =~= Seq::empty()); }
at loop 3 start:
    broadcast use cats;
    let ghost i3 = it.index() as int;
    proof { assert(p.take(i3 + 1).drop_last() =~= p.take(i3)); assert(p[i3] == pairs(it.seq())[i3]); }
at loop 3 after:
    proof { assert(p.take(p.len() as int) =~= p); }
loop 4 for iter it:
    invariant
        it.seq() == quantiles(), sanitized_name@ == nm, p == tel_tags(value, *default), full(value), value.agg() is Quant,
        w.got() == w1 + (ty + quantiles_text(nm, value, p, quantiles().take(it.index() as int))),
at loop 4 before:
    proof { assert(quantiles().take(0) =~= Seq::empty()); }
at loop 4 start:
    broadcast use {cats, ax_query};
    let ghost i4 = it.index() as int;
    let ghost w4 = w.got();
    proof { assert(quantiles().take(i4 + 1).drop_last() =~= quantiles().take(i4)); assert(quantiles().take(i4 + 1).last() == quantiles()[i4]); }
at loop 4 end:
    proof { reveal(labelled); assert(w.got() == w4 + labelled(nm, "quantile"@, text_f64(quantiles()[i4]), p, text_f64(queried(value, quantiles()[i4])))); }
at loop 4 after:
    proof { assert(quantiles().take(quantiles().len() as int) =~= quantiles()); }
loop 5 for iter it:
    invariant
        pairs(it.seq()) == p,
        w.got() == w4 + (nm + ("{"@ + (kv("quantile"@, text_f64(q)) + more(p.take(it.index() as int))))),
at loop 5 before:
    proof { assert(p.take(0) =~= Seq::empty()); }
at loop 5 start:
    broadcast use cats;
    let ghost i5 = it.index() as int;
    proof { assert(p.take(i5 + 1).drop_last() =~= p.take(i5)); assert(p[i5] == pairs(it.seq())[i5]); }
at loop 5 after:
    proof { assert(p.take(p.len() as int) =~= p); }
@*/

// ================================================================ the sink
/*@ rewrites
rw `sync::Arc<sync::Mutex<PrometheusAggr>>` => `Shared`
rw `sync::Arc<Mutex<PrometheusAggr>>` => `Shared`
rw `self.aggrs.lock().unwrap()` => `self.aggrs.held()`
rw `warn!($*a);` => ``
@*/
/// What the sink and its scrape handler share under a lock; each states what it does to it while it holds the lock.
pub struct Shared { pub inner: PrometheusAggr }
#[derive(Debug)]
pub struct Busy {}
impl Shared {
    /// whether the lock can be taken just now
    pub uninterp spec fn free(&self) -> bool;
    #[verifier::external_body]
    pub fn of(a: PrometheusAggr) -> (r: Shared) ensures r.inner == a { unimplemented!() }
    /// the same, shared
    #[verifier::external_body]
    pub fn share(&self) -> (r: Shared) ensures r.inner == self.inner { unimplemented!() }
    #[verifier::external_body]
    pub fn held(&mut self) -> (r: &mut PrometheusAggr)
        ensures *r == old(self).inner, final(self).inner == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self) -> (r: Result<&PrometheusAggr, Busy>)
        ensures r is Ok == self.free(), r is Ok ==> *r->Ok_0 == self.inner
    { unimplemented!() }
}
/// compressed
pub uninterp spec fn gz(t: Text) -> Text;
#[verifier::external_body]
pub struct Page { _p: () }
impl Write for Page {
    uninterp spec fn got(&self) -> Text;
    open spec fn sure() -> bool { true }
    #[verifier::external_body]
    fn write_all<S: Textual>(&mut self, t: S) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
impl Page {
    #[verifier::external_body]
    pub fn blank() -> (r: Page) ensures r.got() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.got().len() == 0) { unimplemented!() }
    pub uninterp spec fn size(&self) -> usize;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
}
pub struct Compression {}
impl Compression { pub fn fast() -> Compression { Compression {} } }
#[verifier::external_body]
pub struct GzEncoder { _p: () }
impl Write for GzEncoder {
    uninterp spec fn got(&self) -> Text;
    open spec fn sure() -> bool { true }
    #[verifier::external_body]
    fn write_all<S: Textual>(&mut self, t: S) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
impl GzEncoder {
    #[verifier::external_body]
    pub fn new(p: Page, c: Compression) -> (r: GzEncoder)
        requires p.got().len() == 0
        ensures r.got() == Seq::<char>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: io::Result<Page>) ensures r is Ok, r->Ok_0.got() == gz(self.got()), gz(self.got()).len() > 0 { unimplemented!() }
}
pub struct StatusCode { pub code: u16 }
impl StatusCode { pub fn from(code: u16) -> (r: StatusCode) ensures r.code == code { StatusCode { code } } }
#[verifier::external_body]
pub struct Header { _p: () }
impl Header {
    pub uninterp spec fn pair(&self) -> (Text, Text);
    #[verifier::external_body]
    pub fn from_bytes(k: &str, v: &str) -> (r: Result<Header, BadText>) ensures r is Ok, r->Ok_0.pair() == (k@, v@) { unimplemented!() }
}
pub struct Response<'a> { pub status: StatusCode, pub headers: Vec<Header>, pub body: &'a Page, pub size: Option<usize> }
impl<'a> Response<'a> {
    pub fn new(status: StatusCode, headers: Vec<Header>, body: &'a Page, size: Option<usize>, trailers: Option<Header>) -> (r: Self)
        ensures r == (Response { status, headers, body, size })
    { Response { status, headers, body, size } }
}
pub struct Reply { pub status: u16, pub headers: Pairs, pub body: Text, pub size: usize, pub whole: bool }
/// what was replied
pub struct Sent { pub log: Ghost<Seq<Reply>> }
pub struct Request {}
pub open spec fn reply_of(r: Response) -> Reply {
    Reply { status: r.status.code, headers: r.headers@.map_values(|h: Header| h.pair()), body: r.body.got(), size: r.body.size(), whole: r.size == Some(r.body.size()) }
}
impl Request {
    #[verifier::external_body]
    pub fn respond(self, r: Response, sent: &mut Sent) -> (x: io::Result<()>) ensures final(sent).log@ == old(sent).log@.push(reply_of(r)) { unimplemented!() }
}
/*@ item src/sink/prometheus.rs struct PrometheusHandler
@*/
pub open spec fn stating(a: Seq<Accumulator>, over: TagMap, t: Text) -> bool { exists|ts: Seq<Telemetry>| #[trigger] states(a, ts) && t == scraped(ts, over) }
/// the page that states all that is kept
pub open spec fn page(a: PrometheusAggr, over: TagMap, t: Text) -> bool {
    exists|ks: Seq<Text>| #[trigger] lists(ks, a.data.map()) && stating(listed(ks, a.data.map()), over, t)
}
/// the reply to a scrape
pub open spec fn replied(h: PrometheusHandler, r: Reply) -> bool {
    let kind = ("Content-Type"@, "text/plain; version=0.0.4"@);
    &&& r.status == 200 && r.whole
    &&& exists|t: Text| #[trigger] page(h.aggr.inner, h.tags, t) && r.body == (if h.gzip { gz(t) } else { t })
    &&& r.headers == (if h.gzip { seq![kind, ("Content-Encoding"@, "gzip"@)] } else { seq![kind] })
}
impl PrometheusHandler {
/*@ fn src/sink/prometheus.rs Handler@PrometheusHandler.handle
sig:
    pub fn handle(&self, request: Request, sent: &mut Sent)
rw `blank()` => `Page::blank()`
rw `if let Ok(ref aggr) = $*e {` => `if let Ok(aggr) = $*e {`
rw `let now = Instant::now();` => ``
rw `let elapsed = $*e;` => ``
rw `let us = $*e;` => ``
rw `Vec::with_capacity(2048)` => `Page::blank()`
rw `&buffer[..]` => `&buffer`
rw `&$t[..]` => `$t`
rw `$t.to_vec()` => `$t`
rw `write_text(reportable, &self.tags, $x).unwrap()` => `{ let ghost left_ = reportable.samples.left(); assert($x.got() =~= Seq::<char>::empty()); let o_ = write_text(reportable, &self.tags, $x).unwrap(); assert(stating(left_, self.tags, o_.got())); assert(page(self.aggr.inner, self.tags, o_.got())); o_ }`
rw `if !buffer.is_empty() {` => `proof { if buffer.got().len() == 0 { assert(buffer.got() =~= Seq::<char>::empty()); } } if !buffer.is_empty() {`
rw `request.respond(response)` => `{ proof { assert(response.headers@.map_values(|h: Header| h.pair()) =~= (if self.gzip { seq![("Content-Type"@, "text/plain; version=0.0.4"@), ("Content-Encoding"@, "gzip"@)] } else { seq![("Content-Type"@, "text/plain; version=0.0.4"@)] })); assert(replied(*self, reply_of(response))); } request.respond(response, sent) }`
spec:
    requires aggr_ok(self.aggr.inner.data.map())
    ensures
        // a busy aggregation, or one with nothing to state, replies nothing
        final(sent).log@ == old(sent).log@ || exists|r: Reply| final(sent).log@ == old(sent).log@.push(r) && #[trigger] replied(*self, r),
        self.aggr.free() ==> final(sent).log@.len() == old(sent).log@.len() + 1 || !self.gzip && page(self.aggr.inner, self.tags, Seq::empty()),
at fn-start:
    proof { assert forall|t: Text| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
@*/
}
#[verifier::external_body]
pub struct Server { _p: () }
impl Server {
    pub uninterp spec fn handler(&self) -> PrometheusHandler;
    #[verifier::external_body]
    pub fn new(at: String, h: PrometheusHandler) -> (r: Server) ensures r.handler() == h { unimplemented!() }
    /// its own contract is in C17b: when it returns, the server's thread has ended
    #[verifier::external_body]
    pub fn shutdown(self, ended: &mut Ended) ensures final(ended).servers() == old(ended).servers().push(self.handler()) { unimplemented!() }
}
/// the servers that were told to end and did
#[verifier::external_body]
pub struct Ended { _p: () }
impl Ended { pub uninterp spec fn servers(&self) -> Seq<PrometheusHandler>; }
/*@ item src/sink/prometheus.rs struct Prometheus
@*/
/*@ item src/sink/prometheus.rs struct PrometheusConfig
@*/
impl TagMap {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: TagMap) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn host_port_of(c: &PrometheusConfig) -> String { unimplemented!() }
pub open spec fn fresh(now: int, t: Telemetry, limit: u64) -> bool { dist(t.timestamp as int, now) <= limit }
pub open spec fn near(limit: u64, t: Telemetry, is: bool) -> bool { exists|now: i64| #[trigger] clock_reads(now) && is == fresh(now as int, t, limit) }
pub open spec fn turned_away(a: Prometheus, t: Telemetry, b: Prometheus) -> bool { a.age_threshold is Some && near(a.age_threshold->0, t, false) && b.aggrs.inner == a.aggrs.inner }
pub open spec fn taken_in(a: Prometheus, t: Telemetry, b: Prometheus) -> bool {
    &&& a.age_threshold is Some ==> near(a.age_threshold->0, t, true)
    &&& b.aggrs.inner.capacity_in_seconds == a.aggrs.inner.capacity_in_seconds
    &&& exists|r: bool| #[trigger] inserted(a.aggrs.inner.data.map(), t, a.aggrs.inner.capacity_in_seconds, r, b.aggrs.inner.data.map())
}
impl Prometheus {
/*@ fn src/sink/prometheus.rs Sink@Prometheus.init
ret: r
rw `sync::Arc::new(sync::Mutex::new(aggrs))` => `Shared::of(aggrs)`
rw `sync::Arc::clone(&aggrs)` => `aggrs.share()`
rw `format!($*a)` => `host_port_of(&config)`
spec:
    ensures
        r.aggrs.inner.data.map() == Map::<Text, Accumulator>::empty(), r.aggrs.inner.capacity_in_seconds == config.capacity_in_seconds,
        aggr_ok(r.aggrs.inner.data.map()), r.age_threshold == config.age_threshold,
        r.http_srv.handler().aggr.inner == r.aggrs.inner, r.http_srv.handler().tags == config.tags, r.http_srv.handler().gzip == config.gzip,
@*/
/*@ fn src/sink/prometheus.rs Sink@Prometheus.deliver
rw `i128::from($a)` => `($a as i128)`
rw `self.aggrs.held().insert(telem);` => `let r_ = self.aggrs.held().insert(telem); proof { assert(inserted(a0.aggrs.inner.data.map(), telem, a0.aggrs.inner.capacity_in_seconds, r_, self.aggrs.inner.data.map())); assert(taken_in(a0, telem, *self)); }`
at fn-start:
    let ghost a0 = *self;
spec:
    requires
        aggr_ok(old(self).aggrs.inner.data.map()), full(telem),
        old(self).aggrs.inner.data.map().dom().contains(telem.name@) ==> (old(self).aggrs.inner.data.map()[telem.name@] matches Accumulator::Perpetual(t) ==> compatible(t.agg(), telem.agg())),
    ensures
        aggr_ok(final(self).aggrs.inner.data.map()), final(self).age_threshold == old(self).age_threshold, final(self).tags == old(self).tags,
        // a point too far from the clock is dropped, any other is taken in
        turned_away(*old(self), telem, *final(self)) || taken_in(*old(self), telem, *final(self)),
@*/
/*@ fn src/sink/prometheus.rs Sink@Prometheus.flush
spec:
    requires aggr_ok(old(self).aggrs.inner.data.map())
    ensures
        final(self).http_srv == old(self).http_srv,
        aggr_ok(final(self).aggrs.inner.data.map()), final(self).age_threshold == old(self).age_threshold,
        final(self).aggrs.inner.data.map().dom() == old(self).aggrs.inner.data.map().dom(),
        forall|k: Text| old(self).aggrs.inner.data.map().dom().contains(k) ==> aged(old(self).aggrs.inner.data.map()[k], #[trigger] final(self).aggrs.inner.data.map()[k]),
@*/
/*@ fn src/sink/prometheus.rs Sink@Prometheus.flush_interval
ret: r
spec:
    // the pulses make it age what it holds
    ensures r is Some
@*/
/*@ fn src/sink/prometheus.rs Sink@Prometheus.shutdown
sig:
    pub fn shutdown(self, ended: &mut Ended)
rw `self.flush();` => `let mut me = self; me.flush();`
rw `self.http_srv.shutdown()` => `me.http_srv.shutdown(ended)`
spec:
    requires aggr_ok(self.aggrs.inner.data.map())
    ensures final(ended).servers() == old(ended).servers().push(self.http_srv.handler())
@*/
}
}
fn main() {}
}
