// C03: tags, their layering over defaults, and what equal tags mean.
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
pub mod cmp { pub use std::cmp::Ordering; }
verus! {
global size_of usize == 8;

//@include inc/tags.inc

// ---- comparing and hashing

/// what sorting pairs of strings yields: it depends on nothing but which pairs there are
pub uninterp spec fn sorted_of(m: Multiset<(Str, Str)>) -> Pairs;
pub broadcast axiom fn ax_sorted(m: Multiset<(Str, Str)>) ensures (#[trigger] sorted_of(m)).to_multiset() == m;
#[verifier::external_body]
pub struct PairVec<'a> { _p: &'a () }
impl<'a> PairVec<'a> {
    pub uninterp spec fn seq(&self) -> Pairs;
    #[verifier::external_body]
    pub fn sort(&mut self) ensures final(self).seq() == sorted_of(old(self).seq().to_multiset()) { unimplemented!() }
    // lexicographic comparison: equal exactly for equal sequences, and never undefined
    #[verifier::external_body]
    pub fn partial_cmp(&self, o: &PairVec) -> (r: Option<Ordering>)
        ensures r is Some, (r == Some(Ordering::Equal)) == (self.seq() == o.seq())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(self) -> (r: RawIter<'a>) ensures r.seq() == self.seq() { unimplemented!() }
}
impl<'a> RawIter<'a> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: PairVec<'a>) ensures r.seq() == self.seq() { unimplemented!() }
}
/// two listings of one map hold the same pairs
pub proof fn lemma_listings(a: Pairs, b: Pairs, m: Map<Str, Str>)
    requires lists(a, m), lists(b, m)
    ensures a.to_multiset() == b.to_multiset()
{
    broadcast use {vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms};
    assert forall|x: (Str, Str)| #[trigger] a.to_multiset().count(x) == b.to_multiset().count(x) by {
        lemma_count(a, m, x);
        lemma_count(b, m, x);
    }
    assert(a.to_multiset() =~= b.to_multiset());
}
pub proof fn lemma_count(a: Pairs, m: Map<Str, Str>, x: (Str, Str))
    requires lists(a, m)
    ensures a.to_multiset().count(x) == (if m.contains_key(x.0) && m[x.0] == x.1 { 1nat } else { 0nat })
{
    broadcast use {vstd::seq_lib::group_to_multiset_ensures};
    a.to_multiset_ensures();
    assert(a.no_duplicates());
    a.lemma_multiset_has_no_duplicates();
    if m.contains_key(x.0) && m[x.0] == x.1 {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x.0;
        assert(a[i] == x);
        assert(a.contains(x));
    } else if a.contains(x) {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        assert(m.contains_key(a[i].0));
        assert(false);
    }
}
/// two maps with equal sorted listings are equal
pub proof fn lemma_same_map(a: Pairs, b: Pairs, m: Map<Str, Str>, n: Map<Str, Str>)
    requires lists(a, m), lists(b, n), a.to_multiset() == b.to_multiset()
    ensures m == n
{
    assert forall|k: Str| m.contains_key(k) <==> n.contains_key(k) by {
        if m.contains_key(k) { lemma_count(a, m, (k, m[k])); lemma_count(b, n, (k, m[k])); }
        if n.contains_key(k) { lemma_count(a, m, (k, n[k])); lemma_count(b, n, (k, n[k])); }
    }
    assert forall|k: Str| m.contains_key(k) implies m[k] == n[k] by { lemma_count(a, m, (k, m[k])); lemma_count(b, n, (k, m[k])); }
    assert(m =~= n);
}
pub open spec fn opt_view(t: Option<TagMap>) -> Option<Map<Str, Str>> { match t { Some(m) => Some(m@), None => None } }
#[verifier::external_body]
pub fn cmp_len(a: usize, b: usize) -> (r: Option<Ordering>) ensures r is Some, (r == Some(Ordering::Equal)) == (a == b) { unimplemented!() }

/*@ fn src/metric/mod.rs cmp_tagmap
ret: res
rw `l.len().partial_cmp(&r.len())` => `cmp_len(l.len(), r.len())`
rw `Vec<(&String, &String)>` => `PairVec`
rw `&Some(ref $x)` => `Some($x)`
spec:
    ensures
        res is Some,
        // equal maps compare equal, and different ones do not
        opt_view(*lhs) == opt_view(*rhs) ==> res == Some(Ordering::Equal),
        lhs is Some && rhs is Some && res == Some(Ordering::Equal) ==> lhs->0@ == rhs->0@,
at fn-start:
    broadcast use ax_sorted;
    proof {
        assert forall|a: Pairs, b: Pairs, m: Map<Str, Str>| #[trigger] lists(a, m) && #[trigger] lists(b, m) implies a.to_multiset() == b.to_multiset() by { lemma_listings(a, b, m); }
        assert forall|a: Pairs, b: Pairs, m: Map<Str, Str>, n: Map<Str, Str>| #[trigger] lists(a, m) && #[trigger] lists(b, n) && a.to_multiset() == b.to_multiset() implies m == n by { lemma_same_map(a, b, m, n); }
        lemma_has_listing();
    }
@*/
/// every map of tags can be listed
pub axiom fn lemma_has_listing() ensures forall|t: TagMap| exists|s: Pairs| lists(s, #[trigger] t@);


// ---- the tags of points and lines

//@include inc/float.inc
//@include inc/telstruct.inc
/*@ item src/metric/logline.rs struct LogLine
@*/
//@include inc/tagfns.inc

// ---- hashing

pub enum Hashed { Text(Str), Kind(AggregationMethod) }
pub uninterp spec fn sip(s: Seq<Hashed>) -> u64;
pub mod hash_map {
    use super::*;
    #[verifier::external_body]
    pub struct DefaultHasher { _p: () }
    impl DefaultHasher {
        /// what has been put in
        pub uninterp spec fn fed(&self) -> Seq<Hashed>;
        #[verifier::external_body]
        pub fn new() -> (r: DefaultHasher) ensures r.fed() == Seq::<Hashed>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(&self) -> (r: u64) ensures r == sip(self.fed()) { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn hash_str(s: &String, h: &mut hash_map::DefaultHasher) ensures final(h).fed() == old(h).fed().push(Hashed::Text(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn hash_kind(k: AggregationMethod, h: &mut hash_map::DefaultHasher) ensures final(h).fed() == old(h).fed().push(Hashed::Kind(k)) { unimplemented!() }
pub open spec fn fed_pairs(s: Pairs) -> Seq<Hashed>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { fed_pairs(s.drop_last()).push(Hashed::Text(s.last().0)).push(Hashed::Text(s.last().1)) }
}
/// what sorting any listing of a map yields depends on the map only
pub open spec fn fed_tags(t: Option<Map<Str, Str>>) -> Seq<Hashed> {
    match t { Some(m) => fed_pairs(sorted_of(listing(m).to_multiset())), None => Seq::empty() }
}
pub open spec fn listing(m: Map<Str, Str>) -> Pairs { choose|s: Pairs| lists(s, m) }

/*@ fn src/metric/telemetry.rs hash_tags
sig:
    pub fn hash_tags(tags: &Option<TagMap>, hasher: &mut hash_map::DefaultHasher)
rw `Vec<(&String, &String)>` => `PairVec`
rw `for ($k, $v) in pairs` => `let mut raw = pairs.into_raw(); while let Some(($k, $v)) = raw.next()`
rw `$x.hash(hasher)` => `hash_str($x, hasher)`
spec:
    ensures final(hasher).fed() == old(hasher).fed() + fed_tags(opt_view(*tags)),
at fn-start:
    let ghost t0 = opt_view(*tags);
    proof {
        assert(old(hasher).fed() + Seq::<Hashed>::empty() =~= old(hasher).fed());
        assert forall|s: Pairs, m: Map<Str, Str>| #[trigger] lists(s, m) implies s.to_multiset() == listing(m).to_multiset() by { lemma_listings(s, listing(m), m); }
    }
loop 1 while:
    invariant
        raw.seq().len() <= listed.len(), listed.take(listed.len() as int) == listed,
        raw.seq() == listed.skip(listed.len() - raw.seq().len()),
        hasher.fed() == old(hasher).fed() + fed_pairs(listed.take(listed.len() - raw.seq().len())),
        t0 is Some, fed_tags(t0) == fed_pairs(listed),
    ensures hasher.fed() == old(hasher).fed() + fed_tags(t0),
    decreases raw.seq().len()
at loop 1 before:
    let ghost listed = raw.seq();
    proof {
        assert(listed.take(0) =~= Seq::empty());
        assert(listed.skip(0) =~= listed);
        assert(listed.take(listed.len() as int) =~= listed);
        assert(listed.take(listed.len() as int) =~= listed);
        assert(old(hasher).fed() + Seq::<Hashed>::empty() =~= old(hasher).fed());
    }
at loop 1 start:
    proof {
        let n = listed.len() - raw.seq().len();
        assert(listed.take(n).drop_last() =~= listed.take(n - 1));
        assert(listed.take(listed.len() as int) =~= listed);
        assert((old(hasher).fed() + fed_pairs(listed.take(n - 1))).push(Hashed::Text(k@)).push(Hashed::Text(v@)) =~= old(hasher).fed() + fed_pairs(listed.take(n)));
    }
@*/
impl Telemetry {
    pub uninterp spec fn kind_spec(&self) -> AggregationMethod;
    // C02 has its contract
    #[verifier::external_body]
    pub fn kind(&self) -> (r: AggregationMethod) ensures r == self.kind_spec() { unimplemented!() }
/*@ fn src/metric/telemetry.rs Telemetry.name_tag_hash
ret: r
rw `self.name.hash(&mut hasher)` => `hash_str(&self.name, &mut hasher)`
spec:
    // a function of the name and of what the tags map to what, nothing else
    ensures r == sip(seq![Hashed::Text(self.name@)] + fed_tags(opt_view(self.tags)))
at fn-start:
    proof { assert(Seq::<Hashed>::empty().push(Hashed::Text(self.name@)) =~= seq![Hashed::Text(self.name@)]); }
@*/
/*@ fn src/metric/telemetry.rs Telemetry.hash
ret: r
rw `self.name.hash(&mut hasher)` => `hash_str(&self.name, &mut hasher)`
rw `self.kind().hash(&mut hasher)` => `hash_kind(self.kind(), &mut hasher)`
spec:
    ensures r == sip((seq![Hashed::Text(self.name@)] + fed_tags(opt_view(self.tags))).push(Hashed::Kind(self.kind_spec())))
at fn-start:
    proof { assert(Seq::<Hashed>::empty().push(Hashed::Text(self.name@)) =~= seq![Hashed::Text(self.name@)]); }
@*/
/*@ fn src/metric/telemetry.rs PartialOrd@Telemetry.partial_cmp
ret: r
rw `self.name.partial_cmp(&other.name)` => `cmp_str(&self.name, &other.name)`
rw `self.timestamp.partial_cmp(&other.timestamp)` => `cmp_ts(self.timestamp, other.timestamp)`
spec:
    ensures
        r is Some,
        self.name@ == other.name@ && self.timestamp == other.timestamp && opt_view(self.tags) == opt_view(other.tags) ==> r == Some(Ordering::Equal),
        r == Some(Ordering::Equal) ==> self.name@ == other.name@ && self.timestamp == other.timestamp,
        r == Some(Ordering::Equal) && self.tags is Some && other.tags is Some ==> self.tags->0@ == other.tags->0@,
@*/
}
#[verifier::external_body]
pub fn cmp_str(a: &String, b: &String) -> (r: Option<Ordering>) ensures r is Some, (r == Some(Ordering::Equal)) == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn cmp_ts(a: i64, b: i64) -> (r: Option<Ordering>) ensures r is Some, (r == Some(Ordering::Equal)) == (a == b) { unimplemented!() }

fn main() {}
} // verus!
