// C15: what a wavefront flush writes.
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
pub mod cmp { pub use std::cmp::Ordering; }
verus! {
global size_of usize == 8;

//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc
//@include inc/search.inc
//@include inc/buckets.inc contracts-only
//@include inc/shown.inc
//@include inc/readout.inc

// ================================================================ points
/// the hash of name, tags and kind (computed by the standard hasher)
pub uninterp spec fn hash3(name: String, tags: Option<TagMap>, kind: AggregationMethod) -> u64;
/// whose hashes these are: no two met by a sink collide
pub uninterp spec fn series_for(h: u64) -> (String, Option<TagMap>);
pub uninterp spec fn kind_for(h: u64) -> AggregationMethod;
pub uninterp spec fn series_for3(h: u64) -> (String, Option<TagMap>);
/// the bins of a series' histograms (see the known finding C02/histogram-bins)
pub uninterp spec fn bins_for(h: u64) -> Seq<f64>;
pub open spec fn series3(t: Telemetry) -> u64 { hash3(t.name, t.tags, kind_of(t.agg())) }
/// a point as the sink meets it: a summary has a sample, no hash collides, and the series keeps its bins
pub open spec fn regular(t: Telemetry) -> bool {
    &&& t.ok()
    &&& (t.name, t.tags) == series_for(t.hash_spec())
    &&& (t.name, t.tags) == series_for3(series3(t)) && kind_of(t.agg()) == kind_for(series3(t))
    &&& t.agg() is Hist ==> t.agg()->bounds == bins_for(t.hash_spec())
    &&& t.agg() is Quant ==> t.agg()->Quant_data.len() > 0
}
pub open spec fn regular_all(s: Seq<Telemetry>) -> bool { forall|i: int| 0 <= i < s.len() ==> regular(#[trigger] s[i]) }
pub open spec fn store_ok(b: Buckets) -> bool {
    b.wf() && forall|i: int| 0 <= i < b.values@.len() ==> regular_all((#[trigger] b.values@[i])@)
}
pub proof fn lemma_plus(a: Telemetry, b: Telemetry, n: Telemetry)
    requires regular(a), regular(b), a.same_series(&b), n.ok(), n.agg() == plus(a.agg(), b.agg()), n.same_series(&a)
    ensures regular(n)
{
    broadcast use vstd::multiset::group_multiset_axioms;
    assert(kind_of(n.agg()) == kind_of(b.agg()));
    match b.agg() {
        Agg::Quant { data, .. } => {
            match a.agg() {
                Agg::Set(x) | Agg::Sum(x) => { assert(data.insert(x).len() == data.len() + 1); }
                Agg::Hist { .. } => {}
                Agg::Quant { data: d, .. } => { assert(d.add(data).len() == d.len() + data.len()); }
            }
        }
        _ => {}
    }
}
/// a regular point may be added to such a store
pub proof fn lemma_may_add(b: Buckets, t: Telemetry)
    requires store_ok(b), regular(t)
    ensures b.no_collision(t), b.same_bins(t)
{
    assert forall|i: int, j: int| 0 <= i < b.values@.len() && 0 <= j < (#[trigger] b.values@[i])@.len()
        && (#[trigger] b.values@[i]@[j]).hash_spec() == t.hash_spec() implies b.values@[i]@[j].same_series(&t) && compatible(b.values@[i]@[j].agg(), t.agg()) by {
        assert(regular_all(b.values@[i]@)); assert(regular(b.values@[i]@[j]));
    }
}
pub proof fn lemma_added(b0: Buckets, b1: Buckets, t: Telemetry)
    requires
        store_ok(b0), regular(t), b1.wf(), b1.holds_key(t.hash_spec()),
        added(b0.series(t.hash_spec()), b1.series(t.hash_spec()), t, b0.bin_width as int),
        forall|k: u64| k != t.hash_spec() ==> #[trigger] b1.holds_key(k) == b0.holds_key(k),
        forall|k: u64| k != t.hash_spec() ==> #[trigger] b1.series(k) == b0.series(k),
    ensures store_ok(b1)
{
    let h = t.hash_spec();
    assert forall|k: u64| regular_all(#[trigger] b0.series(k)) by {
        if b0.holds_key(k) { let i = choose|i: int| 0 <= i < b0.keys@.len() && b0.keys@[i] == k; lemma_series(b0, i); assert(regular_all(b0.values@[i]@)); }
    }
    let v = b0.series(h); let n = b1.series(h);
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).same_series(&t) by {
        assert(regular(v[j]));
        let i = choose|i: int| 0 <= i < b0.keys@.len() && b0.keys@[i] == h;
        assert(b0.holds_key(h)); lemma_series(b0, i); reveal(bins_ok);
        assert(bins_ok(b0.values@[i]@, b0.keys@[i], b0.bin_width as int));
        assert(b0.values@[i]@[j].hash_spec() == h);
    }
    assert(regular_all(n)) by {
        let w = b0.bin_width as int;
        let bn = tdiv(t.timestamp as int, w);
        if exists|i: int| #![trigger v[i]] 0 <= i < v.len() && tdiv(v[i].timestamp as int, w) == bn && n.len() == v.len()
            && merged(v[i], t, n[i]) && (forall|j: int| 0 <= j < v.len() && j != i ==> #[trigger] n[j] == v[j]) {
            let i = choose|i: int| #![trigger v[i]] 0 <= i < v.len() && tdiv(v[i].timestamp as int, w) == bn && n.len() == v.len()
                && merged(v[i], t, n[i]) && (forall|j: int| 0 <= j < v.len() && j != i ==> #[trigger] n[j] == v[j]);
            lemma_plus(v[i], t, n[i]);
            assert forall|j: int| 0 <= j < n.len() implies regular(#[trigger] n[j]) by { if j != i { assert(n[j] == v[j]); } }
        } else {
            let i = choose|i: int| 0 <= i <= v.len() && #[trigger] n.remove(i) == v && n.len() == v.len() + 1
                && (forall|j: int| 0 <= j < i ==> tdiv((#[trigger] v[j]).timestamp as int, w) < bn)
                && (if t.persist && i > 0 { carried(v[i - 1], t, n[i]) } else { n[i] == t });
            if t.persist && i > 0 { lemma_plus(v[i - 1], t, n[i]); }
            assert forall|j: int| 0 <= j < n.len() implies regular(#[trigger] n[j]) by {
                if j < i { assert(n.remove(i)[j] == n[j]); } else if j > i { assert(n.remove(i)[j - 1] == n[j]); }
            }
        }
    }
    assert forall|i: int| 0 <= i < b1.values@.len() implies regular_all((#[trigger] b1.values@[i])@) by { lemma_series(b1, i); }
}
pub proof fn lemma_kept(b0: Buckets, b1: Buckets)
    requires
        store_ok(b0), b1.wf(), b1.keys == b0.keys,
        forall|i: int| 0 <= i < b0.keys@.len() ==> #[trigger] kept(b0.values@[i]@, b1.values@[i]@),
    ensures store_ok(b1)
{
    assert forall|i: int| 0 <= i < b1.values@.len() implies regular_all((#[trigger] b1.values@[i])@) by {
        assert(kept(b0.values@[i]@, b1.values@[i]@)); assert(regular_all(b0.values@[i]@));
    }
}
/// what a reset leaves of a store
pub open spec fn left_of(a: Buckets, b: Buckets) -> bool {
    b.wf() && b.bin_width == a.bin_width && b.keys == a.keys && forall|i: int| 0 <= i < a.keys@.len() ==> #[trigger] kept(a.values@[i]@, b.values@[i]@)
}
pub proof fn lemma_kept_twice(a: Buckets, b: Buckets, c: Buckets)
    requires left_of(a, b), left_of(b, c)
    ensures left_of(a, c)
{
    assert forall|i: int| 0 <= i < a.keys@.len() implies #[trigger] kept(a.values@[i]@, c.values@[i]@) by {
        assert(kept(a.values@[i]@, b.values@[i]@)); assert(kept(b.values@[i]@, c.values@[i]@));
    }
}

// ================================================================ padding
/*@ item src/sink/wavefront.rs struct PadControl
@*/
impl Copy for PadControl {}
impl Clone for PadControl {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
#[allow(inconsistent_fields)]
pub enum Item { Zero(Telemetry, i64), Point(Telemetry) }
pub open spec fn tel(x: Item) -> Telemetry { match x { Item::Zero(t, _) => t, Item::Point(t) => t } }
pub open spec fn at(x: Item) -> int { match x { Item::Zero(_, ts) => ts as int, Item::Point(t) => t.timestamp as int } }
pub open spec fn of(x: Item) -> u64 { series3(tel(x)) }
pub open spec fn gap(a: int, b: int, span: int) -> bool { dist(a, b) / span > 1 }
pub open spec fn dist(a: int, b: int) -> int { if a > b { a - b } else { b - a } }
pub open spec fn pads(k: AggregationMethod, c: PadControl) -> bool {
    match k { AggregationMethod::Histogram => c.histogram, AggregationMethod::Set => c.set, AggregationMethod::Sum => c.sum, AggregationMethod::Summarize => c.summarize }
}
pub ghost struct How { pub span: int, pub last: Map<u64, i64>, pub ctl: PadControl }
pub open spec fn plain(x: Item, c: PadControl) -> bool { x is Zero || !pads(kind_of(tel(x).agg()), c) }
pub open spec fn up(x: int) -> i64 { if x < i64::MAX { (x + 1) as i64 } else { i64::MAX } }
pub open spec fn down(x: int) -> i64 { if x > i64::MIN { (x - 1) as i64 } else { i64::MIN } }
/// the first point of a series that is newer than what was last seen of it
pub open spec fn newer(x: Item, f: Set<u64>, c: How) -> bool { !f.contains(of(x)) && c.last.dom().contains(of(x)) && at(x) > c.last[of(x)] }
/// a point no newer than what was last seen of its series
pub open spec fn late(x: Item, f: Set<u64>, c: How) -> bool { !f.contains(of(x)) && c.last.dom().contains(of(x)) && at(x) <= c.last[of(x)] }
pub open spec fn before(x: Item, f: Set<u64>, c: How) -> Seq<Item> {
    if newer(x, f, c) && gap(at(x), c.last[of(x)] as int, c.span) { seq![Item::Zero(tel(x), up(c.last[of(x)] as int)), Item::Zero(tel(x), down(at(x)))] } else { Seq::empty() }
}
pub open spec fn behind(x: Item, rest: Seq<Item>, f: Set<u64>, c: How) -> Seq<Item> {
    if !late(x, f, c) && rest.len() > 0 && of(rest[0]) == of(x) && gap(at(x), at(rest[0]), c.span) {
        seq![Item::Zero(tel(x), up(at(x))), Item::Zero(tel(rest[0]), down(at(rest[0])))]
    } else { Seq::empty() }
}
pub open spec fn flagged(x: Item, f: Set<u64>, c: How) -> Set<u64> { if newer(x, f, c) { f.insert(of(x)) } else { f } }
/// The points in their order, with two zeros in each gap of more than a bin between neighbours of a
/// series, and between what was last seen of a series and its first newer point.
pub open spec fn padded(s: Seq<Item>, f: Set<u64>, c: How) -> Seq<Item>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if plain(s[0], c.ctl) { seq![s[0]] + padded(s.skip(1), f, c) }
    else { before(s[0], f, c) + (seq![s[0]] + (behind(s[0], s.skip(1), f, c) + padded(s.skip(1), flagged(s[0], f, c), c))) }
}
pub open spec fn points(s: Seq<Telemetry>) -> Seq<Item> { s.map_values(|t: Telemetry| Item::Point(t)) }
/// the real points
pub open spec fn reals(s: Seq<Item>) -> Seq<Item>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s[0] is Point { seq![s[0]] + reals(s.skip(1)) } else { reals(s.skip(1)) } }
pub proof fn lemma_reals_cat(a: Seq<Item>, b: Seq<Item>)
    ensures reals(a + b) == reals(a) + reals(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(reals(a) + reals(b) =~= reals(b)); }
    else { lemma_reals_cat(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]);
        assert(seq![a[0]] + (reals(a.skip(1)) + reals(b)) =~= (seq![a[0]] + reals(a.skip(1))) + reals(b)); }
}
pub proof fn lemma_reals_none(a: Seq<Item>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] is Zero
    ensures reals(a) == Seq::<Item>::empty()
    decreases a.len()
{ if a.len() > 0 { assert(forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] a.skip(1)[i] == a[i + 1]); lemma_reals_none(a.skip(1)); } }
/// padding keeps every point, in its order
pub proof fn lemma_all_kept(s: Seq<Item>, f: Set<u64>, c: How)
    ensures reals(padded(s, f, c)) == reals(s)
    decreases s.len()
{
    if s.len() > 0 {
        let x = s[0]; let r = s.skip(1);
        assert(seq![x].skip(1) =~= Seq::empty()); assert(seq![x][0] == x);
        assert(reals(seq![x]) =~= (if x is Point { seq![x] } else { Seq::empty() })) by { reveal_with_fuel(reals, 2); assert(reals(seq![x].skip(1)) =~= Seq::empty()); }
        let g = if plain(x, c.ctl) { f } else { flagged(x, f, c) };
        let p = padded(r, g, c);
        lemma_all_kept(r, g, c);
        lemma_reals_cat(seq![x], p);
        if !plain(x, c.ctl) {
            let a = before(x, f, c); let b = behind(x, r, f, c);
            lemma_reals_none(a); lemma_reals_none(b);
            lemma_reals_cat(b, p); lemma_reals_cat(seq![x], b + p); lemma_reals_cat(a, seq![x] + (b + p));
            assert(Seq::<Item>::empty() + reals(p) =~= reals(p));
        }
        assert(reals(padded(s, f, c)) =~= reals(s));
    }
}
/// each series' points in strictly ascending time
pub open spec fn rising(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && of(#[trigger] s[i]) == of(#[trigger] s[j]) ==> at(s[i]) < at(s[j]) }
/// the same with zeros, which may share a second with each other but with no point
pub open spec fn climbing(s: Seq<Item>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() && of(#[trigger] s[i]) == of(#[trigger] s[j]) ==> at(s[i]) <= at(s[j]) && (s[i] is Point || s[j] is Point ==> at(s[i]) < at(s[j]))
}
pub open spec fn kinded(s: Seq<Item>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] is Point && kind_of(tel(#[trigger] s[i]).agg()) == kind_for(of(s[i])) }
pub open spec fn known(s: Seq<Item>, f: Set<u64>, c: How) -> bool {
    forall|i: int| 0 <= i < s.len() && f.contains(of(#[trigger] s[i])) ==> c.last.dom().contains(of(s[i])) && at(s[i]) > c.last[of(s[i])]
}
/// one of these points is of that series and no later
pub open spec fn led(s: Seq<Item>, o: Item) -> bool { exists|i: int| 0 <= i < s.len() && of(#[trigger] s[i]) == of(o) && at(s[i]) <= at(o) }
pub open spec fn first_zero(o: Item, f: Set<u64>, c: How) -> bool {
    o is Zero && pads(kind_for(of(o)), c.ctl) && !f.contains(of(o)) && c.last.dom().contains(of(o)) && at(o) > c.last[of(o)]
}
pub open spec fn well(o: Item, c: How) -> bool { kind_of(tel(o).agg()) == kind_for(of(o)) && (o is Zero ==> pads(kind_for(of(o)), c.ctl) && (c.last.dom().contains(of(o)) ==> at(o) > c.last[of(o)])) }
pub proof fn lemma_climb(a: Seq<Item>, x: Item, b: Seq<Item>, p: Seq<Item>, m: int)
    requires
        climbing(p), x is Point, at(x) < m, forall|k: int| 0 <= k < p.len() && of(#[trigger] p[k]) == of(x) ==> at(p[k]) >= m,
        a.len() == 0 || a.len() == 2 && of(a[0]) == of(x) && of(a[1]) == of(x) && at(a[0]) <= at(a[1]) < at(x) && a[0] is Zero && a[1] is Zero,
        b.len() == 0 || b.len() == 2 && of(b[0]) == of(x) && of(b[1]) == of(x) && at(x) < at(b[0]) <= at(b[1]) < m && b[0] is Zero && b[1] is Zero,
    ensures climbing(a + (seq![x] + (b + p)))
{
    let out = a + (seq![x] + (b + p));
    let la = a.len() as int; let lb = b.len() as int;
    assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i] == (if i < la { a[i] } else if i == la { x } else if i < la + 1 + lb { b[i - la - 1] } else { p[i - la - 1 - lb] }) by {}
    assert forall|i: int, j: int| 0 <= i < j < out.len() && of(#[trigger] out[i]) == of(#[trigger] out[j]) implies at(out[i]) <= at(out[j]) && (out[i] is Point || out[j] is Point ==> at(out[i]) < at(out[j])) by {
        if i >= la + 1 + lb { assert(out[i] == p[i - la - 1 - lb] && out[j] == p[j - la - 1 - lb]); }
        else if j >= la + 1 + lb { assert(out[j] == p[j - la - 1 - lb]); assert(at(out[i]) < m); }
        else {}
    }
}
/// What padding makes is in strictly ascending time for each series: its zeros stand where the series
/// has no point, and none before what was last seen of it.
pub proof fn lemma_rising(s: Seq<Item>, f: Set<u64>, c: How)
    requires rising(s), kinded(s), known(s, f, c), c.span > 0
    ensures
        climbing(padded(s, f, c)),
        forall|i: int| 0 <= i < padded(s, f, c).len() ==> well(#[trigger] padded(s, f, c)[i], c),
        forall|i: int| 0 <= i < padded(s, f, c).len() ==> led(s, #[trigger] padded(s, f, c)[i]) || first_zero(padded(s, f, c)[i], f, c),
    decreases s.len()
{
    if s.len() > 0 {
        let x = s[0]; let r = s.skip(1); let h = of(x);
        let pl = plain(x, c.ctl);
        let g = if pl { f } else { flagged(x, f, c) };
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == s[i + 1] by {}
        assert(rising(r)) by { assert forall|i: int, j: int| 0 <= i < j < r.len() && of(#[trigger] r[i]) == of(#[trigger] r[j]) implies at(r[i]) < at(r[j]) by { assert(of(s[i + 1]) == of(s[j + 1])); } }
        assert(kinded(r));
        assert(known(r, g, c)) by {
            assert forall|i: int| 0 <= i < r.len() && g.contains(of(#[trigger] r[i])) implies c.last.dom().contains(of(r[i])) && at(r[i]) > c.last[of(r[i])] by {
                assert(r[i] == s[i + 1]);
                if !f.contains(of(r[i])) { assert(of(r[i]) == h); assert(at(s[0]) < at(s[i + 1])); }
            }
        }
        lemma_rising(r, g, c);
        let p = padded(r, g, c);
        let a = if pl { Seq::<Item>::empty() } else { before(x, f, c) };
        let b = if pl { Seq::<Item>::empty() } else { behind(x, r, f, c) };
        let out = padded(s, f, c);
        assert(out =~= a + (seq![x] + (b + p)));
        let la = a.len() as int; let lb = b.len() as int;
        assert forall|i: int| 0 <= i < out.len() implies #[trigger] out[i] == (if i < la { a[i] } else if i == la { x } else if i < la + 1 + lb { b[i - la - 1] } else { p[i - la - 1 - lb] }) by {}
        if la > 0 { lemma_gap(at(x), c.last[h] as int, c.span); assert(of(a[0]) == h && of(a[1]) == h); }
        if lb > 0 { lemma_gap(at(x), at(r[0]), c.span); assert(r[0] == s[1]); assert(of(s[0]) == of(s[1])); assert(at(s[0]) < at(s[1])); assert(of(b[0]) == h && of(b[1]) == h); }
        // what follows of this series
        assert forall|k: int| 0 <= k < p.len() && of(#[trigger] p[k]) == h implies at(p[k]) > at(x) && (lb > 0 ==> at(p[k]) >= at(r[0])) by {
            if led(r, p[k]) {
                let i = choose|i: int| 0 <= i < r.len() && of(#[trigger] r[i]) == of(p[k]) && at(r[i]) <= at(p[k]);
                assert(r[i] == s[i + 1]); assert(at(s[0]) < at(s[i + 1]));
                if lb > 0 && i > 0 { assert(at(r[0]) < at(r[i])); }
            } else {
                assert(first_zero(p[k], g, c));
                assert(kind_of(tel(s[0]).agg()) == kind_for(of(s[0])));
                assert(!pl);
                assert(late(x, f, c));
            }
        }
        lemma_climb(a, x, b, p, if lb > 0 { at(r[0]) } else { at(x) + 1 });
        assert forall|i: int| 0 <= i < out.len() implies well(#[trigger] out[i], c) && (led(s, out[i]) || first_zero(out[i], f, c)) by {
            assert(kind_of(tel(s[0]).agg()) == kind_for(of(s[0])));
            if lb > 0 { assert(kind_of(tel(s[1]).agg()) == kind_for(of(s[1]))); }
            if i < la { assert(out[i] == a[i]); assert(first_zero(out[i], f, c)); }
            else if i < la + 1 + lb { assert(at(s[0]) <= at(out[i]) && of(s[0]) == of(out[i])); assert(led(s, out[i]));
                if i > la && c.last.dom().contains(h) { if f.contains(h) { assert(at(s[0]) > c.last[h]); } else { assert(!late(x, f, c)); } } }
            else {
                let o = p[i - la - 1 - lb];
                assert(out[i] == o);
                assert(well(o, c));
                if led(r, o) {
                    let k = choose|k: int| 0 <= k < r.len() && of(#[trigger] r[k]) == of(o) && at(r[k]) <= at(o);
                    assert(r[k] == s[k + 1]); assert(of(s[k + 1]) == of(o));
                } else { assert(first_zero(o, g, c)); assert(g.contains(of(o)) || !f.contains(of(o)));  }
            }
        }
    }
}
pub proof fn lemma_gap(a: int, b: int, span: int)
    requires gap(a, b, span), span > 0
    ensures dist(a, b) >= 2
{ assert(dist(a, b) >= 2) by (nonlinear_arith) requires dist(a, b) / span > 1, span > 0, dist(a, b) >= 0; }
/// the points of a store, series after series, are in such an order
pub proof fn lemma_stored_rising(b: Buckets)
    requires store_ok(b)
    ensures rising(points(flat(b.values@))), kinded(points(flat(b.values@))), regular_all(flat(b.values@))
{
    lemma_flat_ordered(b.values@, b.keys@, b.bin_width as int);
    let s = flat(b.values@);
    assert forall|i: int, j: int| 0 <= i < j < s.len() && of(#[trigger] points(s)[i]) == of(#[trigger] points(s)[j]) implies at(points(s)[i]) < at(points(s)[j]) by {
        assert(regular(s[i]) && regular(s[j]));
        assert(s[i].hash_spec() == s[j].hash_spec());
    }
}
pub open spec fn ordered(s: Seq<Telemetry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).hash_spec() == (#[trigger] s[j]).hash_spec() ==> s[i].timestamp < s[j].timestamp }
pub proof fn lemma_tdiv(a: int, b: int, w: int)
    requires w > 0, tdiv(a, w) < tdiv(b, w)
    ensures a < b
{
    if a >= b {
        if b >= 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered(b, a, w); }
        else if a < 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered(-a, -b, w); }
        else { assert(a / w >= 0) by (nonlinear_arith) requires a >= 0, w > 0; assert((-b) / w >= 0) by (nonlinear_arith) requires b < 0, w > 0; }
    }
}
pub proof fn lemma_flat_ordered(vals: Seq<Vec<Telemetry>>, keys: Seq<u64>, w: int)
    requires
        vals.len() == keys.len(), w > 0, forall|i: int, j: int| 0 <= i < j < keys.len() ==> (#[trigger] keys[i]) < (#[trigger] keys[j]),
        forall|i: int| 0 <= i < vals.len() ==> bins_ok((#[trigger] vals[i])@, keys[i], w) && regular_all(vals[i]@),
    ensures
        ordered(flat(vals)), regular_all(flat(vals)),
        forall|k: int| 0 <= k < flat(vals).len() ==> exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == (#[trigger] flat(vals)[k]).hash_spec(),
    decreases vals.len()
{
    if vals.len() > 0 {
        reveal(bins_ok);
        let r = vals.drop_first(); let kr = keys.drop_first();
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == vals[i + 1] && kr[i] == keys[i + 1]);
        assert forall|i: int, j: int| 0 <= i < j < kr.len() implies (#[trigger] kr[i]) < (#[trigger] kr[j]) by { assert(keys[i + 1] < keys[j + 1]); }
        lemma_flat_ordered(r, kr, w);
        let s = flat(vals); let v = vals[0]@; let n = v.len() as int;
        assert(bins_ok(v, keys[0], w));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == (if i < n { v[i] } else { flat(r)[i - n] }) by {}
        assert forall|k: int| n <= k < s.len() implies (#[trigger] s[k]).hash_spec() != keys[0] && exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == s[k].hash_spec() by {
            let t = flat(r)[k - n];
            let i = choose|i: int| 0 <= i < kr.len() && #[trigger] kr[i] == t.hash_spec();
            assert(keys[i + 1] == t.hash_spec()); assert(keys[0] < keys[i + 1]);
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).hash_spec() == (#[trigger] s[j]).hash_spec() implies s[i].timestamp < s[j].timestamp by {
            if j < n { lemma_tdiv(v[i].timestamp as int, v[j].timestamp as int, w); }
            else if i < n { assert(v[i].hash_spec() == keys[0]); }
            else { assert(s[i] == flat(r)[i - n] && s[j] == flat(r)[j - n]); }
        }
        assert forall|k: int| 0 <= k < s.len() implies regular(#[trigger] s[k]) && exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == s[k].hash_spec() by {
            if k < n { assert(v[k].hash_spec() == keys[0]); assert(regular_all(vals[0]@)); }
        }
    }
}
// ---- what the code keeps its series in
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
pub type Seen = Map<u64, i64>;
/// every entry of the map once, in any order
pub open spec fn listing(s: Seq<(u64, i64)>, m: Seen) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: u64| m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
}
pub struct Entry<'a> { pub slot: &'a mut Option<i64> }
impl<'a> Entry<'a> {
    #[verifier::external_body]
    pub fn or_insert(self, v: i64) -> (r: &'a mut i64)
        ensures *r == (match *old(self.slot) { Some(o) => o, None => v }), *final(self.slot) == Some(*final(r))
    { unimplemented!() }
}
impl HashMap<u64, i64> {
    pub uninterp spec fn map(&self) -> Seen;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<u64, i64>::empty() { unimplemented!() }
    pub fn default() -> (r: Self) ensures r.map() == Map::<u64, i64>::empty() { Self::new() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &u64) -> (r: Option<&'a i64>)
        ensures match r { Some(v) => self.map().dom().contains(*k) && *v == self.map()[*k], None => !self.map().dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: i64) -> (r: Option<i64>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: u64) -> (r: Entry<'a>)
        ensures
            *r.slot == (if old(self).map().dom().contains(k) { Some(old(self).map()[k]) } else { None }),
            final(self).map() == (match *final(r.slot) { Some(v) => old(self).map().insert(k, v), None => old(self).map().remove(k) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<(u64, i64)>) ensures listing(r@, self.map()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _p: std::marker::PhantomData<T> }
impl HashSet<u64> {
    pub uninterp spec fn set(&self) -> Set<u64>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.set() == Set::<u64>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &u64) -> (r: bool) ensures r == self.set().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64) -> (r: bool) ensures r == !old(self).set().contains(k), final(self).set() == old(self).set().insert(k) { unimplemented!() }
}
pub assume_specification [ i128::abs ](x: i128) -> (r: i128)
    requires x > i128::MIN,
    ensures r == (if x < 0 { -x } else { x as int });
pub open spec fn clamped(x: int) -> i64 { if x > i64::MAX { i64::MAX } else if x < i64::MIN { i64::MIN } else { x as i64 } }
pub assume_specification [ i64::saturating_add ](x: i64, y: i64) -> (r: i64)
    ensures r == clamped(x + y);
pub assume_specification [ i64::saturating_sub ](x: i64, y: i64) -> (r: i64)
    ensures r == clamped(x - y);
/*@ rewrites
rw `i128::from($a)` => `($a as i128)`
rw `$A.fetch_add($*a)` => `()`
rw `$A.store($*a);` => ``
rw `buckets::Iter` => `Iter`
rw `buckets::Buckets` => `Buckets`
@*/
impl Telemetry {
    /// DefaultHasher over name, tags and kind
    #[verifier::external_body]
    pub fn hash(&self) -> (r: u64) requires self.ok() ensures r == series3(*self) { unimplemented!() }
}
/*@ item src/sink/wavefront.rs enum Pad
@*/
pub open spec fn item(p: Pad) -> Item { match p { Pad::Zero(t, ts) => Item::Zero(*t, ts), Pad::Telem(t) => Item::Point(*t) } }
pub open spec fn pok(p: Pad) -> bool { tel(item(p)).ok() }
impl<'a> Clone for Pad<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<'a> Pad<'a> {
/*@ fn src/sink/wavefront.rs Pad.hash
ret: r
spec:
    requires pok(*self)
    ensures r == of(item(*self))
@*/
/*@ fn src/sink/wavefront.rs Pad.zero_at
ret: r
spec:
    ensures item(r) == Item::Zero(tel(item(self)), ts)
@*/
/*@ fn src/sink/wavefront.rs Pad.skip_pad
ret: r
spec:
    requires pok(*self)
    ensures r == plain(item(*self), pad_control)
@*/
/*@ fn src/sink/wavefront.rs Pad.timestamp
ret: r
spec:
    ensures r == at(item(*self))
@*/
}
/*@ fn src/sink/wavefront.rs apart
ret: r
spec:
    requires span > 0
    ensures r == gap(lhs as int, rhs as int, span as int)
at fn-start:
    proof { lemma_quotient(dist(lhs as int, rhs as int), span as int); }
@*/
pub proof fn lemma_quotient(d: int, s: int)
    requires d >= 0, s > 0
    ensures 0 <= d / s <= d
{ assert(0 <= d / s <= d) by (nonlinear_arith) requires d >= 0, s > 0; }
/*@ item src/sink/wavefront.rs struct Padding
@*/
pub open spec fn stacked(q: Seq<Pad>) -> Seq<Item> { q.reverse().map_values(|p: Pad| item(p)) }
pub broadcast proof fn lemma_stack(q: Seq<Pad>, p: Pad)
    ensures #[trigger] stacked(q.push(p)) == seq![item(p)] + stacked(q)
{ assert(stacked(q.push(p)) =~= seq![item(p)] + stacked(q)); }
pub broadcast proof fn lemma_icat(a: Seq<Item>, b: Seq<Item>, c: Seq<Item>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_icat0(a: Seq<Item>)
    ensures #[trigger] (Seq::<Item>::empty() + a) == a
{ assert(Seq::<Item>::empty() + a =~= a); }
pub broadcast proof fn lemma_zero(z: Item, t: Seq<Item>, f: Set<u64>, c: How)
    ensures z is Zero ==> #[trigger] padded(seq![z] + t, f, c) == seq![z] + padded(t, f, c)
{ assert((seq![z] + t).skip(1) =~= t); assert((seq![z] + t)[0] == z); }
pub broadcast group icats { lemma_stack, lemma_icat, lemma_icat0, lemma_zero }
/// drawing from the queue before the points
pub open spec fn pulled(q: Seq<Pad>, s: Seq<Telemetry>, r: Option<Pad>, q1: Seq<Pad>, s1: Seq<Telemetry>) -> bool {
    if q.len() > 0 { r == Some(q.last()) && q1 == q.drop_last() && s1 == s }
    else { q1 == q && match r { Some(p) => s.len() > 0 && item(p) == Item::Point(s[0]) && s1 == s.skip(1), None => s.len() == 0 && s1.len() == 0 } }
}
pub proof fn lemma_pulled(q: Seq<Pad>, s: Seq<Telemetry>, r: Option<Pad>, q1: Seq<Pad>, s1: Seq<Telemetry>)
    requires pulled(q, s, r, q1, s1)
    ensures match r {
        Some(p) => stacked(q) + points(s) == seq![item(p)] + (stacked(q1) + points(s1)),
        None => stacked(q) + points(s) == Seq::<Item>::empty() && stacked(q1) + points(s1) == Seq::<Item>::empty() },
{
    match r {
        Some(p) => {
            if q.len() > 0 { assert(q.drop_last().push(q.last()) =~= q); lemma_stack(q.drop_last(), q.last()); }
            assert(stacked(q) + points(s) =~= seq![item(p)] + (stacked(q1) + points(s1)));
        }
        None => { assert(stacked(q) + points(s) =~= Seq::<Item>::empty()); assert(stacked(q1) + points(s1) =~= Seq::<Item>::empty()); }
    }
}
/// the point at hand stands alone, begins its series' part of this flush, or has its gap behind it
pub proof fn lemma_unfold(x: Item, t: Seq<Item>, f: Set<u64>, c: How)
    ensures ({
        let s = seq![x] + t;
        let lone = plain(x, c.ctl) || before(x, f, c).len() == 0 && behind(x, t, f, c).len() == 0;
        &&& lone ==> padded(s, f, c) == seq![x] + padded(t, if plain(x, c.ctl) { f } else { flagged(x, f, c) }, c)
        &&& !plain(x, c.ctl) && before(x, f, c).len() > 0 ==>
                padded(s, f, c) == seq![before(x, f, c)[0]] + padded(seq![before(x, f, c)[1]] + s, f.insert(of(x)), c)
        &&& !plain(x, c.ctl) && before(x, f, c).len() == 0 && behind(x, t, f, c).len() > 0 ==>
                padded(s, f, c) == seq![x] + padded(seq![behind(x, t, f, c)[0]] + (seq![behind(x, t, f, c)[1]] + t), flagged(x, f, c), c)
    })
{
    broadcast use icats;
    let s = seq![x] + t;
    let g = f.insert(of(x));
    assert(s.skip(1) =~= t); assert(s[0] == x);
    if !plain(x, c.ctl) && before(x, f, c).len() > 0 {
        let b = before(x, f, c);
        assert(b =~= seq![b[0]] + seq![b[1]]);
        assert(behind(x, t, f, c) == behind(x, t, g, c));
        assert(padded(s, g, c) == seq![x] + (behind(x, t, g, c) + padded(t, g, c)));
        lemma_zero(b[1], s, g, c);
    } else if !plain(x, c.ctl) && behind(x, t, f, c).len() > 0 {
        let b = behind(x, t, f, c);
        assert(b =~= seq![b[0]] + seq![b[1]]);
        lemma_zero(b[1], t, flagged(x, f, c), c); lemma_zero(b[0], seq![b[1]] + t, flagged(x, f, c), c);
    }
}
pub proof fn lemma_none(f: Set<u64>, c: How)
    ensures all_ok(Seq::empty()), padded(Seq::empty(), f, c).len() == 0
{}
pub open spec fn all_ok(s: Seq<Item>) -> bool { forall|i: int| 0 <= i < s.len() ==> tel(#[trigger] s[i]).ok() }
pub broadcast proof fn lemma_ok(x: Item, t: Seq<Item>)
    ensures #[trigger] all_ok(seq![x] + t) == (tel(x).ok() && all_ok(t))
{
    let s = seq![x] + t;
    assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i + 1]);
    assert(s[0] == x);
    if tel(x).ok() && all_ok(t) { assert forall|i: int| 0 <= i < s.len() implies tel(#[trigger] s[i]).ok() by { if i > 0 { assert(s[i] == t[i - 1]); } } }
}
pub ghost struct Step { pub yields: Item, pub left: Seq<Item>, pub flags: Set<u64> }
pub open spec fn step(x: Item, t: Seq<Item>, f: Set<u64>, c: How) -> Step {
    if plain(x, c.ctl) { Step { yields: x, left: t, flags: f } }
    else if newer(x, f, c) && gap(at(x), c.last[of(x)] as int, c.span) {
        Step { yields: Item::Zero(tel(x), up(c.last[of(x)] as int)), left: seq![Item::Zero(tel(x), down(at(x)))] + (seq![x] + t), flags: f.insert(of(x)) }
    }
    else if !late(x, f, c) && t.len() > 0 && of(t[0]) == of(x) && gap(at(x), at(t[0]), c.span) {
        Step { yields: x, left: seq![Item::Zero(tel(x), up(at(x)))] + (seq![Item::Zero(tel(t[0]), down(at(t[0])))] + t), flags: flagged(x, f, c) }
    }
    else { Step { yields: x, left: t, flags: flagged(x, f, c) } }
}
pub proof fn lemma_step(x: Item, t: Seq<Item>, f: Set<u64>, c: How)
    requires all_ok(seq![x] + t)
    ensures ({
        let n = step(x, t, f, c);
        padded(seq![x] + t, f, c) == seq![n.yields] + padded(n.left, n.flags, c) && tel(n.yields).ok() && all_ok(n.left)
    })
{
    broadcast use lemma_ok;
    lemma_unfold(x, t, f, c);
    if t.len() > 0 { assert(t =~= seq![t[0]] + t.skip(1)); }
}
impl<'a> Padding<'a> {
    /// what it has still to work through
    pub open spec fn items(&self) -> Seq<Item> { stacked(self.emit_q@) + points(self.orig.rest()) }
    pub open spec fn how(&self) -> How { How { span: self.span as int, last: self.last_seen.map(), ctl: self.pad_control } }
    /// what it will yield
    pub open spec fn due(&self) -> Seq<Item> { padded(self.items(), self.flush_padded.set(), self.how()) }
    pub open spec fn good(&self) -> bool {
        self.span > 0 && self.orig.good() && all_ok(self.items())
    }
}
/*@ fn src/sink/wavefront.rs padding
ret: r
spec:
    requires span > 0, xs.good(), forall|i: int| 0 <= i < xs.rest().len() ==> (#[trigger] xs.rest()[i]).ok()
    ensures r.good(), r.due() == padded(points(xs.rest()), Set::empty(), How { span: span as int, last: last_seen.map(), ctl: pad_control }), r.last_seen == last_seen, r.pad_control == pad_control, r.span == span,
at fn-start:
    proof { assert(Seq::<Item>::empty() + points(xs.rest()) =~= points(xs.rest())); assert(stacked(Seq::<Pad>::empty()) =~= Seq::<Item>::empty()); }
@*/
impl<'a> Padding<'a> {
/*@ fn src/sink/wavefront.rs Padding.end_of_sequence
ret: r
spec:
    requires old(self).span > 0, pok(x)
    ensures
        final(self).span == old(self).span, final(self).orig == old(self).orig, final(self).last_seen == old(self).last_seen, final(self).pad_control == old(self).pad_control,
        ({
            let i = item(x); let c = old(self).how(); let f = old(self).flush_padded.set();
            let g = if plain(i, c.ctl) { f } else { flagged(i, f, c) };
            let b = if plain(i, c.ctl) { Seq::<Item>::empty() } else { before(i, f, c) };
            &&& pok(r) && final(self).flush_padded.set() == g
            &&& b.len() == 0 ==> item(r) == i && final(self).emit_q == old(self).emit_q
            &&& b.len() > 0 ==> item(r) == b[0] && stacked(final(self).emit_q@) == seq![b[1]] + (seq![i] + stacked(old(self).emit_q@))
        }),
at fn-start:
    broadcast use lemma_stack;
@*/
/*@ fn src/sink/wavefront.rs Iterator@Padding.next
ret: r
rw `self.orig.next().map(|$x| $*e)` => `(match self.orig.next() { Some($x) => Some($*e), None => None })`
rw `Self::Item` => `Pad<'a>`
spec:
    requires old(self).good()
    ensures
        final(self).good(), final(self).how() == old(self).how(),
        match r {
            Some(p) => pok(p) && old(self).due() == seq![item(p)] + final(self).due(),
            None => old(self).due().len() == 0,
        },
at fn-start:
    hide(padded); hide(all_ok); hide(stacked); hide(points); hide(gap); hide(series3); hide(kind_of);
    let ghost s0 = self.items();
    let ghost (q0, t0) = (self.emit_q@, self.orig.rest());
at before `let next_y`:
    let ghost (q1, t1) = (self.emit_q@, self.orig.rest());
    let ghost s1 = stacked(q1) + points(t1);
    proof { assert(s0 == stacked(q0) + points(t0)); assert(pulled(q0, t0, next_x, q1, t1)); lemma_pulled(q0, t0, next_x, q1, t1); }
at before `match (next_x, next_y)`:
    let ghost s2 = self.items();
    let ghost (c, f) = (self.how(), self.flush_padded.set());
    proof {
        let (q2, t2) = (self.emit_q@, self.orig.rest());
        assert(pulled(q1, t1, next_y, q2, t2)); lemma_pulled(q1, t1, next_y, q2, t2);
        lemma_none(f, c);
        if next_x is None && next_y is Some { assert((seq![item(next_y->0)] + s2).len() > 0); }
        if next_x is Some {
            let x = item(next_x->0);
            lemma_step(x, s1, f, c);
            lemma_ok(x, s1);
            if next_y is Some { lemma_ok(item(next_y->0), s2); assert((seq![item(next_y->0)] + s2)[0] == item(next_y->0)); }
        }
    }
    broadcast use {lemma_stack, lemma_icat};
@*/
}

// ================================================================ text
pub type Pairs = Seq<(Text, Text)>;
pub open spec fn pairs(v: Seq<(String, String)>) -> Pairs { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub type TagIter = Vec<(String, String)>;
#[verifier::external_body]
pub fn pop_first(v: &mut TagIter) -> (r: Option<(String, String)>)
    ensures match r {
        Some(p) => old(v)@.len() > 0 && p == old(v)@[0] && final(v)@ == old(v)@.skip(1),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ unimplemented!() }
/// the point's tags, with others laid over them (C03 proves which)
pub uninterp spec fn tel_tags(t: Telemetry, over: TagMap) -> Pairs;
/// where a histogram has its bins: at its bounds, of which there are some, and beyond
pub open spec fn finite(b: Seq<(Bound, usize)>) -> Seq<f64>
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { match b.last().0 { Bound::Finite(x) => finite(b.drop_last()).push(x), Bound::PosInf => finite(b.drop_last()) } } }
pub broadcast axiom fn ax_bins(h: Histogram<f64>)
    ensures #![trigger hist_bins(h)] finite(hist_bins(h)) == h.bounds(), h.bounds().len() > 0, ascending(h.bounds());
pub open spec fn mean_of(t: Telemetry) -> f64 { match t.value->0 { Value::Quantiles { ckms, sum } => (match ckms.cma_spec() { Some(m) => m, None => 0.0f64 }), _ => arbitrary() } }
impl Telemetry {
    #[verifier::external_body]
    pub fn tags(&self, over: &TagMap) -> (r: TagIter) ensures pairs(r@) == tel_tags(*self, *over) { unimplemented!() }
/*@ fn src/metric/telemetry.rs Telemetry.mean
ret: r
spec:
    requires self.ok()
    ensures self.agg() is Quant ==> r == mean_of(*self)
@*/
}
/// sorting what is sorted already
#[verifier::external_body]
pub fn sort_floats(v: &mut Vec<f64>)
    requires ascending(old(v)@)
    ensures final(v)@ == old(v)@
{ unimplemented!() }
impl SoftTelemetry {
/*@ fn src/metric/telemetry.rs SoftTelemetry.bounds
ret: r
rw `bounds.sort_by(|$a, $b| $*e);` => `let mut bounds = bounds; sort_floats(&mut bounds);`
rw `mut bounds: Vec<f64>` => `bounds: Vec<f64>`
spec:
    requires ascending(bounds@)
    ensures r.bounds is Some, r.bounds->0@ == bounds@, r == (SoftTelemetry { bounds: r.bounds, ..self })
@*/
}
#[verifier::opaque]
pub open spec fn kv(p: (Text, Text)) -> Text { p.0 + ("="@ + p.1) }
pub open spec fn more(p: Pairs) -> Text
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { more(p.drop_last()) + (" "@ + kv(p.last())) } }
#[verifier::opaque]
pub open spec fn tags_text(p: Pairs) -> Text { if p.len() == 0 { Seq::empty() } else { kv(p[0]) + more(p.skip(1)) } }
/*@ fn src/sink/wavefront.rs fmt_tags
rw `mut iter: TagIter` => `iter0: TagIter`
rw `iter.next()` => `pop_first(&mut iter)`
spec:
    ensures final(s)@ == old(s)@ + tags_text(pairs(iter0@))
at fn-start:
    let mut iter = iter0;
    proof { reveal(tags_text); reveal(kv); }
    broadcast use cats;
    let ghost p0 = pairs(iter0@);
loop 1 for iter it:
    invariant
        p0.len() > 0, pairs(it.seq()) == p0.skip(1),
        s@ == old(s)@ + (kv(p0[0]) + more(p0.skip(1).take(it.index() as int))),
at loop 1 before:
    proof { assert(pairs(iter@) =~= p0.skip(1)); assert(p0.skip(1).take(0) =~= Seq::empty()); }
at loop 1 start:
    broadcast use cats;
    proof { reveal(kv); assert(p0.skip(1).take(it.index() + 1).drop_last() =~= p0.skip(1).take(it.index() as int)); assert(p0.skip(1)[it.index() as int] == pairs(it.seq())[it.index() as int]); }
at loop 1 after:
    proof { assert(p0.skip(1).take(p0.len() - 1) =~= p0.skip(1)); }
@*/
/// what can be looked up by an order in which equals look alike
pub trait Ranked: Shown + Copy {
    fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(Ordering::Equal) ==> self.text() == o.text();
}
impl Ranked for f64 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &f64) -> (r: Option<Ordering>) { unimplemented!() }
}
impl Ranked for i64 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &i64) -> (r: Option<Ordering>) { unimplemented!() }
}
impl Ranked for usize {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &usize) -> (r: Option<Ordering>) { unimplemented!() }
}
/// slice::binary_search_by: what it finds is an equal, whatever the order of the rest
#[verifier::external_body]
pub fn lookup_by<T, F: Fn(&T) -> Ordering>(v: &Vec<T>, f: F) -> (r: Result<usize, usize>)
    requires forall|j: int| 0 <= j < v@.len() ==> f.requires((&#[trigger] v@[j],))
    ensures match r { Ok(i) => i < v@.len() && f.ensures((&v@[i as int],), Ordering::Equal), Err(i) => i <= v@.len() }
{ unimplemented!() }
pub open spec fn cached<T: Ranked>(c: Seq<(T, String)>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1@ == c[i].0.text() }
#[verifier::external_body]
pub fn copy_of(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
/*@ fn src/sink/wavefront.rs get_from_cache
sig:
    pub fn get_from_cache<T: Ranked>(cache: &mut Vec<(T, String)>, val: T) -> (r: String)
rw `cache.binary_search_by(|$h| $*e)` => `lookup_by(cache, |$h: &(T, String)| -> (o: Ordering) ensures o == Ordering::Equal ==> $h.0.text() == val.text() { $*e })`
rw `&cache[$i].1` => `copy_of(&cache[$i].1)`
rw `val.to_string()` => `val.shown()`
spec:
    requires cached(old(cache)@)
    ensures cached(final(cache)@), r@ == val.text()
@*/

// ================================================================ the sink
/// a connection
#[verifier::external_body]
pub struct TcpStream { _p: () }
/*@ item src/sink/wavefront.rs struct Wavefront
@*/
/*@ item src/sink/wavefront.rs struct WavefrontConfig
@*/
#[verifier::opaque]
pub open spec fn line(name: Text, v: Text, ts: i64, tags: Text) -> Text {
    name + (" "@ + (v + (" "@ + (text_int(ts as int) + (" "@ + (tags + "\n"@))))))
}
pub open spec fn upto(b: Bound) -> Text { match b { Bound::Finite(x) => text_f64(x), Bound::PosInf => "pos_inf"@ } }
/// a line for each bin, with the number of samples in it
pub open spec fn bins_lines(name: Text, ts: i64, tags: Text, b: Seq<(Bound, usize)>) -> Text
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { bins_lines(name, ts, tags, b.drop_last()) + line(name + ("_"@ + upto(b.last().0)), text_int(b.last().1 as int), ts, tags) } }
/// a line for each configured percentile
pub open spec fn percent_lines(t: Telemetry, tags: Text, p: Seq<(String, f64)>) -> Text
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { percent_lines(t, tags, p.drop_last()) + line(t.name@ + ("."@ + p.last().0@), text_f64(queried(t, p.last().1)), t.timestamp, tags) } }
/// the lines of a point
pub open spec fn value_lines(t: Telemetry, over: TagMap, p: Seq<(String, f64)>) -> Text {
    let tags = tags_text(tel_tags(t, over));
    match t.agg() {
        Agg::Sum(x) => line(t.name@, text_f64(x), t.timestamp, tags),
        Agg::Set(x) => line(t.name@, text_f64(x), t.timestamp, tags),
        Agg::Hist { .. } => bins_lines(t.name@, t.timestamp, tags, hist_bins(t.value->0->Histogram_0)),
        Agg::Quant { .. } => percent_lines(t, tags, p) + (line(t.name@ + ".count"@, text_int(n_of(t) as int), t.timestamp, tags) + line(t.name@ + ".mean"@, text_f64(mean_of(t)), t.timestamp, tags)),
    }
}
impl Wavefront {
/*@ fn src/sink/wavefront.rs Wavefront.fmt_val
rw `get_from_cache(&mut $c, $*v)` => `&get_from_cache($c, $*v)`
rw `mut time_cache: &mut Vec` => `time_cache: &mut Vec`
rw `mut count_cache: &mut Vec` => `count_cache: &mut Vec`
rw `mut value_cache: &mut Vec` => `value_cache: &mut Vec`
rw `for &($a, $b) in $c {` => `for ($a, $b) in $c {`
rw `tag_buf.clear();` => `tag_buf.wipe();`
spec:
    requires value.ok(), value.agg() is Quant ==> value.agg()->Quant_data.len() > 0, cached(old(time_cache)@), cached(old(count_cache)@), cached(old(value_cache)@)
    ensures
        cached(final(time_cache)@), cached(final(count_cache)@), cached(final(value_cache)@),
        final(self).stats@ == old(self).stats@ + value_lines(*value, old(self).tags, old(self).percentiles@),
        *final(self) == (Wavefront { stats: final(self).stats, ..*old(self) }),
at fn-start:
    broadcast use {cats, ax_query};
    let ghost s0 = self.stats@;
    let ghost w0 = *self;
    let ghost tg = tags_text(tel_tags(*value, self.tags));
    proof { reveal(line); assert forall|t: Text| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
loop 1 for iter it:
    invariant
        it.seq() == hb, tag_buf@ == tg, *self == (Wavefront { stats: self.stats, ..w0 }),
        cached(time_cache@), cached(count_cache@), cached(value_cache@),
        self.stats@ == s0 + bins_lines(value.name@, value.timestamp, tg, hb.take(it.index() as int)),
at loop 1 before:
    let ghost hb = bins@;
    proof { assert(hb.take(0) =~= Seq::empty()); }
at loop 1 start:
    broadcast use cats;
    let ghost s1 = self.stats@;
    let ghost i1 = it.index() as int;
    proof { assert(hb.take(i1 + 1).drop_last() =~= hb.take(i1)); assert(hb.take(i1 + 1).last() == hb[i1]); }
at loop 1 end:
    proof { reveal(line); assert(self.stats@ == s1 + line(value.name@ + ("_"@ + upto(hb[i1].0)), text_int(hb[i1].1 as int), value.timestamp, tg)); }
at loop 1 after:
    proof { assert(hb.take(hb.len() as int) =~= hb); }
loop 2 for iter it:
    invariant
        it.seq().len() == pc.len(), forall|i: int| 0 <= i < pc.len() ==> *(#[trigger] it.seq()[i]) == pc[i],
        tag_buf@ == tg, *self == (Wavefront { stats: self.stats, ..w0 }), value.ok(), value.agg() is Quant, value.agg()->Quant_data.len() > 0,
        cached(time_cache@), cached(count_cache@), cached(value_cache@),
        self.stats@ == s0 + percent_lines(*value, tg, pc.take(it.index() as int)),
at loop 2 before:
    let ghost pc = self.percentiles@;
    proof { assert(pc.take(0) =~= Seq::empty()); }
at loop 2 start:
    broadcast use {cats, ax_query};
    let ghost s2 = self.stats@;
    let ghost i2 = it.index() as int;
    proof { assert(pc.take(i2 + 1).drop_last() =~= pc.take(i2)); assert(pc.take(i2 + 1).last() == pc[i2]); }
at loop 2 end:
    proof { reveal(line); assert(self.stats@ == s2 + line(value.name@ + ("."@ + pc[i2].0@), text_f64(queried(*value, pc[i2].1)), value.timestamp, tg)); }
at loop 2 after:
    proof { assert(pc.take(pc.len() as int) =~= pc); }
@*/
}
/// A point of the same series, time and kind as `t` but of one sample, 0; a histogram in the bins it has.
pub open spec fn zeroed(t: Telemetry, ts: i64, z: Telemetry) -> bool {
    &&& z.ok() && z.name == t.name && z.tags == t.tags && z.timestamp == ts
    &&& z.override_count is None
    &&& z.agg() == match t.agg() {
        Agg::Set(_) => Agg::Set(0.0f64),
        Agg::Sum(_) => Agg::Sum(0.0f64),
        Agg::Hist { bounds, .. } => Agg::Hist { data: Multiset::empty().insert(0.0f64), bounds, sum: Some(0.0f64) },
        Agg::Quant { .. } => Agg::Quant { data: Multiset::empty().insert(0.0f64), sum: 0.0f64 },
    }
}
pub open spec fn shows(o: Item, z: Telemetry) -> bool { match o { Item::Point(t) => z == t, Item::Zero(t, ts) => zeroed(t, ts, z) } }
pub open spec fn show(out: Seq<Item>, zs: Seq<Telemetry>) -> bool { zs.len() == out.len() && forall|i: int| 0 <= i < out.len() ==> shows(out[i], #[trigger] zs[i]) }
pub open spec fn all_lines(zs: Seq<Telemetry>, over: TagMap, p: Seq<(String, f64)>) -> Text
    decreases zs.len()
{ if zs.len() == 0 { Seq::empty() } else { all_lines(zs.drop_last(), over, p) + value_lines(zs.last(), over, p) } }
/// the lines of all of these, in their order
pub open spec fn stated(out: Seq<Item>, over: TagMap, p: Seq<(String, f64)>, t: Text) -> bool { exists|zs: Seq<Telemetry>| #[trigger] show(out, zs) && t == all_lines(zs, over, p) }
/// when each series was last in it
pub open spec fn seen_of(out: Seq<Item>) -> Seen
    decreases out.len()
{ if out.len() == 0 { Map::empty() } else { seen_of(out.drop_last()).insert(of(out.last()), at(out.last()) as i64) } }
/// what was seen before, and what is seen now where that is later
pub open spec fn grown(a: Seen, b: Seen, c: Seen) -> bool {
    &&& c.dom() == a.dom().union(b.dom())
    &&& forall|k: u64| #[trigger] c.dom().contains(k) ==> c[k] == (if !b.dom().contains(k) { a[k] } else if a.dom().contains(k) && a[k] > b[k] { a[k] } else { b[k] })
}
/// in what is emitted, the last of a series is the latest, and none is later than what is then last seen of it
pub proof fn lemma_seen(out: Seq<Item>)
    requires climbing(out)
    ensures forall|i: int| 0 <= i < out.len() ==> seen_of(out).dom().contains(of(#[trigger] out[i])) && at(out[i]) <= seen_of(out)[of(out[i])]
    decreases out.len()
{
    if out.len() > 0 {
        let p = out.drop_last();
        assert(climbing(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() && of(#[trigger] p[i]) == of(#[trigger] p[j]) implies at(p[i]) <= at(p[j]) && (p[i] is Point || p[j] is Point ==> at(p[i]) < at(p[j])) by { assert(of(out[i]) == of(out[j])); } }
        lemma_seen(p);
        assert forall|i: int| 0 <= i < out.len() implies seen_of(out).dom().contains(of(#[trigger] out[i])) && at(out[i]) <= seen_of(out)[of(out[i])] by {
            if i < p.len() { assert(p[i] == out[i]); if of(out[i]) == of(out.last()) { assert(of(out[i]) == of(out[out.len() - 1])); } }
        }
    }
}
pub open spec fn regular_items(s: Seq<Item>) -> bool { forall|i: int| 0 <= i < s.len() ==> regular(tel(#[trigger] s[i])) }
pub proof fn lemma_regular_cat(a: Seq<Item>, b: Seq<Item>)
    requires regular_items(a), regular_items(b)
    ensures regular_items(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies regular(tel(#[trigger] (a + b)[i])) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_regular_padded(s: Seq<Item>, f: Set<u64>, c: How)
    requires regular_items(s)
    ensures regular_items(padded(s, f, c))
    decreases s.len()
{
    if s.len() > 0 {
        let x = s[0]; let r = s.skip(1);
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == s[i + 1]);
        assert(regular_items(r));
        let g = if plain(x, c.ctl) { f } else { flagged(x, f, c) };
        lemma_regular_padded(r, g, c);
        let p = padded(r, g, c);
        assert(regular_items(seq![x]));
        lemma_regular_cat(seq![x], p);
        if !plain(x, c.ctl) {
            if r.len() > 0 { assert(regular(tel(s[1]))); }
            assert(regular_items(behind(x, r, f, c))); assert(regular_items(before(x, f, c)));
            lemma_regular_cat(behind(x, r, f, c), p); lemma_regular_cat(seq![x], behind(x, r, f, c) + p);
            lemma_regular_cat(before(x, f, c), seq![x] + (behind(x, r, f, c) + p));
        }
    }
}
/// what a flush of this store writes
pub open spec fn written(b: Buckets, c: How) -> Seq<Item> { padded(points(flat(b.values@)), Set::empty(), c) }
/// What a flush writes: every point held, in order; and zeros, each of a series that is padded, after all
/// that was seen of it before, and in a second in which it has no point.
pub proof fn lemma_written(b: Buckets, c: How)
    requires store_ok(b), c.span > 0
    ensures
        reals(written(b, c)) == points(flat(b.values@)),
        climbing(written(b, c)),
        forall|i: int| 0 <= i < written(b, c).len() ==> well(#[trigger] written(b, c)[i], c),
        regular_items(written(b, c)),
        forall|i: int| 0 <= i < written(b, c).len() ==> at(#[trigger] written(b, c)[i]) <= seen_of(written(b, c))[of(written(b, c)[i])],
{
    lemma_stored_rising(b);
    let s = points(flat(b.values@));
    lemma_all_kept(s, Set::empty(), c);
    lemma_rising(s, Set::empty(), c);
    lemma_seen(written(b, c));
    assert(regular_items(s)) by { assert forall|i: int| 0 <= i < s.len() implies regular(tel(#[trigger] s[i])) by { assert(regular(flat(b.values@)[i])); } }
    lemma_regular_padded(s, Set::empty(), c);
    lemma_reals_all(s);
}
pub proof fn lemma_reals_all(s: Seq<Item>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Point
    ensures reals(s) == s
    decreases s.len()
{ if s.len() > 0 { assert(forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s.skip(1)[i] == s[i + 1]); lemma_reals_all(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(reals(s) =~= s); } }
#[verifier::external_body]
pub fn max_i64(a: i64, b: i64) -> (r: i64) ensures r == (if a > b { a } else { b }) { unimplemented!() }
impl Wavefront {
    pub open spec fn how(&self) -> How { How { span: self.bin_width as int, last: self.last_seen.map(), ctl: self.pad_control } }
    pub open spec fn good(&self) -> bool { store_ok(self.aggrs) && self.bin_width > 0 && self.aggrs.bin_width == self.bin_width }
    /// what a flush leaves, but for the text
    pub open spec fn flushed(a: Wavefront, b: Wavefront) -> bool {
        &&& b.good() && left_of(a.aggrs, b.aggrs) && grown(a.last_seen.map(), seen_of(written(a.aggrs, a.how())), b.last_seen.map())
        &&& b.tags == a.tags && b.percentiles == a.percentiles && b.pad_control == a.pad_control && b.bin_width == a.bin_width && b.age_threshold == a.age_threshold
        &&& b.host == a.host && b.port == a.port && b.flush_interval == a.flush_interval
    }
/*@ fn src/sink/wavefront.rs Wavefront.format_stats
attr: #[verifier::exec_allows_no_decreases_clause]
rw `Default::default()` => `HashMap::default()`
rw `for pad in padding($*a) {` => `let mut left_ = padding($*a); proof { done = Seq::empty(); all = left_.due(); } loop { let next_ = left_.next(); let pad = match next_ { Some(v_) => v_, None => break };`
rw `for &($a, $b) in $c {` => `for ($a, $b) in $c {`
rw `for (k, v) in tmp_last_seen {` => `let ghost now = tmp_last_seen.map(); let listed_ = tmp_last_seen.into_vec(); for (k, v) in listed_ {`
rw `cmp::max($*a)` => `max_i64($*a)`
rw `self.aggrs.add($*t);` => `let t_ = $*t; let ghost b_ = self.aggrs; proof { lemma_may_add(b_, t_); } self.aggrs.add(t_); proof { lemma_added(b_, self.aggrs, t_); }`
spec:
    requires old(self).good()
    ensures
        Self::flushed(*old(self), *final(self)), final(self).stream == old(self).stream, final(self).delivery_attempts == old(self).delivery_attempts,
        exists|t: Text| #[trigger] stated(written(old(self).aggrs, old(self).how()), old(self).tags, old(self).percentiles@, t) && final(self).stats@ == old(self).stats@ + t,
at fn-start:
    broadcast use {cats, vstd::multiset::group_multiset_axioms};
    let ghost w0 = *self;
    let ghost c = self.how();
    let ghost mut done = Seq::<Item>::empty();
    let ghost mut all = Seq::<Item>::empty();
    let ghost mut zs = Seq::<Telemetry>::empty();
    proof { lemma_written(w0.aggrs, c); lemma_stored_rising(w0.aggrs); }
loop 1 loop:
    invariant_except_break
        all == done + left_.due(),
    invariant
        left_.good(), all == written(w0.aggrs, c), regular_items(all),
        show(done, zs), tmp_last_seen.map() == seen_of(done),
        self.stats@ == w0.stats@ + all_lines(zs, w0.tags, w0.percentiles@),
        *self == (Wavefront { stats: self.stats, aggrs: self.aggrs, last_seen: self.last_seen, ..w0 }),
        store_ok(self.aggrs), self.bin_width > 0, self.aggrs.bin_width == self.bin_width,
        cached(time_cache@), cached(count_cache@), cached(value_cache@),
    ensures done == all
at loop 1 start:
    broadcast use {cats, vstd::multiset::group_multiset_axioms};
    let ghost due1 = left_.due();
    let ghost stats1 = self.stats@;
    let ghost (done1, zs1) = (done, zs);
at before `tmp_last_seen.insert(`:
    let ghost x = item(pad);
    proof {
        assert(all[done1.len() as int] == x);
        assert(regular(tel(x)));
        done = done1.push(x);
        assert(done.drop_last() =~= done1); assert(done.last() == x);
        assert(done1 + due1 =~= done + left_.due());
    }
at before `self.fmt_val(` #1:
    proof { assert(zeroed(tel(x), at(x) as i64, zero)); zs = zs1.push(zero); assert(zs.drop_last() =~= zs1); assert(zs.last() == zero); }
at before `match value.kind()`:
    proof { zs = zs1.push(*value); assert(zs.drop_last() =~= zs1); assert(zs.last() == *value); }
loop 2 for iter it:
    invariant
        it.seq() == hb, bounds@ == finite(hb.take(it.index() as int)),
at loop 2 before:
    let ghost hb = bins@;
    proof { assert(hb.take(0) =~= Seq::empty()); }
at loop 2 start:
    let ghost i2 = it.index() as int;
    proof { assert(hb.take(i2 + 1).drop_last() =~= hb.take(i2)); assert(hb.take(i2 + 1).last() == hb[i2]); }
at loop 2 after:
    broadcast use ax_bins;
    proof { assert(hb.take(hb.len() as int) =~= hb); }
loop 3 for iter it:
    invariant
        it.seq() == ls, listing(ls, now),
        forall|k: u64| #[trigger] last_seen.map().dom().contains(k) == (was.dom().contains(k) || exists|i: int| 0 <= i < it.index() && (#[trigger] ls[i]).0 == k),
        forall|k: u64| #[trigger] last_seen.map().dom().contains(k) ==> last_seen.map()[k] == (
            if exists|i: int| 0 <= i < it.index() && (#[trigger] ls[i]).0 == k { if was.dom().contains(k) && was[k] > now[k] { was[k] } else { now[k] } } else { was[k] }),
at loop 3 before:
    let ghost was = last_seen.map();
    let ghost ls = listed_@;
at loop 3 after:
    proof { assert(last_seen.map().dom() =~= was.dom().union(now.dom())); assert(grown(was, now, last_seen.map())); }
at before `self.aggrs.reset()`:
    let ghost ag0 = self.aggrs;
at fn-end:
    proof { lemma_kept(ag0, self.aggrs); assert(stated(written(w0.aggrs, c), w0.tags, w0.percentiles@, all_lines(zs, w0.tags, w0.percentiles@))); }
@*/
}
#[verifier::external_body]
pub fn connect(host: &String, port: u16) -> (r: Option<TcpStream>) { unimplemented!() }
/// What connections to the proxy have taken: the texts written without an error, in order.
pub struct Wire { pub ghost whole: Seq<Text> }
impl TcpStream {
    #[verifier::external_body]
    pub fn write_all(&mut self, t: &String, wire: &mut Wire) -> (r: Result<(), ()>)
        ensures final(wire).whole == (if r is Ok { old(wire).whole.push(t@) } else { old(wire).whole })
    { unimplemented!() }
}
pub fn must_be(b: bool) requires b {}
/*@ item src/util.rs enum Valve
@*/
/*@ fn src/time.rs distance
ret: r
rw `i128::from($*a)` => `($*a as i128)`
rw `now()` => `time::now()`
spec:
    ensures exists|now: i64| #[trigger] clock_reads(now) && r == dist(time as int, now as int)
@*/
/// kept out for its age
pub open spec fn turned_away(a: Wavefront, t: Telemetry, b: Wavefront) -> bool {
    b == a && a.age_threshold is Some && exists|now: i64| #[trigger] clock_reads(now) && dist(t.timestamp as int, now as int) > a.age_threshold->0
}
/// added to the store, and to no other series than its own
pub open spec fn taken_in(a: Wavefront, t: Telemetry, b: Wavefront) -> bool {
    &&& b == (Wavefront { aggrs: b.aggrs, ..a })
    &&& a.age_threshold is Some ==> exists|now: i64| #[trigger] clock_reads(now) && dist(t.timestamp as int, now as int) <= a.age_threshold->0
    &&& added(a.aggrs.series(t.hash_spec()), b.aggrs.series(t.hash_spec()), t, a.bin_width as int)
    &&& forall|k: u64| k != t.hash_spec() ==> #[trigger] b.aggrs.holds_key(k) == a.aggrs.holds_key(k)
    &&& forall|k: u64| k != t.hash_spec() ==> #[trigger] b.aggrs.series(k) == a.aggrs.series(k)
}
impl Wavefront {
    pub open spec fn ready(&self) -> bool { self.good() && self.stats@ == Seq::<char>::empty() }
/*@ fn src/sink/wavefront.rs Sink@Wavefront.init
sig:
    pub fn init(config: WavefrontConfig) -> (r: Wavefront)
rw `if config.host == $*c { panic!($*a); }` => ``
rw `Self` => `Wavefront`
spec:
    requires config.bin_width > 0
    ensures
        r.ready(), r.aggrs.keys@.len() == 0, r.last_seen.map() == Map::<u64, i64>::empty(), r.delivery_attempts == 0,
        r.bin_width == config.bin_width, r.host == config.host, r.port == config.port, r.percentiles == config.percentiles,
        r.tags == config.tags, r.flush_interval == config.flush_interval, r.pad_control == config.pad_control, r.age_threshold == config.age_threshold,
@*/
/*@ fn src/sink/wavefront.rs Sink@Wavefront.flush_interval
ret: r
spec:
    ensures r == Some(self.flush_interval)
@*/
/*@ fn src/sink/wavefront.rs Sink@Wavefront.deliver
rw `i128::from($a)` => `($a as i128)`
rw `time::distance($*a)` => `distance($*a)`
rw `self.aggrs.add($*t);` => `proof { lemma_may_add(a0.aggrs, telem); } self.aggrs.add($*t); proof { lemma_added(a0.aggrs, self.aggrs, telem); assert(taken_in(a0, telem, *self)); }`
spec:
    requires old(self).ready(), regular(telem)
    ensures
        final(self).ready(),
        // a point too far from the clock is dropped, any other is added to the store
        turned_away(*old(self), telem, *final(self)) || taken_in(*old(self), telem, *final(self)),
at fn-start:
    let ghost a0 = *self;
@*/
/*@ fn src/sink/wavefront.rs Sink@Wavefront.valve_state
ret: r
spec:
    requires self.good()
    ensures r == (if sat(total(self.aggrs.values@)) > 10_000 { Valve::Closed } else { Valve::Open })
@*/
/*@ fn src/sink/wavefront.rs Sink@Wavefront.flush
sig:
    pub fn flush(&mut self, wire: &mut Wire)
attr: #[verifier::exec_allows_no_decreases_clause]
rw `stream.write_all(self.stats.as_bytes())` => `stream.write_all(&self.stats, wire)`
rw `self.stats.clear();` => `self.stats.wipe();`
rw `time::delay($*a);` => ``
spec:
    requires old(self).ready()
    ensures
        final(self).ready(), Self::flushed(*old(self), *final(self)), final(self).delivery_attempts == 0,
        // the lines of all that is held have been written whole, once
        exists|t: Text| #[trigger] stated(written(old(self).aggrs, old(self).how()), old(self).tags, old(self).percentiles@, t) && final(wire).whole == old(wire).whole.push(t),
at fn-start:
    let ghost a0 = *self;
    let ghost w0 = wire.whole;
    broadcast use cats;
    proof { assert forall|t: Text| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
loop 1 loop:
    invariant
        a0 == *old(self), w0 == old(wire).whole, Self::flushed(a0, *self), self.aggrs == a1, self.stats@ == t1, wire.whole == w0, store_ok(a0.aggrs),
        stated(written(a0.aggrs, a0.how()), a0.tags, a0.percentiles@, t1),
at loop 1 before:
    let ghost a1 = self.aggrs;
    let ghost t1 = self.stats@;
at before `self.stats.wipe()`:
    proof { lemma_kept(a1, self.aggrs); lemma_kept_twice(a0.aggrs, a1, self.aggrs); }
@*/
/*@ fn src/sink/wavefront.rs Sink@Wavefront.shutdown
sig:
    pub fn shutdown(self, wire: &mut Wire)
rw `self.flush()` => `self.flush(wire)`
spec:
    requires self.ready()
    ensures exists|t: Text| #[trigger] stated(written(self.aggrs, self.how()), self.tags, self.percentiles@, t) && final(wire).whole == old(wire).whole.push(t),
@*/
}
fn main() {}
} // verus!
