// the aggregation store (src/buckets.rs)
impl Clone for Telemetry {
    // derive(Clone), over sketches whose own clones hold the same samples
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r.name == self.name, r.tags == self.tags, r.persist == self.persist, r.timestamp == self.timestamp,
            r.value is Some == self.value is Some, r.agg() == self.agg(),
    { unimplemented!() }
}
/// the hash of name and tags (computed by the standard hasher; equal name and tags hash alike)
pub uninterp spec fn hash_of(name: String, tags: Option<TagMap>) -> u64;
// what `cmp_tagmap` and the string comparison say of equals
#[verifier::external_body]
pub fn cmp_name(a: &String, b: &String) -> (r: Option<Ordering>)
    ensures *a == *b ==> r == Some(Ordering::Equal), r is Some
{ unimplemented!() }
#[verifier::external_body]
pub fn cmp_tagmap(a: &Option<TagMap>, b: &Option<TagMap>) -> (r: Option<Ordering>)
    ensures *a == *b ==> r == Some(Ordering::Equal), r is Some
{ unimplemented!() }

/// the bin a point falls in (Rust division, towards zero)
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
impl Telemetry {
    pub open spec fn hash_spec(&self) -> u64 { hash_of(self.name, self.tags) }
    pub open spec fn same_series(&self, o: &Telemetry) -> bool { self.name == o.name && self.tags == o.tags }
    #[verifier::external_body]
    pub fn name_tag_hash(&self) -> (r: u64) ensures r == self.hash_spec() { unimplemented!() }
/*@ fn src/metric/telemetry.rs Telemetry.within
ret: r
rw `self.name.partial_cmp(&other.name)` => `cmp_name(&self.name, &other.name)`
rw `lhs_bin.cmp(&rhs_bin)` => `cmp_i64(lhs_bin, rhs_bin)`
spec:
    requires span > 0, self.same_series(other)
    ensures r == order(tdiv(self.timestamp as int, span as int), tdiv(other.timestamp as int, span as int))
@*/
}
#[verifier::external_body]
pub fn cmp_i64(a: i64, b: i64) -> (r: Ordering) ensures r == order(a as int, b as int) { a.cmp(&b) }
#[verifier::external_body]
pub fn cmp_u64(a: &u64, b: &u64) -> (r: Option<Ordering>) ensures r == Some(order(*a as int, *b as int)) { a.partial_cmp(b) }
/// IndexMut on a vector
#[verifier::external_body]
pub fn at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ &mut v[i] }
pub assume_specification<T> [ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

/*@ item src/buckets.rs struct Buckets
@*/
/*@ item src/buckets.rs struct Iter
@*/

/// the points of one series, in strictly ascending time bins
#[verifier::opaque]
pub open spec fn bins_ok(v: Seq<Telemetry>, key: u64, w: int) -> bool {
    &&& forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).hash_spec() == key && v[j].ok() && v[j].same_series(&v[0])
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> tdiv((#[trigger] v[j]).timestamp as int, w) < tdiv((#[trigger] v[k]).timestamp as int, w)
}
pub open spec fn total(vals: Seq<Vec<Telemetry>>) -> nat
    decreases vals.len()
{
    if vals.len() == 0 { 0 } else { total(vals.drop_last()) + vals.last()@.len() }
}
pub open spec fn sat(n: nat) -> u64 { if n <= u64::MAX { n as u64 } else { u64::MAX } }
pub proof fn lemma_total_update(vals: Seq<Vec<Telemetry>>, i: int, v: Vec<Telemetry>)
    requires 0 <= i < vals.len()
    ensures total(vals.update(i, v)) + vals[i]@.len() == total(vals) + v@.len()
    decreases vals.len()
{
    let n = vals.update(i, v);
    if i == vals.len() - 1 {
        assert(n.drop_last() =~= vals.drop_last());
    } else {
        lemma_total_update(vals.drop_last(), i, v);
        assert(n.drop_last() =~= vals.drop_last().update(i, v));
    }
}
pub proof fn lemma_total_insert(vals: Seq<Vec<Telemetry>>, i: int, v: Vec<Telemetry>)
    requires 0 <= i <= vals.len()
    ensures total(vals.insert(i, v)) == total(vals) + v@.len()
    decreases vals.len()
{
    let n = vals.insert(i, v);
    if i == vals.len() {
        assert(n.drop_last() =~= vals);
    } else {
        lemma_total_insert(vals.drop_last(), i, v);
        assert(n.drop_last() =~= vals.drop_last().insert(i, v));
    }
}
impl Buckets {
    pub open spec fn wf(&self) -> bool {
        &&& self.bin_width > 0
        &&& self.keys@.len() == self.values@.len()
        &&& forall|i: int, j: int| 0 <= i < j < self.keys@.len() ==> (#[trigger] self.keys@[i]) < (#[trigger] self.keys@[j])
        &&& forall|i: int| 0 <= i < self.values@.len() ==> bins_ok((#[trigger] self.values@[i])@, self.keys@[i], self.bin_width as int)
        &&& self.count == sat(total(self.values@))
    }
    /// no two series met so far collide in the 64-bit hash
    pub open spec fn no_collision(&self, value: Telemetry) -> bool {
        forall|i: int, j: int| 0 <= i < self.values@.len() && 0 <= j < (#[trigger] self.values@[i])@.len()
            && (#[trigger] self.values@[i]@[j]).hash_spec() == value.hash_spec() ==> self.values@[i]@[j].same_series(&value)
    }
    /// every histogram of the series has the bins of the value
    pub open spec fn same_bins(&self, value: Telemetry) -> bool {
        forall|i: int, j: int| 0 <= i < self.values@.len() && 0 <= j < (#[trigger] self.values@[i])@.len()
            && (#[trigger] self.values@[i]@[j]).hash_spec() == value.hash_spec() ==> compatible(self.values@[i]@[j].agg(), value.agg())
    }
    pub open spec fn holds_key(&self, k: u64) -> bool { exists|i: int| 0 <= i < self.keys@.len() && self.keys@[i] == k }
    /// the points of the series with this hash
    pub open spec fn series(&self, k: u64) -> Seq<Telemetry> {
        if self.holds_key(k) { self.values@[choose|i: int| 0 <= i < self.keys@.len() && self.keys@[i] == k]@ } else { Seq::empty() }
    }
}
pub proof fn lemma_series(b: Buckets, i: int)
    requires b.wf(), 0 <= i < b.keys@.len()
    ensures b.holds_key(b.keys@[i]), b.series(b.keys@[i]) == b.values@[i]@
{
    let k = b.keys@[i];
    let c = choose|c: int| 0 <= c < b.keys@.len() && b.keys@[c] == k;
    if c < i { assert(b.keys@[c] < b.keys@[i]); } else if i < c { assert(b.keys@[i] < b.keys@[c]); }
}

/// What a series is after one more point: merged into the point of its bin, or a point of its own
/// there, which a persistent one starts from the point before it.
pub open spec fn added(v: Seq<Telemetry>, n: Seq<Telemetry>, value: Telemetry, w: int) -> bool {
    let b = tdiv(value.timestamp as int, w);
    ||| exists|i: int| #![trigger v[i]] 0 <= i < v.len() && tdiv(v[i].timestamp as int, w) == b && n.len() == v.len()
            && merged(v[i], value, n[i]) && (forall|j: int| 0 <= j < v.len() && j != i ==> #[trigger] n[j] == v[j])
    ||| (forall|i: int| 0 <= i < v.len() ==> tdiv((#[trigger] v[i]).timestamp as int, w) != b)
        && exists|i: int| 0 <= i <= v.len() && #[trigger] n.remove(i) == v && n.len() == v.len() + 1
            && (forall|j: int| 0 <= j < i ==> tdiv((#[trigger] v[j]).timestamp as int, w) < b)
            && (if value.persist && i > 0 { carried(v[i - 1], value, n[i]) } else { n[i] == value })
}
pub open spec fn merged(old: Telemetry, value: Telemetry, new: Telemetry) -> bool {
    &&& new.ok() && new.agg() == plus(old.agg(), value.agg())
    &&& new.persist == value.persist
    &&& new.same_series(&old) && new.timestamp == old.timestamp
}
pub open spec fn carried(prev: Telemetry, value: Telemetry, new: Telemetry) -> bool {
    &&& new.ok() && new.agg() == plus(prev.agg(), value.agg())
    &&& new.persist
    &&& new.same_series(&prev) && new.timestamp == value.timestamp
}
pub open spec fn cmps_keys(keys: Seq<u64>, k: u64) -> Seq<Ordering> { Seq::new(keys.len(), |j: int| order(keys[j] as int, k as int)) }
pub open spec fn cmps_bins(v: Seq<Telemetry>, value: Telemetry, w: int) -> Seq<Ordering> {
    Seq::new(v.len(), |j: int| order(tdiv(v[j].timestamp as int, w), tdiv(value.timestamp as int, w)))
}

/// `v` with the new point worked in is again in order
pub proof fn lemma_bins_insert(v: Seq<Telemetry>, n: Seq<Telemetry>, i: int, key: u64, w: int)
    requires bins_ok(v, key, w), 0 <= i <= v.len(), n == v.insert(i, n[i]),
        n[i].ok(), n[i].hash_spec() == key, forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).same_series(&n[i]),
        forall|j: int| 0 <= j < i ==> tdiv((#[trigger] v[j]).timestamp as int, w) < tdiv(n[i].timestamp as int, w),
        forall|j: int| i <= j < v.len() ==> tdiv((#[trigger] v[j]).timestamp as int, w) > tdiv(n[i].timestamp as int, w),
    ensures bins_ok(n, key, w)
{
    reveal(bins_ok);
    assert forall|a: int| 0 <= a < n.len() implies #[trigger] n[a] == (if a < i { v[a] } else if a == i { n[i] } else { v[a - 1] }) by {}
    assert forall|a: int, b: int| 0 <= a < b < n.len() implies tdiv((#[trigger] n[a]).timestamp as int, w) < tdiv((#[trigger] n[b]).timestamp as int, w) by {
        if a != i && b != i {
            let x = if a < i { a } else { a - 1 };
            let y = if b < i { b } else { b - 1 };
            assert(tdiv(v[x].timestamp as int, w) < tdiv(v[y].timestamp as int, w));
        }
    }
}
pub proof fn lemma_bins_merge(v: Seq<Telemetry>, n: Seq<Telemetry>, i: int, key: u64, w: int)
    requires bins_ok(v, key, w), 0 <= i < v.len(), n == v.update(i, n[i]),
        n[i].ok(), n[i].same_series(&v[i]), n[i].timestamp == v[i].timestamp
    ensures bins_ok(n, key, w)
{
    reveal(bins_ok);
    assert(n[i].hash_spec() == v[i].hash_spec());
    assert forall|a: int, b: int| 0 <= a < b < n.len() implies tdiv((#[trigger] n[a]).timestamp as int, w) < tdiv((#[trigger] n[b]).timestamp as int, w) by {
        assert(tdiv(v[a].timestamp as int, w) < tdiv(v[b].timestamp as int, w));
    }
}

/// finding the series, or making room for it
pub open spec fn found(b0: Buckets, keys1: Seq<u64>, vals1: Seq<Vec<Telemetry>>, ki: int, key: u64) -> bool {
    &&& 0 <= ki < keys1.len() && keys1[ki] == key
    &&& keys1 == b0.keys@ && vals1 == b0.values@
        || keys1 == b0.keys@.insert(ki, key) && vals1 == b0.values@.insert(ki, vals1[ki]) && vals1[ki]@.len() == 0 && ki <= b0.keys@.len()
            && (forall|j: int| 0 <= j < ki ==> (#[trigger] b0.keys@[j]) < key) && (forall|j: int| ki <= j < b0.keys@.len() ==> (#[trigger] b0.keys@[j]) > key)
}
pub proof fn lemma_found(b0: Buckets, keys1: Seq<u64>, vals1: Seq<Vec<Telemetry>>, ki: int, key: u64)
    requires b0.wf(), found(b0, keys1, vals1, ki, key)
    ensures
        vals1.len() == keys1.len(),
        forall|i: int, j: int| 0 <= i < j < keys1.len() ==> (#[trigger] keys1[i]) < (#[trigger] keys1[j]),
        forall|i: int| 0 <= i < keys1.len() ==> bins_ok((#[trigger] vals1[i])@, keys1[i], b0.bin_width as int),
        total(vals1) == total(b0.values@),
        b0.series(key) == vals1[ki]@,
        forall|k: u64| k != key ==> (#[trigger] b0.holds_key(k)) == (exists|i: int| 0 <= i < keys1.len() && keys1[i] == k),
        forall|k: u64, i: int| k != key && 0 <= i < keys1.len() && #[trigger] keys1[i] == k ==> #[trigger] b0.series(k) == vals1[i]@,
{
    reveal(bins_ok);
    if keys1 == b0.keys@ && vals1 == b0.values@ {
        lemma_series(b0, ki);
        assert forall|k: u64, i: int| k != key && 0 <= i < keys1.len() && #[trigger] keys1[i] == k implies #[trigger] b0.series(k) == vals1[i]@ by { lemma_series(b0, i); }
    } else {
        lemma_total_insert(b0.values@, ki, vals1[ki]);
        assert(!b0.holds_key(key));
        assert(b0.series(key) =~= vals1[ki]@);
        assert forall|i: int| 0 <= i < keys1.len() implies #[trigger] keys1[i] == (if i < ki { b0.keys@[i] } else if i == ki { key } else { b0.keys@[i - 1] })
            && vals1[i] == (if i < ki { b0.values@[i] } else if i == ki { vals1[ki] } else { b0.values@[i - 1] }) by {}
        assert forall|i: int, j: int| 0 <= i < j < keys1.len() implies (#[trigger] keys1[i]) < (#[trigger] keys1[j]) by {
            let x = if i < ki { i } else { i - 1 };
            let y = if j < ki { j } else { j - 1 };
            if i != ki && j != ki { assert(b0.keys@[x] < b0.keys@[y]); }
        }
        assert forall|i: int| 0 <= i < keys1.len() implies bins_ok((#[trigger] vals1[i])@, keys1[i], b0.bin_width as int) by {
            if i < ki { assert(bins_ok(b0.values@[i]@, b0.keys@[i], b0.bin_width as int)); }
            else if i > ki { assert(bins_ok(b0.values@[i - 1]@, b0.keys@[i - 1], b0.bin_width as int)); }
        }
        assert forall|k: u64| k != key implies (#[trigger] b0.holds_key(k)) == (exists|i: int| 0 <= i < keys1.len() && keys1[i] == k) by {
            if b0.holds_key(k) {
                let c = choose|c: int| 0 <= c < b0.keys@.len() && b0.keys@[c] == k;
                let d = if c < ki { c } else { c + 1 };
                assert(keys1[d] == k);
            }
            if exists|i: int| 0 <= i < keys1.len() && keys1[i] == k {
                let c = choose|c: int| 0 <= c < keys1.len() && keys1[c] == k;
                let d = if c < ki { c } else { c - 1 };
                assert(b0.keys@[d] == k);
            }
        }
        assert forall|k: u64, i: int| k != key && 0 <= i < keys1.len() && #[trigger] keys1[i] == k implies #[trigger] b0.series(k) == vals1[i]@ by {
            let d = if i < ki { i } else { i - 1 };
            lemma_series(b0, d);
        }
    }
}
pub proof fn lemma_same_elsewhere(b0: Buckets, b1: Buckets, ki: int, key: u64, vals1: Seq<Vec<Telemetry>>)
    requires b0.wf(), b1.wf(), found(b0, b1.keys@, vals1, ki, key), b1.values@ == vals1.update(ki, b1.values@[ki])
    ensures
        forall|k: u64| k != key ==> #[trigger] b1.holds_key(k) == b0.holds_key(k),
        forall|k: u64| k != key ==> #[trigger] b1.series(k) == b0.series(k),
{
    lemma_found(b0, b1.keys@, vals1, ki, key);
    assert forall|k: u64| k != key implies #[trigger] b1.series(k) == b0.series(k) by {
        if b1.holds_key(k) {
            let i = choose|i: int| 0 <= i < b1.keys@.len() && b1.keys@[i] == k;
            lemma_series(b1, i);
            assert(b1.keys@[i] == k);
            assert(b1.values@[i] == vals1[i]);
        } else {
            assert(!b0.holds_key(k));
        }
    }
}

pub proof fn lemma_cmps_keys(keys: Seq<u64>, key: u64)
    requires forall|i: int, j: int| 0 <= i < j < keys.len() ==> (#[trigger] keys[i]) < (#[trigger] keys[j])
    ensures ({
        let c = cmps_keys(keys, key);
        &&& forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Greater ==> #[trigger] c[k] == Ordering::Greater
        &&& forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Equal ==> #[trigger] c[k] != Ordering::Less
    })
{
    let c = cmps_keys(keys, key);
    assert forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Greater implies #[trigger] c[k] == Ordering::Greater by { assert(keys[j] < keys[k]); }
    assert forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Equal implies #[trigger] c[k] != Ordering::Less by { assert(keys[j] < keys[k]); }
}
/// what the search for the key says
pub open spec fn searched(keys0: Seq<u64>, key: u64, ki: int, here: bool) -> bool {
    let c = cmps_keys(keys0, key);
    if here { 0 <= ki < c.len() && c[ki] == Ordering::Equal } else {
        0 <= ki <= c.len() && (forall|j: int| 0 <= j < ki ==> #[trigger] c[j] == Ordering::Less) && (forall|j: int| ki <= j < c.len() ==> #[trigger] c[j] == Ordering::Greater)
    }
}
pub proof fn lemma_before(b0: Buckets, keys1: Seq<u64>, vals1: Seq<Vec<Telemetry>>, ki: int, value: Telemetry)
    requires
        b0.wf(), b0.no_collision(value), b0.same_bins(value),
        searched(b0.keys@, value.hash_spec(), ki, keys1.len() == b0.keys@.len()),
        keys1 == b0.keys@ && vals1 == b0.values@
            || keys1 == b0.keys@.insert(ki, value.hash_spec()) && vals1 == b0.values@.insert(ki, vals1[ki]) && vals1[ki]@.len() == 0,
    ensures
        found(b0, keys1, vals1, ki, value.hash_spec()),
        forall|j: int| 0 <= j < vals1[ki]@.len() ==> (#[trigger] vals1[ki]@[j]).same_series(&value) && vals1[ki]@[j].ok() && compatible(vals1[ki]@[j].agg(), value.agg()),
        ({
            let c = cmps_bins(vals1[ki]@, value, b0.bin_width as int);
            &&& forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Greater ==> #[trigger] c[k] == Ordering::Greater
            &&& forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Equal ==> #[trigger] c[k] != Ordering::Less
        }),
{
    reveal(bins_ok);
    let key0 = value.hash_spec();
    let ck = cmps_keys(b0.keys@, key0);
    let w = b0.bin_width as int;
    let v0 = vals1[ki]@;
    if keys1.len() != b0.keys@.len() {
        assert forall|j: int| 0 <= j < ki implies (#[trigger] b0.keys@[j]) < key0 by { assert(ck[j] == Ordering::Less); }
        assert forall|j: int| ki <= j < b0.keys@.len() implies (#[trigger] b0.keys@[j]) > key0 by { assert(ck[j] == Ordering::Greater); }
        assert(keys1[ki] == key0);
    } else {
        assert(ck[ki] == Ordering::Equal);
        assert(bins_ok(b0.values@[ki]@, b0.keys@[ki], w));
        assert forall|j: int| 0 <= j < v0.len() implies (#[trigger] v0[j]).same_series(&value) && v0[j].ok() && compatible(v0[j].agg(), value.agg()) by {
            assert(b0.values@[ki]@[j].hash_spec() == key0);
        }
        let c = cmps_bins(v0, value, w);
        assert forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Greater implies #[trigger] c[k] == Ordering::Greater by {
            assert(tdiv(v0[j].timestamp as int, w) < tdiv(v0[k].timestamp as int, w)); }
        assert forall|j: int, k: int| 0 <= j < k < c.len() && #[trigger] c[j] == Ordering::Equal implies #[trigger] c[k] != Ordering::Less by {
            assert(tdiv(v0[j].timestamp as int, w) < tdiv(v0[k].timestamp as int, w)); }
    }
}
/// the series with the point worked in
pub open spec fn worked_in(v0: Seq<Telemetry>, n: Seq<Telemetry>, si: int, value: Telemetry, w: int) -> bool {
    let c = cmps_bins(v0, value, w);
    ||| n == v0.update(si, n[si]) && 0 <= si < v0.len() && c[si] == Ordering::Equal && merged(v0[si], value, n[si])
    ||| n == v0.insert(si, n[si]) && 0 <= si <= v0.len()
        && (forall|j: int| 0 <= j < si ==> #[trigger] c[j] == Ordering::Less) && (forall|j: int| si <= j < c.len() ==> #[trigger] c[j] == Ordering::Greater)
        && (if value.persist && si > 0 { carried(v0[si - 1], value, n[si]) } else { n[si] == value })
}
pub proof fn lemma_after(b0: Buckets, b1: Buckets, ki: int, vals1: Seq<Vec<Telemetry>>, si: int, value: Telemetry)
    requires
        b0.wf(), found(b0, b1.keys@, vals1, ki, value.hash_spec()), b1.values@ == vals1.update(ki, b1.values@[ki]), value.ok(),
        b1.bin_width == b0.bin_width,
        forall|j: int| 0 <= j < vals1[ki]@.len() ==> (#[trigger] vals1[ki]@[j]).same_series(&value),
        worked_in(vals1[ki]@, b1.values@[ki]@, si, value, b0.bin_width as int),
        b1.count == (if b1.values@[ki]@.len() == vals1[ki]@.len() { b0.count as int } else if b0.count < u64::MAX { b0.count + 1 } else { b0.count as int }),
    ensures
        b1.wf(),
        b1.holds_key(value.hash_spec()),
        added(b0.series(value.hash_spec()), b1.series(value.hash_spec()), value, b0.bin_width as int),
        forall|k: u64| k != value.hash_spec() ==> #[trigger] b1.holds_key(k) == b0.holds_key(k),
        forall|k: u64| k != value.hash_spec() ==> #[trigger] b1.series(k) == b0.series(k),
{
    let v0 = vals1[ki]@;
    let n = b1.values@[ki]@;
    let w = b0.bin_width as int;
    let key0 = value.hash_spec();
    let c = cmps_bins(v0, value, w);
    lemma_found(b0, b1.keys@, vals1, ki, key0);
    lemma_total_update(vals1, ki, b1.values@[ki]);
    assert(bins_ok(v0, key0, w));
    if n.len() == v0.len() {
        assert(c[si] == Ordering::Equal);
        lemma_bins_merge(v0, n, si, key0, w);
    } else {
        assert forall|j: int| 0 <= j < si implies tdiv((#[trigger] v0[j]).timestamp as int, w) < tdiv(n[si].timestamp as int, w) by { assert(c[j] == Ordering::Less); }
        assert forall|j: int| si <= j < v0.len() implies tdiv((#[trigger] v0[j]).timestamp as int, w) > tdiv(n[si].timestamp as int, w) by { assert(c[j] == Ordering::Greater); }
        lemma_bins_insert(v0, n, si, key0, w);
        assert(n.remove(si) =~= v0);
        assert forall|i: int| 0 <= i < v0.len() implies tdiv((#[trigger] v0[i]).timestamp as int, w) != tdiv(value.timestamp as int, w) by {
            if i < si { assert(c[i] == Ordering::Less); } else { assert(c[i] == Ordering::Greater); }
        }
    }
    assert(added(v0, n, value, w));
    assert forall|i: int| 0 <= i < b1.values@.len() implies bins_ok((#[trigger] b1.values@[i])@, b1.keys@[i], w) by {
        if i != ki { assert(b1.values@[i] == vals1[i]); assert(bins_ok(vals1[i]@, b1.keys@[i], w)); }
    }
    assert(b1.wf());
    lemma_same_elsewhere(b0, b1, ki, key0, vals1);
    lemma_series(b1, ki);
}

impl Buckets {
/*@ fn src/buckets.rs Default@Buckets.default
ret: r
rw `Default::default()` => `Vec::new()`
spec:
    ensures r.wf(), r.keys@.len() == 0, r.bin_width == 1
@*/
/*@ fn src/buckets.rs Buckets.new
ret: r
spec:
    ensures r.keys@.len() == 0, r.bin_width == bin_width, bin_width > 0 ==> r.wf()
@*/
/*@ fn src/buckets.rs Buckets.is_empty
ret: r
spec:
    requires self.wf()
    ensures r == (total(self.values@) == 0)
@*/
/*@ fn src/buckets.rs Buckets.count
ret: r
spec:
    requires self.wf()
    ensures r == sat(total(self.values@))
@*/
/*@ fn src/buckets.rs Buckets.len
ret: r
spec:
    ensures r == self.keys@.len()
@*/
/*@ fn src/buckets.rs Buckets.add
rw `self.keys.binary_search_by(|$h| $*e)` => `search_by(&self.keys, |$h: &u64| -> (o: Ordering) ensures o == order(*$h as int, key0 as int) { $*e }, Ghost(cmps_keys(keys0, key0)))`
rw `probe.partial_cmp(&value.name_tag_hash())` => `cmp_u64(probe, &value.name_tag_hash())`
rw `self.values.index_mut($i)` => `{ proof { ki = $i as int; vals1 = self.values@; } at_mut(&mut self.values, $i) }`
rw `hsh.binary_search_by(|$h| $*e)` => `search_by(hsh, |$h: &Telemetry| -> (o: Ordering) requires $h.same_series(&value) ensures o == order(tdiv($h.timestamp as int, w), tdiv(value.timestamp as int, w)) { $*e }, Ghost(cmps_bins(v0, value, w)))`
rw `hsh[$i] += $e` => `{ proof { si = $i as int; } at_mut(hsh, $i).add_assign($e) }`
rw `hsh.insert($i, $e)` => `{ proof { si = $i as int; } hsh.insert($i, $e) }`
rw `cur += $e;` => `cur.add_assign($e);`
spec:
    requires old(self).wf(), value.ok(), old(self).no_collision(value), old(self).same_bins(value),
    ensures
        final(self).wf(), final(self).bin_width == old(self).bin_width,
        final(self).holds_key(value.hash_spec()),
        added(old(self).series(value.hash_spec()), final(self).series(value.hash_spec()), value, old(self).bin_width as int),
        // no other series changes
        forall|k: u64| k != value.hash_spec() ==> #[trigger] final(self).holds_key(k) == old(self).holds_key(k),
        forall|k: u64| k != value.hash_spec() ==> #[trigger] final(self).series(k) == old(self).series(k),
at fn-start:
    let ghost b0 = *self;
    let ghost keys0 = self.keys@;
    let ghost key0 = value.hash_spec();
    let ghost value0 = value;
    let ghost w = self.bin_width as int;
    let ghost mut ki: int = 0;
    let ghost mut si: int = 0;
    let ghost mut vals1 = self.values@;
    proof {
        lemma_cmps_keys(keys0, key0);
        reveal(bins_ok);
    }
at before `match search_by(hsh`:
    let ghost v0 = hsh@;
    let ghost keys1 = self.keys@;
    let ghost known = b0.holds_key(key0);
    proof {
        assert(keys1 == keys0 || keys1 == keys0.insert(ki, key0));
        assert(vals1 == b0.values@ || vals1 == b0.values@.insert(ki, vals1[ki]));
        lemma_before(b0, keys1, vals1, ki, value0);
    }
at fn-end:
    proof {
        assert(self.values@ == vals1.update(ki, self.values@[ki]));
        lemma_after(b0, *self, ki, vals1, si, value0);
    }
@*/
/*@ fn src/buckets.rs Buckets.reset
rw `for $v in &mut self.values` => `for $v in self.values.iter_mut()`
rw `v[$i].timestamp = $e;` => `at_mut(v, $i).timestamp = $e;`
spec:
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).bin_width == old(self).bin_width, final(self).keys == old(self).keys,
        forall|i: int| 0 <= i < old(self).keys@.len() ==> #[trigger] kept(old(self).values@[i]@, final(self).values@[i]@),
at fn-start:
    let ghost b0 = *self;
    let ghost mut acc: Seq<Vec<Telemetry>> = Seq::empty();
    broadcast use vstd::std_specs::vec::axiom_spec_len;
    proof { reveal(bins_ok); }
loop 1 for iter it:
    invariant
        it.seq().len() == b0.values@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == b0.values@[i],
        forall|i: int| 0 <= i < it.index() ==> kept((*(#[trigger] it.seq()[i]))@, (*final(it.seq()[i]))@),
        acc.len() == it.index(),
        forall|i: int| 0 <= i < it.index() ==> #[trigger] acc[i] == *final(it.seq()[i]),
        self.count == sat(total(acc)),
        self.bin_width == b0.bin_width, self.keys == b0.keys,
at loop 1 start:
    let ghost a0 = acc;
at loop 1 end:
    proof {
        acc = acc.push(*v);
        assert(acc.drop_last() =~= a0);
    }
at loop 1 after:
    assert(acc =~= self.values@);
at fn-end:
    proof { lemma_reset(b0, *self); }
@*/
/*@ fn src/buckets.rs Buckets.iter
ret: r
spec:
    requires old(self).wf()
    ensures r.good(), r.rest() == flat(old(self).values@), *r.buckets == *old(self), *final(self) == *old(self),
        // as many as the store says it holds
        r.rest().len() == total(old(self).values@),
at fn-start:
    proof { lemma_flat_len(self.values@); lemma_rest_start(self.values@); }
@*/
}
/// What a reset leaves of a series.
pub open spec fn kept(v: Seq<Telemetry>, n: Seq<Telemetry>) -> bool {
    if v.len() > 0 && v.last().persist {
        n.len() == 1 && n[0].timestamp >= 0 && n[0] == (Telemetry { timestamp: n[0].timestamp, ..v.last() })
    } else {
        n.len() == 0
    }
}
pub proof fn lemma_reset(b0: Buckets, b1: Buckets)
    requires
        b0.wf(), b1.keys == b0.keys, b1.bin_width == b0.bin_width, b1.values@.len() == b0.values@.len(),
        forall|i: int| 0 <= i < b0.keys@.len() ==> #[trigger] kept(b0.values@[i]@, b1.values@[i]@),
        b1.count == sat(total(b1.values@)),
    ensures b1.wf()
{
    reveal(bins_ok);
    assert forall|i: int| 0 <= i < b1.values@.len() implies bins_ok((#[trigger] b1.values@[i])@, b1.keys@[i], b1.bin_width as int) by {
        assert(bins_ok(b0.values@[i]@, b0.keys@[i], b0.bin_width as int));
        assert(kept(b0.values@[i]@, b1.values@[i]@));
    }
}
/// every stored point, series after series
pub open spec fn flat(vals: Seq<Vec<Telemetry>>) -> Seq<Telemetry>
    decreases vals.len()
{
    if vals.len() == 0 { Seq::empty() } else { vals[0]@ + flat(vals.drop_first()) }
}
pub proof fn lemma_total_first(vals: Seq<Vec<Telemetry>>)
    requires vals.len() > 0
    ensures total(vals) == vals[0]@.len() + total(vals.drop_first())
    decreases vals.len()
{
    if vals.len() > 1 {
        lemma_total_first(vals.drop_last());
        assert(vals.drop_last().drop_first() =~= vals.drop_first().drop_last());
    } else {
        assert(vals.drop_last().len() == 0);
        assert(total(vals.drop_last()) == 0);
        assert(total(vals.drop_first()) == 0);
    }
}
pub proof fn lemma_flat_len(vals: Seq<Vec<Telemetry>>)
    ensures flat(vals).len() == total(vals)
    decreases vals.len()
{
    if vals.len() > 0 { lemma_flat_len(vals.drop_first()); lemma_total_first(vals); }
}
pub proof fn lemma_rest_start(vals: Seq<Vec<Telemetry>>)
    ensures rest_of(vals, 0, 0) == flat(vals)
{
    if vals.len() > 0 { assert(vals.skip(1) =~= vals.drop_first()); assert(vals[0]@.skip(0) =~= vals[0]@); }
}
/// what an iterator at this place still has to yield
pub open spec fn rest_of(vals: Seq<Vec<Telemetry>>, k: int, v: int) -> Seq<Telemetry> {
    if 0 <= k < vals.len() { vals[k]@.skip(v) + flat(vals.skip(k + 1)) } else { Seq::empty() }
}
pub proof fn lemma_rest_next(vals: Seq<Vec<Telemetry>>, k: int)
    requires 0 <= k < vals.len()
    ensures rest_of(vals, k, vals[k]@.len() as int) == rest_of(vals, k + 1, 0)
{
    assert(vals[k]@.skip(vals[k]@.len() as int) =~= Seq::<Telemetry>::empty());
    if k + 1 < vals.len() {
        assert(vals.skip(k + 1).drop_first() =~= vals.skip(k + 2));
        assert(vals[k + 1]@.skip(0) =~= vals[k + 1]@);
    }
    assert(rest_of(vals, k, vals[k]@.len() as int) =~= rest_of(vals, k + 1, 0));
}
impl<'a> Iter<'a> {
    pub open spec fn good(&self) -> bool {
        &&& self.buckets.keys@.len() == self.buckets.values@.len()
        &&& self.key_index <= self.buckets.keys@.len()
        &&& self.key_index < self.buckets.keys@.len() ==> self.value_index <= self.buckets.values@[self.key_index as int]@.len()
    }
    pub open spec fn rest(&self) -> Seq<Telemetry> { rest_of(self.buckets.values@, self.key_index as int, self.value_index as int) }
/*@ fn src/buckets.rs Iterator@Iter.next
ret: r
spec:
    requires old(self).good()
    ensures
        final(self).good(), final(self).buckets == old(self).buckets,
        match r {
            Some(t) => old(self).rest().len() > 0 && *t == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        },
at fn-start:
    let ghost it0 = *self;
loop 1 while:
    invariant
        it0 == *old(self), self.good(), self.buckets == it0.buckets, self.rest() == it0.rest(),
    decreases self.buckets.keys@.len() - self.key_index
at loop 1 start:
    let ghost rest0 = self.rest();
    let ghost k0 = self.key_index as int;
    let ghost v0 = self.value_index as int;
    let ghost vals = self.buckets.values@;
    proof {
        if self.value_index == vals[self.key_index as int]@.len() { lemma_rest_next(vals, self.key_index as int); }
        else {
            let s = vals[self.key_index as int]@;
            let vi = self.value_index as int;
            assert(self.rest() == s.skip(vi) + flat(vals.skip(self.key_index + 1)));
            assert(s.skip(vi)[0] == s[vi]);
            assert(self.rest()[0] == s[vi]);
            assert(rest_of(vals, self.key_index as int, vi + 1) == s.skip(vi + 1) + flat(vals.skip(self.key_index + 1)));
            assert(s.skip(self.value_index as int).skip(1) =~= s.skip(self.value_index + 1));
            assert((s.skip(self.value_index as int) + flat(vals.skip(self.key_index + 1))).skip(1) =~= s.skip(self.value_index + 1) + flat(vals.skip(self.key_index + 1)));
        }
    }
@*/
}
