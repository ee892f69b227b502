// ---- maps of strings, by what the standard library documents of them
pub type Str = Seq<char>;
pub type Pairs = Seq<(Seq<char>, Seq<char>)>;

/// `s` lists the map `m`: every entry once, in some order
pub open spec fn lists(s: Pairs, m: Map<Str, Str>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: Str| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
}
#[verifier::external_body]
pub struct TagMap { _p: () }
impl View for TagMap {
    type V = Map<Str, Str>;
    uninterp spec fn view(&self) -> Map<Str, Str>;
}
impl Clone for TagMap {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct RawIter<'a> { _p: &'a () }
impl<'a> RawIter<'a> {
    /// what it has still to yield
    pub uninterp spec fn seq(&self) -> Pairs;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a String, &'a String)>)
        ensures match r {
            Some((k, v)) => old(self).seq().len() > 0 && (k@, v@) == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
            None => old(self).seq().len() == 0 && final(self).seq().len() == 0,
        }
    { unimplemented!() }
}
impl TagMap {
    #[verifier::external_body]
    pub fn default() -> (r: TagMap) ensures r@ == Map::<Str, Str>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: RawIter<'a>) ensures lists(r.seq(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a String>)
        ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
            match r { Some(o) => old(self)@.contains_key(k@) && o@ == old(self)@[k@], None => !old(self)@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.remove(k@),
            match r { Some(o) => old(self)@.contains_key(k@) && o@ == old(self)@[k@], None => !old(self)@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Str, Str>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures forall|s: Pairs| #[trigger] lists(s, self@) ==> s.len() == r { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { _p: std::marker::PhantomData<T> }
impl View for HashSet<String> {
    type V = Set<Str>;
    uninterp spec fn view(&self) -> Set<Str>;
}
impl HashSet<String> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Str>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool)
        ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@)
    { unimplemented!() }
}

// ---- layering

pub open spec fn keys_of(s: Pairs) -> Set<Str>
    decreases s.len()
{
    if s.len() == 0 { Set::empty() } else { keys_of(s.skip(1)).insert(s[0].0) }
}
pub proof fn lemma_keys_has(s: Pairs, k: Str)
    ensures keys_of(s).contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    decreases s.len()
{
    if s.len() > 0 {
        let e = s.skip(1);
        lemma_keys_has(e, k);
        if keys_of(e).contains(k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k; assert(s[i + 1].0 == k); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            if i > 0 { assert(e[i - 1].0 == k); }
        }
    }
}
/// the defaults not yet seen
pub open spec fn unseen(d: Pairs, seen: Set<Str>) -> Pairs
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() } else if seen.contains(d[0].0) { unseen(d.skip(1), seen) }
    else { seq![d[0]] + unseen(d.skip(1), seen.insert(d[0].0)) }
}
/// the event's own value where it has the key, the default's otherwise
pub open spec fn layer(own: Map<Str, Str>, def: Map<Str, Str>) -> Map<Str, Str> { def.union_prefer_right(own) }
pub open spec fn own_tags(t: Option<TagMap>) -> Map<Str, Str> { match t { Some(m) => m@, None => Map::empty() } }

/// where the elements of unseen come from
pub proof fn lemma_unseen(d: Pairs, seen: Set<Str>)
    requires forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && (#[trigger] d[i]).0 == (#[trigger] d[j]).0 ==> i == j
    ensures ({
        let u = unseen(d, seen);
        &&& forall|i: int| 0 <= i < u.len() ==> !seen.contains((#[trigger] u[i]).0) && exists|j: int| 0 <= j < d.len() && #[trigger] d[j] == u[i]
        &&& forall|j: int| 0 <= j < d.len() && !seen.contains((#[trigger] d[j]).0) ==> exists|i: int| 0 <= i < u.len() && #[trigger] u[i] == d[j]
        &&& forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && (#[trigger] u[i]).0 == (#[trigger] u[j]).0 ==> i == j
    })
    decreases d.len()
{
    let u = unseen(d, seen);
    if d.len() > 0 {
        let e = d.skip(1);
        assert forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && (#[trigger] e[i]).0 == (#[trigger] e[j]).0 implies i == j by { assert(e[i] == d[i + 1] && e[j] == d[j + 1]); }
        let here = !seen.contains(d[0].0);
        let s2 = if here { seen.insert(d[0].0) } else { seen };
        lemma_unseen(e, s2);
        let w = unseen(e, s2);
        let o = if here { 1int } else { 0int };
        assert forall|i: int| 0 <= i < u.len() implies !seen.contains((#[trigger] u[i]).0) && exists|j: int| 0 <= j < d.len() && #[trigger] d[j] == u[i] by {
            if here && i == 0 { assert(d[0] == u[0]); } else {
                assert(u[i] == w[i - o]);
                let j = choose|j: int| 0 <= j < e.len() && #[trigger] e[j] == w[i - o];
                assert(d[j + 1] == u[i]);
            }
        }
        assert forall|j: int| 0 <= j < d.len() && !seen.contains((#[trigger] d[j]).0) implies exists|i: int| 0 <= i < u.len() && #[trigger] u[i] == d[j] by {
            if j == 0 { assert(u[0] == d[0]); } else {
                assert(e[j - 1] == d[j]);
                if here && d[j].0 == d[0].0 { assert(d[j].0 == d[0].0); }
                let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == e[j - 1];
                assert(u[i + o] == d[j]);
            }
        }
        assert forall|i: int, j: int| 0 <= i < u.len() && 0 <= j < u.len() && (#[trigger] u[i]).0 == (#[trigger] u[j]).0 implies i == j by {
            if here && (i == 0 || j == 0) {
                if i != 0 { assert(w[i - 1] == u[i]); assert(s2.contains(u[0].0)); }
                if j != 0 { assert(w[j - 1] == u[j]); assert(s2.contains(u[0].0)); }
            } else { assert(u[i] == w[i - o] && u[j] == w[j - o]); }
        }
    }
}
pub proof fn lemma_layered(own: Map<Str, Str>, def: Map<Str, Str>, a: Pairs, d: Pairs)
    requires lists(a, own), lists(d, def)
    ensures lists(a + unseen(d, keys_of(a)), layer(own, def))
{
    let seen = keys_of(a);
    assert forall|k: Str| seen.contains(k) <==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k by { lemma_keys_has(a, k); }
    lemma_unseen(d, seen);
    let u = unseen(d, seen);
    let s = a + u;
    let m = layer(own, def);
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by {
        if i < a.len() { assert(s[i] == a[i]); } else {
            assert(s[i] == u[i - a.len()]);
            let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == u[i - a.len()];
            if own.contains_key(s[i].0) {
                let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q]).0 == s[i].0;
                assert(seen.contains(s[i].0));
            }
        }
    }
    assert forall|k: Str| m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
        if own.contains_key(k) {
            let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q]).0 == k;
            assert(s[q].0 == k);
        } else {
            let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == k;
            if seen.contains(k) {
                let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q]).0 == k;
                assert(own.contains_key(a[q].0));
            }
            let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == d[j];
            assert(s[a.len() + i].0 == k);
        }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 implies i == j by {
        let n = a.len();
        if i < n && j < n { assert(a[i] == s[i] && a[j] == s[j]); }
        else if i >= n && j >= n { assert(u[i - n] == s[i] && u[j - n] == s[j]); }
        else if i < n { assert(a[i] == s[i]); assert(u[j - n] == s[j]); assert(seen.contains(s[i].0)); }
        else { assert(a[j] == s[j]); assert(u[i - n] == s[i]); assert(seen.contains(s[j].0)); }
    }
}

#[verifier::external_body]
pub fn own_str(k: &String) -> (r: String) ensures r@ == k@ { k.to_string() }
/*@ item src/metric/mod.rs enum TagIter
rw `hash_map::Iter<'a, String, String>` => `RawIter<'a>`
@*/
pub open spec fn rest_double(seen: Set<Str>, iters: Pairs, defaults: Pairs, done: bool) -> Pairs {
    if done { unseen(defaults, seen) } else { iters + unseen(defaults, seen.union(keys_of(iters))) }
}
impl<'a> TagIter<'a> {
    /// what it has still to yield
    pub open spec fn rest(&self) -> Pairs {
        match *self {
            TagIter::Single { defaults } => defaults.seq(),
            TagIter::Double { seen_keys, iters, defaults, iters_exhausted } => rest_double(seen_keys@, iters.seq(), defaults.seq(), iters_exhausted),
        }
    }
/*@ fn src/metric/mod.rs Iterator@TagIter.next
attr: #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
ret: r
rw `k.to_string()` => `own_str(k)`
rw `Self::Item` => `(&'a String, &'a String)`
spec:
    ensures match r {
        Some((k, v)) => old(self).rest().len() > 0 && (k@, v@) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
    }
at fn-start:
    let ghost r0 = self.rest();
loop 1 loop:
    invariant
        rest_double(seen_keys@, iters.seq(), defaults.seq(), *iters_exhausted) == r0,
        r0 == old(self).rest(),
        *final(seen_keys) == f1, *final(iters) == f2, *final(defaults) == f3, *final(iters_exhausted) == f4,
    ensures r0.len() == 0, false
    decreases iters.seq().len() + defaults.seq().len() + (if *iters_exhausted { 0int } else { 1int })
at loop 1 before:
    let ghost f1 = *final(seen_keys);
    let ghost f2 = *final(iters);
    let ghost f3 = *final(defaults);
    let ghost f4 = *final(iters_exhausted);
at loop 1 start:
    let ghost seen0 = seen_keys@;
    let ghost is0 = iters.seq();
    let ghost ds0 = defaults.seq();
    proof {
        if is0.len() > 0 {
            assert(seen0.insert(is0[0].0).union(keys_of(is0.skip(1))) =~= seen0.union(keys_of(is0))) by { lemma_keys_skip(is0); }
            assert((is0 + unseen(ds0, seen0.union(keys_of(is0)))).skip(1) =~= is0.skip(1) + unseen(ds0, seen0.union(keys_of(is0))));
        } else {
            assert(seen0.union(keys_of(is0)) =~= seen0);
            assert(is0 + unseen(ds0, seen0) =~= unseen(ds0, seen0));
        }
        if ds0.len() > 0 {
            assert((seq![ds0[0]] + unseen(ds0.skip(1), seen0.insert(ds0[0].0))).skip(1) =~= unseen(ds0.skip(1), seen0.insert(ds0[0].0)));
            if seen0.contains(ds0[0].0) { assert(seen0.insert(ds0[0].0) =~= seen0); }
        }
    }
at before `return Some((k, v));` #1:
    assert(rest_double(seen_keys@, iters.seq(), defaults.seq(), *iters_exhausted) == r0.skip(1));
at before `return Some((k, v));` #2:
    assert(rest_double(seen_keys@, iters.seq(), defaults.seq(), *iters_exhausted) == r0.skip(1));
@*/
}
pub proof fn lemma_keys_skip(s: Pairs)
    requires s.len() > 0
    ensures keys_of(s) =~= keys_of(s.skip(1)).insert(s[0].0)
{
}
