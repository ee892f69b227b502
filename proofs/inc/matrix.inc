pub type Str = Seq<char>;
#[verifier::external_body]
pub fn own(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// a clone stands for the original
pub trait Same: Sized { fn same(&self) -> (r: Self) ensures r == *self; }
impl<T> Same for T {
    #[verifier::external_body]
    fn same(&self) -> (r: T) { unimplemented!() }
}
pub fn drop<T>(t: T) { }

// ---- iterators over vectors and maps, as sequences

/// the entries of `a` that `keep` keeps
pub open spec fn select<T>(a: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases a.len()
{
    if a.len() == 0 || keep.len() == 0 { Seq::empty() }
    else if keep.last() { select(a.drop_last(), keep.drop_last()).push(a.last()) }
    else { select(a.drop_last(), keep.drop_last()) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { _p: std::marker::PhantomData<T> }
impl<T> It<T> {
    /// what it yields
    pub uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&(#[trigger] self.seq()[i]),))
        ensures exists|keep: Seq<bool>| keep.len() == self.seq().len() && r.seq() == #[trigger] select(self.seq(), keep)
            && forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&self.seq()[i],), #[trigger] keep[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],))
        ensures r.seq().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> call_ensures(f, (self.seq()[i],), #[trigger] r.seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.seq() { unimplemented!() }
}
pub open spec fn flat<V>(s: Seq<(String, V)>) -> Seq<(Str, V)> { s.map_values(|p: (String, V)| (p.0@, p.1)) }
pub open spec fn flat_ref<V>(s: Seq<(&String, &V)>) -> Seq<(Str, V)> { s.map_values(|p: (&String, &V)| (p.0@, *p.1)) }
/// `s` lists the map `m`: every entry once, in some order
pub open spec fn lists<V>(s: Seq<(Str, V)>, m: Map<Str, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: Str| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
}
// ---- util::HashMap<String, V>
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
pub type NameMap<V> = HashMap<String, V>;
impl<V> View for HashMap<String, V> {
    type V = Map<Str, V>;
    uninterp spec fn view(&self) -> Map<Str, V>;
}
pub struct Keys { pub n: usize }
impl Keys { pub fn len(&self) -> (r: usize) ensures r == self.n { self.n } }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<Str, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            match r { Some(o) => old(self)@.contains_key(k@) && o == old(self)@[k@], None => !old(self)@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@),
            match r { Some(o) => old(self)@.contains_key(k@) && o == old(self)@[k@], None => !old(self)@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Str, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Keys) ensures r.n == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: It<(&'a String, &'a V)>) ensures lists(flat_ref(r.seq()), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<(String, V)>) ensures lists(flat(r.seq()), self@) { unimplemented!() }
}
pub type AdjacencyMap<T> = NameMap<Option<T>>;
pub type AdjacencyMatrix<T> = NameMap<NameMap<Option<T>>>;
impl<T> HashMap<String, NameMap<Option<T>>> {
    /// entry(k).or_insert_with(Default::default)
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: String) -> (r: &mut NameMap<Option<T>>)
        ensures r@ == (if old(self)@.contains_key(k@) { old(self)@[k@]@ } else { Map::empty() }),
            final(self)@ == old(self)@.insert(k@, *final(r))
    { unimplemented!() }
}

// ---- what a matrix states

pub type Graph<M> = Map<Str, Map<Str, Option<M>>>;
/// the edges out of a node
pub open spec fn edges_of<M>(g: Graph<M>, n: Str) -> Map<Str, Option<M>> { if g.contains_key(n) { g[n] } else { Map::empty() } }
/// one edge more, or one edge's metadata replaced
pub open spec fn link<M>(g: Graph<M>, from: Str, to: Str, m: Option<M>) -> Graph<M> { g.insert(from, edges_of(g, from).insert(to, m)) }
/// edges both ways between a node and others
pub open spec fn links<M>(g: Graph<M>, from: Str, tos: Seq<String>, m: Option<M>) -> Graph<M>
    decreases tos.len()
{
    if tos.len() == 0 { g } else { link(link(links(g, from, tos.drop_last(), m), from, tos.last()@, m), tos.last()@, from, m) }
}
pub open spec fn joins(from: Str, tos: Seq<String>, a: Str, b: Str) -> bool {
    exists|i: int| 0 <= i < tos.len() && joined(from, #[trigger] tos[i]@, a, b)
}
pub open spec fn joined(from: Str, to: Str, a: Str, b: Str) -> bool { (a == from && b == to) || (a == to && b == from) }
/// adding edges both ways adds those, and touches no other
pub proof fn lemma_links<M>(g: Graph<M>, from: Str, tos: Seq<String>, m: Option<M>, a: Str, b: Str)
    ensures
        joins(from, tos, a, b) ==> edges_of(links(g, from, tos, m), a).contains_key(b) && edges_of(links(g, from, tos, m), a)[b] == m,
        !joins(from, tos, a, b) ==> edges_of(links(g, from, tos, m), a).contains_key(b) == edges_of(g, a).contains_key(b),
        !joins(from, tos, a, b) && edges_of(g, a).contains_key(b) ==> edges_of(links(g, from, tos, m), a)[b] == edges_of(g, a)[b],
    decreases tos.len()
{
    if tos.len() > 0 {
        let p = tos.drop_last();
        let t = tos.last()@;
        lemma_links(g, from, p, m, a, b);
        let g1 = links(g, from, p, m);
        let g2 = link(g1, from, t, m);
        let g3 = link(g2, t, from, m);
        assert(links(g, from, tos, m) == g3);
        if joins(from, p, a, b) {
            let i = choose|i: int| 0 <= i < p.len() && joined(from, #[trigger] p[i]@, a, b);
            assert(joined(from, tos[i]@, a, b));
        }
        if joined(from, t, a, b) { assert(joined(from, tos[tos.len() - 1]@, a, b)); }
        if joins(from, tos, a, b) && !joined(from, t, a, b) {
            let i = choose|i: int| 0 <= i < tos.len() && joined(from, #[trigger] tos[i]@, a, b);
            assert(i < p.len());
            assert(joined(from, p[i]@, a, b));
        }
        assert(joins(from, tos, a, b) == (joins(from, p, a, b) || joined(from, t, a, b)));
        assert(edges_of(g2, a) == if a == from { edges_of(g1, a).insert(t, m) } else { edges_of(g1, a) });
        assert(edges_of(g3, a) == if a == t { edges_of(g2, a).insert(from, m) } else { edges_of(g2, a) });
    }
}
/// the names of a listing
pub open spec fn names<V>(s: Seq<(Str, V)>) -> Seq<Str> { s.map_values(|p: (Str, V)| p.0) }
/// the metadata of a listing, those edges that have some
pub open spec fn metas<M>(s: Seq<(Str, Option<M>)>) -> Seq<M>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { match s.last().1 { Some(m) => metas(s.drop_last()).push(m), None => metas(s.drop_last()) } }
}
pub open spec fn states<M>(s: Seq<(String, Option<M>)>, ms: Seq<M>) -> bool {
    s.len() == ms.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == Some(ms[i])
}
pub proof fn lemma_metas<M>(a: Seq<(String, Option<M>)>, keep: Seq<bool>)
    requires keep.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] keep[i] == (a[i].1 is Some)
    ensures ({
        let s = select(a, keep);
        &&& s.len() == metas(flat(a)).len()
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == Some(metas(flat(a))[i])
    })
    decreases a.len()
{
    if a.len() > 0 {
        lemma_metas(a.drop_last(), keep.drop_last());
        assert(flat(a).drop_last() =~= flat(a.drop_last()));
        assert(flat(a).last().1 == a.last().1);
        assert(keep[a.len() - 1] == (a[a.len() - 1].1 is Some));
    }
}
/// where the entries of a selection come from, and that none twice
pub proof fn lemma_select<T>(a: Seq<T>, keep: Seq<bool>)
    requires keep.len() == a.len()
    ensures ({
        let s = select(a, keep);
        &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] src_of(a, keep, i) < a.len() && keep[src_of(a, keep, i)] && s[i] == a[src_of(a, keep, i)]
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] src_of(a, keep, i) < #[trigger] src_of(a, keep, j)
        &&& forall|j: int| 0 <= j < a.len() && #[trigger] keep[j] ==> exists|i: int| 0 <= i < s.len() && #[trigger] src_of(a, keep, i) == j
    })
    decreases a.len()
{
    if a.len() > 0 {
        let (p, q) = (a.drop_last(), keep.drop_last());
        lemma_select(p, q);
        let s = select(a, keep);
        let n = select(p, q).len() as int;
        assert forall|i: int| 0 <= i < n implies src_of(a, keep, i) == src_of(p, q, i) by { }
        if keep.last() { assert(src_of(a, keep, n) == a.len() - 1); }
        assert forall|j: int| 0 <= j < a.len() && #[trigger] keep[j] implies exists|i: int| 0 <= i < s.len() && #[trigger] src_of(a, keep, i) == j by {
            if j < p.len() {
                assert(q[j]);
                let i = choose|i: int| 0 <= i < n && #[trigger] src_of(p, q, i) == j;
                assert(src_of(a, keep, i) == j);
            } else { assert(src_of(a, keep, n) == j); }
        }
    }
}
/// the place in `a` of the i-th selected entry
pub open spec fn src_of<T>(a: Seq<T>, keep: Seq<bool>, i: int) -> int
    decreases a.len()
{
    if a.len() == 0 || keep.len() == 0 { 0 }
    else if keep.last() && i == select(a.drop_last(), keep.drop_last()).len() { a.len() - 1 }
    else { src_of(a.drop_last(), keep.drop_last(), i) }
}

/// the names of the edges, each once
pub open spec fn listed_names<M>(r: Seq<String>, m: Map<Str, Option<M>>) -> bool {
    exists|s: Seq<(Str, Option<M>)>| #[trigger] lists(s, m) && r.map_values(|x: String| x@) =~= names(s)
}
/// the metadata of the edges that have some, each once
pub open spec fn listed_metas<M>(r: Seq<M>, m: Map<Str, Option<M>>) -> bool {
    exists|s: Seq<(Str, Option<M>)>| #[trigger] lists(s, m) && r =~= metas(s)
}
pub proof fn lemma_none<M>()
    ensures listed_names(Seq::<String>::empty(), Map::<Str, Option<M>>::empty()), listed_metas(Seq::<M>::empty(), Map::<Str, Option<M>>::empty())
{
    let s = Seq::<(Str, Option<M>)>::empty();
    assert(lists(s, Map::<Str, Option<M>>::empty()));
    assert(Seq::<String>::empty().map_values(|x: String| x@) =~= names(s));
    assert(Seq::<M>::empty() =~= metas(s));
}
/// the predicate answers so of the edge to `n`
pub open spec fn accepted<M, F: Fn(&(&String, &Option<M>)) -> bool>(m: Map<Str, Option<M>>, f: F, n: Str, b: bool) -> bool {
    m.contains_key(n) && exists|q: (&String, &Option<M>)| q.0@ == n && *q.1 == m[n] && #[trigger] call_ensures(f, (&q,), b)
}

pub proof fn lemma_filter_nodes<M, F: Fn(&(&String, &Option<M>)) -> bool>(a: Seq<(&String, &Option<M>)>, s: Seq<(&String, &Option<M>)>, r: Seq<String>, m: Map<Str, Option<M>>, f: F)
    requires lists(flat_ref(a), m),
        exists|keep: Seq<bool>| keep.len() == a.len() && s == #[trigger] select(a, keep)
            && forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&a[i],), #[trigger] keep[i]),
        r.len() == s.len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == s[i].0@,
    ensures
        forall|i: int| 0 <= i < r.len() ==> #[trigger] accepted(m, f, r[i]@, true),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i])@ != (#[trigger] r[j])@,
        forall|n: Str| #[trigger] m.contains_key(n) ==> (exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == n) || accepted(m, f, n, false),
{
    let keep = choose|keep: Seq<bool>| keep.len() == a.len() && s == #[trigger] select(a, keep)
            && forall|i: int| 0 <= i < keep.len() ==> call_ensures(f, (&a[i],), #[trigger] keep[i]);
    lemma_select(a, keep);
    let fa = flat_ref(a);
    assert forall|i: int| 0 <= i < a.len() implies m.contains_key((#[trigger] a[i]).0@) && m[a[i].0@] == *a[i].1 by { assert(fa[i] == (a[i].0@, *a[i].1)); }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] accepted(m, f, r[i]@, true) by {
        let j = src_of(a, keep, i);
        assert(keep[j]);
        assert(call_ensures(f, (&a[j],), keep[j]));
        let q = a[j];
        assert(q.0@ == r[i]@ && *q.1 == m[r[i]@] && call_ensures(f, (&q,), true));
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@ != (#[trigger] r[j])@ by {
        let (x, y) = (src_of(a, keep, i), src_of(a, keep, j));
        assert(x < y);
        if r[i]@ == r[j]@ { assert(fa[x].0 == fa[y].0); assert(x == y); }
    }
    assert forall|n: Str| #[trigger] m.contains_key(n) implies (exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == n) || accepted(m, f, n, false) by {
        let j = choose|j: int| 0 <= j < fa.len() && (#[trigger] fa[j]).0 == n;
        assert(fa[j] == (a[j].0@, *a[j].1));
        assert(call_ensures(f, (&a[j],), keep[j]));
        if keep[j] {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] src_of(a, keep, i) == j;
            assert(r[i]@ == n);
        } else {
            let q = a[j];
            assert(q.0@ == n && *q.1 == m[n] && call_ensures(f, (&q,), false));
        }
    }
}

/*@ rewrites
rw `util::HashMap::default()` => `NameMap::default()`
rw `$m.entry($*k).or_insert_with(Default::default)` => `$m.entry_or_default($*k)`
rw `$m.entry($*k).or_insert_with(util::HashMap::default)` => `$m.entry_or_default($*k)`
rw `$m.entry($*k).or_default()` => `$m.entry_or_default($*k)`
rw `String::from_str($*x).unwrap()` => `own($*x)`
rw `String::from($*x)` => `own($*x)`
rw `.clone()` => `.same()`
@*/
/*@ item src/matrix.rs struct Adjacency
attr: #[verifier::reject_recursive_types(M)]
@*/
impl<M: Clone> Adjacency<M> {
    pub closed spec fn g(&self) -> Graph<M> { self.edges@.map_values(|m: NameMap<Option<M>>| m@) }
/*@ fn src/matrix.rs Adjacency.new
ret: r
rw `Default::default()` => `NameMap::default()`
spec:
    ensures r.g() =~= Map::<Str, Map<Str, Option<M>>>::empty()
@*/
/*@ fn src/matrix.rs Adjacency.add_asymmetric_edge
spec:
    ensures final(self).g() == link(old(self).g(), from_str@, to_str@, metadata)
at fn-end:
    proof { assert(self.g() =~= link(old(self).g(), from_str@, to_str@, metadata)); }
@*/
/*@ fn src/matrix.rs Adjacency.add_edges
spec:
    ensures final(self).g() == links(old(self).g(), from_str@, to_strs@, metadata)
loop 1 for iter it:
    invariant
        it.seq() == to_strs@,
        self.g() == links(old(self).g(), from_str@, to_strs@.take(it.index()), metadata),
at loop 1 end:
    proof { assert(to_strs@.take(it.index() + 1).drop_last() =~= to_strs@.take(it.index())); }
at loop 1 after:
    proof { assert(to_strs@.take(to_strs@.len() as int) =~= to_strs@); }
@*/
/*@ fn src/matrix.rs Adjacency.num_edges
ret: r
spec:
    ensures r == edges_of(old(self).g(), id@).dom().len(), final(self).g() == old(self).g()
@*/
/*@ fn src/matrix.rs Adjacency.contains_node
ret: r
spec:
    ensures r == self.g().contains_key(id@)
@*/
/*@ fn src/matrix.rs Adjacency.filter_nodes
ret: r
sig:
    pub fn filter_nodes<F>(&self, id: &str, f: F) -> (r: Vec<String>)
    where
        F: Fn(&(&String, &Option<M>)) -> bool,
rw `$m.iter().filter($*f).map(|($k, $v)| $*b).collect()` => `{ let i0 = $m.iter(); let ghost a = i0.seq(); let i1 = i0.filter($*f); let ghost s = i1.seq(); let r = i1.map(|q: (&String, &Option<M>)| -> (r: String) ensures r@ == q.0@ { let ($k, $v) = q; $*b }).collect(); proof { lemma_filter_nodes(a, s, r@, $m@, $*f); assert(self.g()[id@] == $m@); } r }`
spec:
    requires forall|q: (&String, &Option<M>)| call_requires(f, (&q,))
    ensures
        // every name given is that of an edge the predicate accepts, and none twice
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] accepted(edges_of(self.g(), id@), f, r@[i]@, true),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@,
        // and no edge is left out but those it refuses
        forall|n: Str| #[trigger] edges_of(self.g(), id@).contains_key(n) ==> (exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == n)
            || accepted(edges_of(self.g(), id@), f, n, false),
@*/
/*@ fn src/matrix.rs Adjacency.pop
ret: r
spec:
    ensures final(self).g() =~= old(self).g().remove(id@),
        match r { Some(m) => old(self).g().contains_key(id@) && m@ == old(self).g()[id@], None => !old(self).g().contains_key(id@) }
@*/
/*@ fn src/matrix.rs Adjacency.pop_nodes
ret: r
rw `$m.into_iter().map(|($k, $v)| $*b).collect()` => `{ let ghost m0 = $m@; let i0 = $m.into_iter(); let ghost a = i0.seq(); let r: Vec<String> = i0.map(|q: (String, Option<M>)| -> (r: String) ensures r == q.0 { let ($k, $v) = q; $*b }).collect(); proof { assert(lists(flat(a), edges_of(old(self).g(), id@))); assert(r@.map_values(|x: String| x@) =~= names(flat(a))); assert(listed_names(r@, edges_of(old(self).g(), id@))); } r }`
spec:
    ensures final(self).g() =~= old(self).g().remove(id@),
        listed_names(r@, edges_of(old(self).g(), id@))
at fn-start:
    proof { lemma_none::<M>(); assert(edges_of(self.g(), id@) =~= if self.g().contains_key(id@) { self.g()[id@] } else { Map::empty() }); }
@*/
/*@ fn src/matrix.rs Adjacency.pop_metadata
ret: r
rw `$m.into_iter().filter(|&(ref $k, ref $v)| $*b).map(|($x, $y)| $*c).collect()` => `{ let ghost m0 = $m@; let i0 = $m.into_iter(); let ghost a = i0.seq(); let i1 = i0.filter(|q: &(String, Option<M>)| -> (keep: bool) ensures keep == (q.1 is Some) { let $k = &q.0; let $v = &q.1; $*b }); let ghost s = i1.seq(); proof { let keep = choose|keep: Seq<bool>| keep.len() == a.len() && s == select(a, keep) && forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == (a[i].1 is Some); lemma_metas(a, keep); } let r: Vec<M> = i1.map(|q: (String, Option<M>)| -> (r: M) requires q.1 is Some ensures q.1 == Some(r) { let ($x, $y) = q; $*c }).collect(); proof { assert(lists(flat(a), edges_of(old(self).g(), id@))); assert(r@ =~= metas(flat(a))); assert(listed_metas(r@, edges_of(old(self).g(), id@))); } r }`
spec:
    ensures final(self).g() =~= old(self).g().remove(id@),
        listed_metas(r@, edges_of(old(self).g(), id@))
at fn-start:
    proof { lemma_none::<M>(); }
@*/
}

