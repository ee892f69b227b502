// ---- reading and changing the tags of points and lines
pub open spec fn as_map(s: Pairs) -> Map<Str, Str>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { as_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub proof fn lemma_as_map_has(s: Pairs)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
    ensures
        forall|i: int| 0 <= i < s.len() ==> as_map(s).contains_key((#[trigger] s[i]).0) && as_map(s)[s[i].0] == s[i].1,
        forall|k: Str| as_map(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && (#[trigger] d[i]).0 == (#[trigger] d[j]).0 implies i == j by { assert(d[i] == s[i] && d[j] == s[j]); }
        lemma_as_map_has(d);
        let n = s.len() - 1;
        assert forall|i: int| 0 <= i < s.len() implies as_map(s).contains_key((#[trigger] s[i]).0) && as_map(s)[s[i].0] == s[i].1 by {
            if i < n { assert(d[i] == s[i]); assert(s[i].0 != s[n].0); }
        }
        assert forall|k: Str| as_map(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            assert(s.last() == s[n]);
            if k == s[n].0 { assert(s[n].0 == k); } else {
                assert(as_map(d).contains_key(k));
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k;
                assert(d[i] == s[i]);
                assert(s[i].0 == k);
            }
        }
    }
}
pub proof fn lemma_as_map(s: Pairs, m: Map<Str, Str>)
    requires lists(s, m)
    ensures as_map(s) == m
{
    lemma_as_map_has(s);
    assert forall|k: Str| as_map(s).contains_key(k) <==> m.contains_key(k) by {
        if as_map(s).contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(m.contains_key(s[i].0)); }
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(as_map(s).contains_key(s[i].0)); }
    }
    assert forall|k: Str| as_map(s).contains_key(k) implies as_map(s)[k] == m[k] by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(as_map(s)[s[i].0] == s[i].1);
    }
    assert(as_map(s) =~= m);
}
pub mod tele { use super::*;
pub open spec fn same_but_tags(a: Telemetry, b: Telemetry) -> bool {
    a.name == b.name && a.persist == b.persist && a.timestamp == b.timestamp && a.value == b.value && a.override_count == b.override_count && a.override_sample_sum == b.override_sample_sum
}

impl Telemetry {
/*@ fn src/metric/telemetry.rs Telemetry.tags
attr: pub
ret: r
spec:
    // every key of either exactly once, own values first
    ensures lists(r.rest(), layer(own_tags(self.tags), defaults@))
at fn-start:
    proof {
        assert forall|a: Pairs, d: Pairs, o: Map<Str, Str>, e: Map<Str, Str>| #[trigger] lists(a, o) && #[trigger] lists(d, e) implies lists(a + unseen(d, Set::<Str>::empty().union(keys_of(a))), layer(o, e)) by {
            lemma_layered(o, e, a, d);
            assert(Set::<Str>::empty().union(keys_of(a)) =~= keys_of(a));
        }
        assert(layer(Map::<Str, Str>::empty(), defaults@) =~= defaults@);
    }
@*/
/*@ fn src/metric/telemetry.rs Telemetry.get_from_tags
attr: pub
ret: r
rw `if let Some(ref mut tags) = self.tags` => `if let Some(ref tags) = self.tags`
spec:
    ensures
        *final(self) == *old(self),
        r is Some <==> layer(own_tags(old(self).tags), defaults@).contains_key(key@),
        r is Some ==> r->0@ == layer(own_tags(old(self).tags), defaults@)[key@],
@*/
/*@ fn src/metric/telemetry.rs Telemetry.insert_tag
ret: r
sig:
    pub fn insert_tag(&mut self, key: String, val: String) -> (r: Option<String>)
rw `key.into()` => `key`
rw `val.into()` => `val`
spec:
    ensures
        final(self).tags is Some,
        own_tags(final(self).tags) == own_tags(old(self).tags).insert(key@, val@),
        r is Some <==> own_tags(old(self).tags).contains_key(key@),
        r is Some ==> r->0@ == own_tags(old(self).tags)[key@],
        same_but_tags(*old(self), *final(self)),
@*/
/*@ fn src/metric/telemetry.rs Telemetry.remove_tag
attr: pub
ret: r
spec:
    ensures
        own_tags(final(self).tags) == own_tags(old(self).tags).remove(key@),
        r is Some <==> own_tags(old(self).tags).contains_key(key@),
        r is Some ==> r->0@ == own_tags(old(self).tags)[key@],
        same_but_tags(*old(self), *final(self)),
at fn-start:
    proof { assert(Map::<Str, Str>::empty().remove(key@) =~= Map::<Str, Str>::empty()); }
@*/
/*@ fn src/metric/telemetry.rs Telemetry.overlay_tag
ret: r
sig:
    pub fn overlay_tag(self, key: String, val: String) -> (r: Telemetry)
spec:
    ensures
        own_tags(r.tags) == own_tags(self.tags).insert(key@, val@),
        same_but_tags(self, r),
@*/
/*@ fn src/metric/telemetry.rs Telemetry.overlay_tags_from_map
attr: pub
ret: r
rw `for ($k, $v) in map.iter()` => `let mut raw = map.iter(); while let Some(($k, $v)) = raw.next()`
spec:
    ensures
        own_tags(r.tags) == own_tags(self.tags).union_prefer_right(map@),
        same_but_tags(self, r),
at fn-start:
    let ghost tags0 = self.tags;
    proof { assert(Map::<Str, Str>::empty().union_prefer_right(map@) =~= map@); }
loop 1 while:
    invariant
        tags@ == tags0->0@.union_prefer_right(as_map(listed.take(listed.len() - raw.seq().len()))),
        raw.seq() == listed.skip(listed.len() - raw.seq().len()),
        raw.seq().len() <= listed.len(), listed.take(listed.len() as int) == listed,
        lists(listed, map@),
    ensures tags@ == tags0->0@.union_prefer_right(as_map(listed)), lists(listed, map@),
    decreases raw.seq().len()
at loop 1 before:
    let ghost listed = raw.seq();
    proof {
        assert(listed.take(0) =~= Seq::empty());
        assert(listed.skip(0) =~= listed);
        assert(listed.take(listed.len() as int) =~= listed);
        assert(tags0->0@.union_prefer_right(Map::<Str, Str>::empty()) =~= tags0->0@);
    }
at loop 1 start:
    proof {
        let n = listed.len() - raw.seq().len();
        assert(listed.take(n).drop_last() =~= listed.take(n - 1));
        assert(tags0->0@.union_prefer_right(as_map(listed.take(n - 1)).insert(k@, v@)) =~= tags0->0@.union_prefer_right(as_map(listed.take(n - 1))).insert(k@, v@));
    }
at loop 1 after:
    proof { lemma_as_map(listed, map@); }
@*/
}

}
pub mod line { use super::*;
pub open spec fn same_but_tags(a: LogLine, b: LogLine) -> bool {
    a.time == b.time && a.path == b.path && a.value == b.value && a.fields == b.fields
}

impl LogLine {
/*@ fn src/metric/logline.rs LogLine.tags
attr: pub
ret: r
spec:
    // every key of either exactly once, own values first
    ensures lists(r.rest(), layer(own_tags(self.tags), defaults@))
at fn-start:
    proof {
        assert forall|a: Pairs, d: Pairs, o: Map<Str, Str>, e: Map<Str, Str>| #[trigger] lists(a, o) && #[trigger] lists(d, e) implies lists(a + unseen(d, Set::<Str>::empty().union(keys_of(a))), layer(o, e)) by {
            lemma_layered(o, e, a, d);
            assert(Set::<Str>::empty().union(keys_of(a)) =~= keys_of(a));
        }
        assert(layer(Map::<Str, Str>::empty(), defaults@) =~= defaults@);
    }
@*/
/*@ fn src/metric/logline.rs LogLine.get_from_tags
attr: pub
ret: r
rw `if let Some(ref mut tags) = self.tags` => `if let Some(ref tags) = self.tags`
spec:
    ensures
        *final(self) == *old(self),
        r is Some <==> layer(own_tags(old(self).tags), defaults@).contains_key(key@),
        r is Some ==> r->0@ == layer(own_tags(old(self).tags), defaults@)[key@],
@*/
/*@ fn src/metric/logline.rs LogLine.insert_tag
ret: r
sig:
    pub fn insert_tag(&mut self, key: String, val: String) -> (r: Option<String>)
rw `key.into()` => `key`
rw `val.into()` => `val`
spec:
    ensures
        final(self).tags is Some,
        own_tags(final(self).tags) == own_tags(old(self).tags).insert(key@, val@),
        r is Some <==> own_tags(old(self).tags).contains_key(key@),
        r is Some ==> r->0@ == own_tags(old(self).tags)[key@],
        same_but_tags(*old(self), *final(self)),
@*/
/*@ fn src/metric/logline.rs LogLine.remove_tag
attr: pub
ret: r
spec:
    ensures
        own_tags(final(self).tags) == own_tags(old(self).tags).remove(key@),
        r is Some <==> own_tags(old(self).tags).contains_key(key@),
        r is Some ==> r->0@ == own_tags(old(self).tags)[key@],
        same_but_tags(*old(self), *final(self)),
at fn-start:
    proof { assert(Map::<Str, Str>::empty().remove(key@) =~= Map::<Str, Str>::empty()); }
@*/
/*@ fn src/metric/logline.rs LogLine.overlay_tag
ret: r
sig:
    pub fn overlay_tag(self, key: String, val: String) -> (r: LogLine)
spec:
    ensures
        own_tags(r.tags) == own_tags(self.tags).insert(key@, val@),
        same_but_tags(self, r),
@*/
/*@ fn src/metric/logline.rs LogLine.overlay_tags_from_map
attr: pub
ret: r
rw `for ($k, $v) in map.iter()` => `let mut raw = map.iter(); while let Some(($k, $v)) = raw.next()`
spec:
    ensures
        own_tags(r.tags) == own_tags(self.tags).union_prefer_right(map@),
        same_but_tags(self, r),
at fn-start:
    let ghost tags0 = self.tags;
    proof { assert(Map::<Str, Str>::empty().union_prefer_right(map@) =~= map@); }
loop 1 while:
    invariant
        tags@ == tags0->0@.union_prefer_right(as_map(listed.take(listed.len() - raw.seq().len()))),
        raw.seq() == listed.skip(listed.len() - raw.seq().len()),
        raw.seq().len() <= listed.len(), listed.take(listed.len() as int) == listed,
        lists(listed, map@),
    ensures tags@ == tags0->0@.union_prefer_right(as_map(listed)), lists(listed, map@),
    decreases raw.seq().len()
at loop 1 before:
    let ghost listed = raw.seq();
    proof {
        assert(listed.take(0) =~= Seq::empty());
        assert(listed.skip(0) =~= listed);
        assert(listed.take(listed.len() as int) =~= listed);
        assert(tags0->0@.union_prefer_right(Map::<Str, Str>::empty()) =~= tags0->0@);
    }
at loop 1 start:
    proof {
        let n = listed.len() - raw.seq().len();
        assert(listed.take(n).drop_last() =~= listed.take(n - 1));
        assert(tags0->0@.union_prefer_right(as_map(listed.take(n - 1)).insert(k@, v@)) =~= tags0->0@.union_prefer_right(as_map(listed.take(n - 1))).insert(k@, v@));
    }
at loop 1 after:
    proof { lemma_as_map(listed, map@); }
@*/
}

}
