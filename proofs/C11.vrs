// C11: what the JSON encode filter makes of a line.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type Text = Seq<char>;
pub type Tags = Map<Text, Text>;
/// a JSON value; what is neither a text nor an object is of no concern here
pub enum J { Text(Text), Obj(Map<Text, J>), Other(int) }
pub uninterp spec fn json_text(j: J) -> Text;
/// what a text stands for, if it is JSON at all
pub uninterp spec fn json_of(t: Text) -> Option<J>;
pub uninterp spec fn utf8(t: Text) -> Seq<u8>;

// ---- serde_json
pub enum Value { String(String), Object(Object), Other(Rest) }
#[verifier::external_body]
pub struct Rest { _p: () }
impl Rest { pub uninterp spec fn id(&self) -> int; }
/// a map of JSON values
#[verifier::external_body]
pub struct Object { _p: () }
impl View for Object { type V = Map<Text, J>; uninterp spec fn view(&self) -> Map<Text, J>; }
impl Value {
    pub open spec fn j(self) -> J { match self { Value::String(s) => J::Text(s@), Value::Object(o) => J::Obj(o@), Value::Other(r) => J::Other(r.id()) } }
}
pub open spec fn lists<A>(s: Seq<(Text, A)>, m: Map<Text, A>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: Text| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
}
pub open spec fn members(v: Seq<(String, Value)>) -> Seq<(Text, J)> { v.map_values(|p: (String, Value)| (p.0@, p.1.j())) }
pub open spec fn pairs(v: Seq<(String, String)>) -> Seq<(Text, Text)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
impl Object {
    #[verifier::external_body]
    pub fn new() -> (r: Object) ensures r@ == Map::<Text, J>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) ensures final(self)@ == old(self)@.insert(k@, v.j()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &String) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_members(self) -> (r: Vec<(String, Value)>) ensures lists(members(r@), self@) { unimplemented!() }
}
/// Into
pub trait Convert<T> { spec fn conv(self) -> T; }
#[verifier::external_body]
pub fn text_value(s: String) -> (r: Value) ensures r.j() == J::Text(s@) { unimplemented!() }
/// json!({ a: v, b: w, c: x })
#[verifier::external_body]
pub fn json3(a: &str, v: String, b: &str, w: String, c: &str, x: Object) -> (r: Value)
    ensures r.j() == J::Obj(Map::<Text, J>::empty().insert(a@, J::Text(v@)).insert(b@, J::Text(w@)).insert(c@, J::Obj(x@))), r is Object
{ unimplemented!() }
/// json!({ a: v })
#[verifier::external_body]
pub fn json1(a: &str, v: String) -> (r: Value)
    ensures r.j() == J::Obj(Map::<Text, J>::empty().insert(a@, J::Text(v@))), r is Object
{ unimplemented!() }
pub mod serde_json {
    use super::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Error { _p: () }
    #[verifier::external_body]
    pub fn from_str(t: &String) -> (r: Result<Value, Error>)
        ensures r is Ok <==> json_of(t@) is Some, r is Ok ==> r->Ok_0.j() == json_of(t@)->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(o: &Object) -> (r: Result<String, Error>) ensures r is Ok, r->Ok_0@ == json_text(J::Obj(o@)) { unimplemented!() }
}
#[verifier::external_body]
pub fn into_bytes(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn random() -> (r: u64) { unimplemented!() }
// ---- chrono
#[verifier::external_body]
pub struct NaiveDate { _p: () }
#[verifier::external_body]
pub struct NaiveDateTime { _p: () }
impl NaiveDate {
    pub uninterp spec fn midnight(&self) -> int;
    #[verifier::external_body]
    pub fn and_hms(&self, h: u32, m: u32, s: u32) -> (r: NaiveDateTime)
        requires h < 24, m < 60, s < 60
        ensures r.secs() == self.midnight() + 3600 * h + 60 * m + s
    { unimplemented!() }
}
/// the seconds the calendar covers
pub uninterp spec fn first_day() -> int;
pub uninterp spec fn last_day() -> int;
pub open spec fn on_calendar(t: int) -> bool { first_day() <= t < last_day() + 86400 }
#[verifier::external_body]
pub fn min_date() -> (r: NaiveDate) ensures r.midnight() == first_day(), first_day() < 0 { unimplemented!() }
#[verifier::external_body]
pub fn max_date() -> (r: NaiveDate) ensures r.midnight() == last_day(), last_day() > 0 { unimplemented!() }
impl NaiveDateTime {
    pub uninterp spec fn secs(&self) -> int;
    #[verifier::external_body]
    pub fn from_timestamp_opt(t: i64, n: u32) -> (r: Option<NaiveDateTime>)
        requires n == 0
        ensures on_calendar(t as int) ==> r is Some && r->0.secs() == t, !on_calendar(t as int) ==> r is None
    { unimplemented!() }
}
pub struct Utc;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { _p: std::marker::PhantomData<T> }
impl DateTime<Utc> {
    pub uninterp spec fn of(&self) -> int;
    #[verifier::external_body]
    pub fn from_utc(t: NaiveDateTime, u: Utc) -> (r: DateTime<Utc>) ensures r.of() == t.secs() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_rfc3339(&self) -> (r: String) ensures r@ == rfc3339(self.of()) { unimplemented!() }
}
pub uninterp spec fn rfc3339(t: int) -> Text;
/// the place a timestamp has in the calendar: its own if it is covered, else the first or last day
pub open spec fn place(t: int) -> int { if on_calendar(t) { t } else if t < 0 { first_day() } else { last_day() } }
pub open spec fn moment_text(time: i64) -> Text { rfc3339(place(time as int)) }
/*@ fn src/time.rs calendar
ret: r
rw `NaiveDateTime::from_timestamp_opt($*t).unwrap_or_else(|| $*d)` => `match NaiveDateTime::from_timestamp_opt($*t) { Some(x_) => x_, None => { $*d } }`
rw `MIN_DATE` => `min_date()`
rw `MAX_DATE` => `max_date()`
spec:
    ensures r.of() == place(time as int)
@*/

// ---- events
pub mod metric {
    use super::*;
    #[verifier::external_body]
    pub struct TagMap { _p: () }
    impl View for TagMap { type V = Tags; uninterp spec fn view(&self) -> Tags; }
    impl TagMap {
        #[verifier::external_body]
        pub fn into_entries(self) -> (r: Vec<(String, String)>) ensures lists(pairs(r@), self@) { unimplemented!() }
    }
/*@ item src/metric/logline.rs struct LogLine
@*/
    impl LogLine {
        /// its tags, laid over others (C03)
        #[verifier::external_body]
        pub fn tags(&self, over: &TagMap) -> (r: Vec<(String, String)>) ensures lists(pairs(r@), layer(own(*self), over@)) { unimplemented!() }
    }
    pub open spec fn own(l: LogLine) -> Tags { match l.tags { Some(m) => m@, None => Map::empty() } }
    pub enum Encoding { Raw, Avro, JSON }
    #[verifier::external_body]
    pub struct Telemetry { _p: () }
    #[verifier::external_body]
    pub struct Metadata { _p: () }
    #[verifier::external_body]
    pub struct Uuid { _p: () }
/*@ item src/metric/event.rs enum Event
@*/
}
use metric::own;
pub open spec fn layer(own: Tags, def: Tags) -> Tags { def.union_prefer_right(own) }
pub mod filter { pub enum FilterError { NoSuchFunction, LuaError } }

// ---- what a line becomes
pub open spec fn texts(m: Tags) -> Map<Text, J> { m.map_values(|v: Text| J::Text(v)) }
/// what the line's text contributes
pub open spec fn said(t: Text, parse: bool) -> Map<Text, J> {
    if parse && json_of(t) is Some && json_of(t)->0 is Obj { json_of(t)->0->Obj_0 }
    else { Map::<Text, J>::empty().insert("message"@, J::Text(t)) }
}
pub open spec fn about(l: metric::LogLine, over: Tags) -> Map<Text, J> {
    Map::<Text, J>::empty().insert("time"@, J::Text(moment_text(l.time))).insert("path"@, J::Text(l.path@)).insert("tags"@, J::Obj(texts(layer(own(l), over))))
}
/// what the text says wins over the fields, and they over what is known about the line
pub open spec fn document(l: metric::LogLine, parse: bool, over: Tags) -> J {
    J::Obj(about(l, over).union_prefer_right(texts(l.fields@)).union_prefer_right(said(l.value@, parse)))
}
/// earlier ones win
pub open spec fn merged(objs: Seq<Map<Text, J>>) -> Map<Text, J>
    decreases objs.len()
{ if objs.len() == 0 { Map::empty() } else { objs.last().union_prefer_right(merged(objs.drop_last())) } }
pub open spec fn views(v: Seq<Object>) -> Seq<Map<Text, J>> { v.map_values(|o: Object| o@) }
pub open spec fn as_map<A>(s: Seq<(Text, A)>) -> Map<Text, A>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { as_map(s.drop_last()).insert(s.last().0, s.last().1) } }
pub proof fn lemma_as_map<A>(s: Seq<(Text, A)>)
    ensures
        forall|k: Text| #[trigger] as_map(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1 == as_map(s)[k],
        forall|i: int| 0 <= i < s.len() ==> as_map(s).contains_key((#[trigger] s[i]).0),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_as_map(t);
        assert forall|k: Text| #[trigger] as_map(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1 == as_map(s)[k] by {
            if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else {
                assert(as_map(t).contains_key(k));
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k && t[i].1 == as_map(t)[k];
                assert(s[i] == t[i]);
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies as_map(s).contains_key((#[trigger] s[i]).0) by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
    }
}
pub proof fn lemma_listed<A>(s: Seq<(Text, A)>, m: Map<Text, A>)
    requires lists(s, m)
    ensures as_map(s) == m
{
    lemma_as_map(s);
    assert forall|k: Text| as_map(s).contains_key(k) <==> m.contains_key(k) by {}
    assert(as_map(s) =~= m);
}
/// texts of a listing
pub open spec fn texts_of(s: Seq<(Text, Text)>) -> Seq<(Text, J)> { s.map_values(|p: (Text, Text)| (p.0, J::Text(p.1))) }
pub proof fn lemma_texts(s: Seq<(Text, Text)>, m: Tags)
    requires lists(s, m)
    ensures as_map(texts_of(s)) == texts(m)
{
    let t = texts_of(s);
    assert forall|k: Text| texts(m).contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(t[i].0 == k);
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).0 == (#[trigger] t[j]).0 implies i == j by { assert(s[i].0 == s[j].0); }
    assert forall|i: int| 0 <= i < t.len() implies texts(m).contains_key((#[trigger] t[i]).0) && texts(m)[t[i].0] == t[i].1 by { assert(m.contains_key(s[i].0)); }
    lemma_listed(t, texts(m));
}

/*@ rewrites
rw `Map<String, Value>` => `Object`
rw `Map::new()` => `Object::new()`
rw `$A.fetch_add($*a);` => ``
@*/
/*@ fn src/filter/json_encode_filter.rs json_to_object
ret: r
rw `unreachable!()` => `vstd::pervasive::unreached()`
spec:
    requires v is Object
    ensures v == Value::Object(r)
@*/
/*@ fn src/filter/json_encode_filter.rs merge_objects
ret: r
rw `for (key, value) in obj { $*b }` => `{ let all_ = obj.into_members(); for (key, value) in all_ { $*b } }`
spec:
    ensures r@ == merged(views(objs@))
loop 1 for iter it:
    invariant
        it.seq() == objs@,
        result@ == merged(views(objs@).take(it.index() as int)),
at loop 1 start:
    let ghost before = result@;
    let ghost this = obj@;
    proof { assert(views(objs@).take(it.index() + 1).drop_last() =~= views(objs@).take(it.index() as int)); }
loop 2 for iter mi:
    invariant
        mi.seq() == all_@, lists(members(mi.seq()), this),
        result@ == as_map(members(mi.seq()).take(mi.index() as int)).union_prefer_right(before),
at loop 2 before:
    proof { assert(Map::<Text, J>::empty().union_prefer_right(before) =~= before); }
at loop 2 start:
    let ghost got = members(mi.seq()).take(mi.index() as int);
    let ghost r0 = result@;
    proof {
        let all = members(mi.seq());
        assert(all.take(mi.index() + 1).drop_last() =~= got);
        assert(all[mi.index() as int] == (key@, value.j()));
        lemma_as_map(got);
        if as_map(got).contains_key(key@) {
            let i = choose|i: int| 0 <= i < got.len() && (#[trigger] got[i]).0 == key@ && got[i].1 == as_map(got)[key@];
            assert(all[i].0 == all[mi.index() as int].0);
        }
        assert(as_map(all.take(mi.index() + 1)) == as_map(got).insert(key@, value.j()));
        assert(as_map(got).insert(key@, value.j()).union_prefer_right(before) =~= if before.contains_key(key@) { r0 } else { r0.insert(key@, value.j()) });
    }
at loop 2 after:
    proof {
        let all = members(all_@);
        assert(all.take(all.len() as int) =~= all);
        lemma_listed(all, this);
    }
at loop 1 after:
    proof { assert(views(objs@).take(objs@.len() as int) =~= views(objs@)); }
@*/

/*@ item src/filter/json_encode_filter.rs struct JSONEncodeFilter
@*/
pub open spec fn encoded(e: metric::Event, l: metric::LogLine, parse: bool, over: Tags) -> bool {
    match e {
        metric::Event::Raw { order_by, encoding, bytes, metadata, connection_id } =>
            encoding is JSON && bytes@ == utf8(json_text(document(l, parse, over))) && metadata is None && connection_id is None,
        _ => false,
    }
}
impl JSONEncodeFilter {
/*@ fn src/filter/json_encode_filter.rs Filter@JSONEncodeFilter.process
ret: r
rw `merge_objects(vec![$a, Map::from_iter($*f), $b,])` => `{ let fields_ = Map::from_iter($*f); let given_objs_ = vec![$a, fields_, $b]; let both_ = merge_objects(given_objs_); both_ }`
rw `Map::from_iter(log.tags($*o).map(|(k, v): (&String, &String)| ($*b)))` => `{ let mut m_ = Object::new(); let given_ = log.tags($*o); for (k, v) in given_ { let e_ = ($*b); m_.insert(e_.0, e_.1); } m_ }`
rw `Map::from_iter(log.fields.into_iter().map(|(k, v)| ($*b)))` => `{ let mut m_ = Object::new(); let given_ = log.fields.into_entries(); for (k, v) in given_ { let e_ = ($*b); m_.insert(e_.0, e_.1); } m_ }`
rw `v.to_string().into()` => `text_value(v)`
rw `v.into()` => `text_value(v)`
rw `k.to_string()` => `k`
rw `json!({ $a: $*v, $b: $*w, $c: $*x, })` => `json3($a, $*v, $b, $*w, $c, $*x)`
rw `json!({ $a: $*v })` => `json1($a, $*v)`
rw `serde_json::from_str::<Value>` => `serde_json::from_str`
rw `serde_json::to_string($*v).unwrap().into()` => `into_bytes(serde_json::to_string($*v).unwrap())`
rw `(if $*c { Some(()) } else { None }).and_then(|_| $*a).and_then(|v| { $*b }).map(|v| { $*m }).unwrap_or_else(|| { $*d })` => `{ let o0_ = (if $*c { Some(()) } else { None }); let o1_ = match o0_ { Some(_) => $*a, None => None }; let o2_ = match o1_ { Some(v) => { $*b }, None => None }; let o3_ = match o2_ { Some(v) => Some({ $*m }), None => None }; match o3_ { Some(x_) => x_, None => { $*d } } }`
spec:
    ensures
        r is Ok, *final(self) == *old(self),
        match event {
            metric::Event::Log(l) =>
                final(res)@ == old(res)@.push(final(res)@.last())
                && encoded(final(res)@.last(), l, old(self).parse_line, old(self).tags@),
            e => final(res)@ == old(res)@.push(e),
        },
loop 1 for iter ti:
    invariant
        ti.seq() == given_@, lists(pairs(ti.seq()), layer(own(log), self.tags@)),
        m_@ == as_map(texts_of(pairs(ti.seq())).take(ti.index() as int)),
at loop 1 start:
    proof {
        let t = texts_of(pairs(ti.seq()));
        assert(t.take(ti.index() + 1).drop_last() =~= t.take(ti.index() as int));
    }
at loop 1 after:
    proof {
        let p = pairs(given_@);
        assert(texts_of(p).take(p.len() as int) =~= texts_of(p));
        lemma_texts(p, layer(own(log), self.tags@));
    }
loop 2 for iter fi:
    invariant
        fi.seq() == given_@, lists(pairs(fi.seq()), fields0),
        m_@ == as_map(texts_of(pairs(fi.seq())).take(fi.index() as int)),
at loop 2 start:
    proof {
        let t = texts_of(pairs(fi.seq()));
        assert(t.take(fi.index() + 1).drop_last() =~= t.take(fi.index() as int));
    }
at loop 2 after:
    proof {
        let p = pairs(given_@);
        assert(texts_of(p).take(p.len() as int) =~= texts_of(p));
        lemma_texts(p, fields0);
    }
at before `let given_objs_`:
    let ghost three = seq![said0, texts(fields0), about(log, self.tags@)];
    proof { assert(fields_@ == texts(fields0)); }
at before `both_ }`:
    proof {
        assert(three.drop_last() =~= seq![said0, texts(fields0)]);
        assert(three.drop_last().drop_last() =~= seq![said0]);
        assert(three.drop_last().drop_last().drop_last() =~= Seq::<Map<Text, J>>::empty());
        reveal_with_fuel(merged, 4);
        assert(said0.union_prefer_right(Map::<Text, J>::empty()) =~= said0);
        assert(Map::<Text, J>::empty().union_prefer_right(said0) =~= said0);
        assert(views(given_objs_@) =~= three);
        assert(both_@ == merged(three));
        assert(both_@ =~= about(log, self.tags@).union_prefer_right(texts(fields0)).union_prefer_right(said0));
        assert(J::Obj(both_@) == document(log, self.parse_line, self.tags@));
    }
at before `let fields_`:
    let ghost said0 = value@;
    let ghost fields0 = log.fields@;
    proof { assert(said0 == said(log.value@, self.parse_line)); assert(metadata@ == about(log, self.tags@)); }
@*/
}
fn main() {}
} // verus!
