// C06: cernan's native protocol, from the native sink to the native source.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
/*@ rewrites
rw `::std::mem::replace` => `mem::replace`
@*/
//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc
//@include inc/build.inc
pub type Text = Seq<char>;
pub type Tags = Map<Text, Text>;
pub uninterp spec fn map_of(t: TagMap) -> Tags;
pub open spec fn tags_of(t: Option<TagMap>) -> Tags { match t { Some(m) => map_of(m), None => Map::empty() } }
/// what a list of pairs makes a map into, one put after the other
pub open spec fn put_all(s: Seq<(String, String)>) -> Tags
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { put_all(s.drop_last()).insert(s.last().0@, s.last().1@) }
}
/// the tags of an event over the configured ones
pub open spec fn over(defaults: TagMap, own: Option<TagMap>) -> Tags { map_of(defaults).union_prefer_right(tags_of(own)) }
pub proof fn lemma_put(s: Seq<(String, String)>, n: int)
    requires 0 <= n < s.len()
    ensures put_all(s.take(n + 1)) == put_all(s.take(n)).insert(s[n].0@, s[n].1@)
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
/// HashMap<String, String>
#[verifier::external_body]
pub struct Meta { _p: () }
impl View for Meta { type V = Tags; uninterp spec fn view(&self) -> Tags; }
impl Meta {
    /// its entries in the order it is walked
    pub uninterp spec fn list(&self) -> Seq<(String, String)>;
    #[verifier::external_body]
    pub fn new() -> (r: Meta) ensures r@ == Map::<Text, Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    /// every entry once, in any order
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<(String, String)>) ensures put_all(r@) == old(self)@, final(self)@ == Map::<Text, Text>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Vec<(String, String)>) ensures put_all(r@) == self@ { unimplemented!() }
}
/// what is taken for a String
pub trait Copied { spec fn tx(&self) -> Text; fn copied(&self) -> (r: String) ensures r@ == self.tx(); }
impl Copied for String {
    open spec fn tx(&self) -> Text { self@ }
    #[verifier::external_body]
    fn copied(&self) -> (r: String) { unimplemented!() }
}
pub trait Blank: Sized { spec fn blank(&self) -> bool; }
impl Blank for String { open spec fn blank(&self) -> bool { self@ == Seq::<char>::empty() } }
impl<T> Blank for Vec<T> { open spec fn blank(&self) -> bool { self@ == Seq::<T>::empty() } }
#[verifier::external_body]
pub fn blanked<T: Blank>(s: &mut T) -> (r: T) ensures r == *old(s), final(s).blank() { unimplemented!() }
#[verifier::external_body]
pub fn empty_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub open spec fn sat(x: int) -> i64 { if x > i64::MAX { i64::MAX } else if x < i64::MIN { i64::MIN } else { x as i64 } }
pub trait Scaled { spec fn num(&self) -> int; fn sat_mul(self, k: i64) -> (r: i64) ensures r == sat(self.num() * k); }
impl Scaled for i64 {
    open spec fn num(&self) -> int { *self as int }
    #[verifier::external_body]
    fn sat_mul(self, k: i64) -> (r: i64) { unimplemented!() }
}
/// division of machine integers, towards zero
pub open spec fn quot(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
#[verifier::external_body]
pub fn div(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == quot(a as int, b as int) { a / b }

// ---- points and lines
/*@ item src/metric/logline.rs struct LogLine
@*/
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct Encoding { _p: () }
/*@ item src/metric/event.rs enum Event
@*/
impl Telemetry {
    /// C03 proves these of points and of lines
    #[verifier::external_body]
    pub fn overlay_tag(self, key: String, val: String) -> (r: Telemetry)
        ensures r == (Telemetry { tags: r.tags, ..self }), tags_of(r.tags) == tags_of(self.tags).insert(key@, val@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tags(&self, defaults: &TagMap) -> (r: Vec<(String, String)>) ensures put_all(r@) == over(*defaults, self.tags) { unimplemented!() }
    /// the samples that can be seen of a point
    pub open spec fn seen(&self) -> Seq<f64> {
        match self.value->0 {
            Value::Set(x) => Seq::empty().push(x),
            Value::Sum(x) => Seq::empty().push(x),
            Value::Quantiles { ckms, sum } => ckms_stored(ckms.data()),
            Value::Histogram(h) => counts_of(h),
        }
    }
/*@ fn src/metric/telemetry.rs Telemetry.insert
ret: r
spec:
    requires self.ok(), self.override_sample_sum is None, self.override_count is None,
    ensures
        r.ok(), r.agg() == with_sample(self.agg(), value),
        r.name == self.name, r.tags == self.tags, r.timestamp == self.timestamp, r.persist == self.persist,
        r.override_sample_sum is None, r.override_count is None,
at fn-start:
    broadcast use floats;
@*/
/*@ fn src/metric/telemetry.rs Telemetry.samples
ret: r
rw `ckms.clone().into_vec()` => `stored(ckms)`
rw `histo.clone().into_vec().iter().map(|$x| $*e).collect()` => `counts(histo)`
spec:
    requires self.ok()
    ensures r@ == self.seen()
@*/
}
pub uninterp spec fn counts_of(h: Histogram<f64>) -> Seq<f64>;
#[verifier::external_body]
pub fn counts(h: &Histogram<f64>) -> (r: Vec<f64>) ensures r@ == counts_of(*h) { unimplemented!() }
#[verifier::external_body]
pub fn stored(c: &CKMS<f64>) -> (r: Vec<f64>) ensures r@ == ckms_stored(c.data()) { unimplemented!() }
/// What inserting one more sample does to a point.
pub open spec fn with_sample(a: Agg, x: f64) -> Agg {
    match a {
        Agg::Set(_) => Agg::Set(x),
        Agg::Sum(s) => Agg::Sum(fadd(s, x)),
        Agg::Hist { data, bounds, sum } => Agg::Hist { data: data.insert(x), bounds, sum: sum_with(sum, x) },
        Agg::Quant { data, sum } => Agg::Quant { data: data.insert(x), sum: fadd(sum, x) },
    }
}
impl LogLine {
/*@ fn src/metric/logline.rs LogLine.new
ret: r
sig:
    pub fn new(path: String, value: String) -> (r: LogLine)
rw `path.into()` => `path`
rw `value.into()` => `value`
rw `tags: Default::default()` => `tags: None`
rw `fields: Default::default()` => `fields: no_fields()`
spec:
    ensures r.path == path, r.value == value, r.tags is None, map_of(r.fields) == Map::<Text, Text>::empty()
@*/
/*@ fn src/metric/logline.rs LogLine.time
ret: r
spec:
    ensures r == (LogLine { time, ..self })
@*/
    #[verifier::external_body]
    pub fn overlay_tag(self, key: String, val: String) -> (r: LogLine)
        ensures r == (LogLine { tags: r.tags, ..self }), tags_of(r.tags) == tags_of(self.tags).insert(key@, val@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn tags(&self, defaults: &TagMap) -> (r: Vec<(String, String)>) ensures put_all(r@) == over(*defaults, self.tags) { unimplemented!() }
}
#[verifier::external_body]
pub fn no_fields() -> (r: TagMap) ensures map_of(r) == Map::<Text, Text>::empty() { unimplemented!() }
impl Event {
/*@ fn src/metric/event.rs Event.new_telemetry
ret: r
spec:
    ensures r == Event::Telemetry(metric)
@*/
/*@ fn src/metric/event.rs Event.new_log
ret: r
spec:
    ensures r == Event::Log(log)
@*/
}
pub mod metric { pub use super::{Event, Telemetry, LogLine, AggregationMethod, TagMap}; }

// ================================================================ the protocol's messages
/// a payload as its definition states it
pub struct PayloadV { pub points: Seq<PointV>, pub lines: Seq<LineV>, pub unknown: Seq<u8> }
pub struct PointV { pub name: Text, pub samples: Seq<f64>, pub persisted: bool, pub method: pb::AggregationMethod, pub meta: Tags, pub ts_ms: i64, pub bounds: Seq<f64>, pub unknown: Seq<u8> }
pub struct LineV { pub path: Text, pub value: Text, pub meta: Tags, pub ts_ms: i64, pub unknown: Seq<u8> }
// ---- the wire format of protobuf
pub enum WireType { WireTypeVarint, WireTypeFixed64, WireTypeLengthDelimited, WireTypeStartGroup, WireTypeEndGroup, WireTypeFixed32 }
pub use WireType::*;
pub open spec fn wt(w: WireType) -> int {
    match w { WireTypeVarint => 0, WireTypeFixed64 => 1, WireTypeLengthDelimited => 2, WireTypeStartGroup => 3, WireTypeEndGroup => 4, WireTypeFixed32 => 5 }
}
/// base 128, least significant first
pub uninterp spec fn varint(n: int) -> Seq<u8>;
pub broadcast axiom fn ax_varint(n: int) ensures 1 <= (#[trigger] varint(n)).len() <= 10;
pub broadcast axiom fn ax_varint1(n: int) requires 0 <= n < 128 ensures (#[trigger] varint(n)).len() == 1;
pub uninterp spec fn utf8b(t: Text) -> Seq<u8>;
/// the eight bytes of a double
pub uninterp spec fn eight(x: f64) -> Seq<u8>;
pub broadcast axiom fn ax_eight(x: f64) ensures (#[trigger] eight(x)).len() == 8;
pub open spec fn tagb(n: u32, w: WireType) -> Seq<u8> { varint(n * 8 + wt(w)) }
pub open spec fn two(v: i64) -> int { if v >= 0 { v as int } else { v + 0x1_0000_0000_0000_0000 } }
pub open spec fn eights(s: Seq<f64>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { eights(s.drop_last()) + eight(s.last()) } }
pub open spec fn counted(b: Seq<u8>) -> Seq<u8> { varint(b.len() as int) + b }
/// one field of a message
pub enum Part {
    Txt { n: u32, s: Text },
    Packed { n: u32, s: Seq<f64> },
    Bool { n: u32, b: bool },
    Choice { n: u32, k: i32 },
    Pair { n: u32, k: Text, v: Text },
    Num { n: u32, v: i64 },
    Double { n: u32, x: f64 },
    Msg { n: u32, b: Seq<u8> },
    Unknown { b: Seq<u8> },
}
pub open spec fn pair_bytes(k: Text, v: Text) -> Seq<u8> {
    (tagb(1, WireTypeLengthDelimited) + counted(utf8b(k))) + (tagb(2, WireTypeLengthDelimited) + counted(utf8b(v)))
}
pub open spec fn wire(p: Part) -> Seq<u8> {
    match p {
        Part::Txt { n, s } => tagb(n, WireTypeLengthDelimited) + counted(utf8b(s)),
        Part::Packed { n, s } => tagb(n, WireTypeLengthDelimited) + counted(eights(s)),
        Part::Bool { n, b } => tagb(n, WireTypeVarint) + varint(if b { 1 } else { 0 }),
        Part::Choice { n, k } => tagb(n, WireTypeVarint) + varint(two(k as i64)),
        Part::Pair { n, k, v } => tagb(n, WireTypeLengthDelimited) + counted(pair_bytes(k, v)),
        Part::Num { n, v } => tagb(n, WireTypeVarint) + varint(two(v)),
        Part::Double { n, x } => tagb(n, WireTypeFixed64) + eight(x),
        Part::Msg { n, b } => tagb(n, WireTypeLengthDelimited) + counted(b),
        Part::Unknown { b } => b,
    }
}
pub open spec fn wires(s: Seq<Part>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { wires(s.drop_last()) + wire(s.last()) } }
pub proof fn lemma_wires(a: Seq<Part>, b: Seq<Part>)
    ensures wires(a + b) == wires(a) + wires(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(wires(a) + wires(b) =~= wires(a)); }
    else {
        lemma_wires(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(wires(a) + (wires(b.drop_last()) + wire(b.last())) =~= (wires(a) + wires(b.drop_last())) + wire(b.last()));
    }
}
pub proof fn lemma_push(a: Seq<Part>, p: Part)
    ensures wires(a.push(p)) == wires(a) + wire(p)
{ assert(a.push(p).drop_last() =~= a); }
pub proof fn lemma_prefix(a: Seq<Part>, n: int)
    requires 0 <= n <= a.len()
    ensures wires(a.take(n)).len() <= wires(a).len()
{
    lemma_wires(a.take(n), a.skip(n));
    assert(a.take(n) + a.skip(n) =~= a);
}
pub proof fn lemma_eights(s: Seq<f64>)
    ensures eights(s).len() == 8 * s.len()
    decreases s.len()
{ broadcast use ax_eight; if s.len() > 0 { lemma_eights(s.drop_last()); } }
pub broadcast group wire_facts { ax_varint, ax_varint1, ax_eight }

pub mod pb {
use super::*;
/*@ item src/protocols/native.rs enum AggregationMethod
@*/
impl Copy for AggregationMethod {}
impl Clone for AggregationMethod {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
// ---- the protobuf crate, by its documented interface
/// SingularField
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Single<T> { _p: std::marker::PhantomData<T> }
impl<T> Single<T> {
    pub uninterp spec fn opt(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn some(v: T) -> (r: Single<T>) ensures r.opt() == Some(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Option<T>) ensures r == old(self).opt(), final(self).opt() is None { unimplemented!() }
    /// as_ref
    #[verifier::external_body]
    pub fn held(&self) -> (r: Option<&T>) ensures match self.opt() { Some(x) => r is Some && *r->0 == x, None => r is None } { unimplemented!() }
}
/// RepeatedField
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Rep<T> { _p: std::marker::PhantomData<T> }
impl<T> View for Rep<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Rep<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Rep<T>) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Rep<T>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Unknown { _p: () }
impl Unknown { pub uninterp spec fn b(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Cached { _p: () }
pub mod rt {
use super::*;
#[verifier::external_body]
pub fn compute_raw_varint32_size(n: u32) -> (r: u32) ensures r == varint(n as int).len() { unimplemented!() }
#[verifier::external_body]
pub fn string_size(n: u32, s: &&String) -> (r: u32)
    requires wire(Part::Txt { n, s: s@ }).len() <= u32::MAX
    ensures r == wire(Part::Txt { n, s: s@ }).len()
{ unimplemented!() }
#[verifier::external_body]
pub fn enum_size(n: u32, e: AggregationMethod) -> (r: u32) ensures r == wire(Part::Choice { n, k: num(e) }).len() { unimplemented!() }
#[verifier::external_body]
pub fn value_size(n: u32, v: i64, w: WireType) -> (r: u32) ensures w is WireTypeVarint ==> r == wire(Part::Num { n, v }).len() { unimplemented!() }
#[verifier::external_body]
pub fn compute_map_size(n: u32, m: &Meta) -> (r: u32)
    requires wires(pairs(n, m.list())).len() <= u32::MAX
    ensures r == wires(pairs(n, m.list())).len()
{ unimplemented!() }
#[verifier::external_body]
pub fn unknown_fields_size(u: &Unknown) -> (r: u32)
    requires u.b().len() <= u32::MAX
    ensures r == u.b().len()
{ unimplemented!() }
/// the map is walked in the same order as long as nobody changes it
#[verifier::external_body]
pub fn write_map_with_cached_sizes(n: u32, m: &Meta, os: &mut CodedOutputStream, w: &mut World) -> (r: Result<(), Failed>)
    ensures coded(*old(w), *final(w), r is Ok, wires(pairs(n, m.list())))
{ unimplemented!() }
}
pub open spec fn pairs(n: u32, s: Seq<(String, String)>) -> Seq<Part> { s.map_values(|e: (String, String)| Part::Pair { n, k: e.0@, v: e.1@ }) }
pub open spec fn num(m: AggregationMethod) -> i32 {
    match m { AggregationMethod::SUM => 1, AggregationMethod::SET => 2, AggregationMethod::SUMMARIZE => 3, AggregationMethod::BIN => 4 }
}
impl AggregationMethod {
    /// `*self as i32`
    #[verifier::external_body]
    pub fn value(&self) -> (r: i32) ensures r == num(*self) { *self as i32 }
}
pub trait Each<T> { spec fn each_of(&self) -> Seq<T>; fn each(&self) -> (r: Vec<&T>) ensures r@.len() == self.each_of().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.each_of()[i]; }
impl<T> Each<T> for Rep<T> {
    open spec fn each_of(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn each(&self) -> (r: Vec<&T>) { unimplemented!() }
}
impl<T> Each<T> for Vec<T> {
    open spec fn each_of(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn each(&self) -> (r: Vec<&T>) { unimplemented!() }
}
pub open spec fn doubles(n: u32, s: Seq<f64>) -> Seq<Part> { s.map_values(|x: f64| Part::Double { n, x }) }
pub proof fn lemma_doubles(n: u32, s: Seq<f64>)
    requires n < 16
    ensures wires(doubles(n, s)).len() == 9 * s.len()
    decreases s.len()
{
    broadcast use wire_facts;
    if s.len() > 0 {
        lemma_doubles(n, s.drop_last());
        assert(doubles(n, s).drop_last() =~= doubles(n, s.drop_last()));
    }
}
pub proof fn lemma_one(p: Part)
    ensures wires(Seq::empty().push(p)) == wire(p)
{
    reveal_with_fuel(wires, 2);
    assert(Seq::empty().push(p).drop_last() =~= Seq::<Part>::empty());
    assert(Seq::<u8>::empty() + wire(p) =~= wire(p));
}
pub proof fn lemma_nothing(a: World, b: World)
    ensures a == b ==> coded(a, b, true, Seq::empty())
{ assert(a.pending() + Seq::<u8>::empty() =~= a.pending()); }
pub proof fn lemma_eights0(a: World, s: Seq<f64>)
    ensures coded(a, a, true, eights(s.take(0))), s.len() == 0 ==> coded(a, a, true, eights(s))
{ assert(s.take(0) =~= Seq::<f64>::empty()); assert(a.pending() + Seq::<u8>::empty() =~= a.pending()); assert(s.len() == 0 ==> s =~= s.take(0)); }
pub proof fn lemma_eights1(a: World, s: Seq<f64>, n: int)
    requires 0 <= n < s.len()
    ensures (a.pending() + eights(s.take(n))) + eight(s[n]) == a.pending() + eights(s.take(n + 1)), n + 1 == s.len() ==> s.take(n + 1) == s
{
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert((a.pending() + eights(s.take(n))) + eight(s[n]) =~= a.pending() + eights(s.take(n + 1)));
    assert(n + 1 == s.len() ==> s.take(n + 1) =~= s);
}
pub proof fn lemma_doubles0(a: World, n: u32, s: Seq<f64>)
    ensures coded(a, a, true, wires(doubles(n, s).take(0))), s.len() == 0 ==> coded(a, a, true, wires(doubles(n, s)))
{ assert(doubles(n, s).take(0) =~= Seq::<Part>::empty()); assert(a.pending() + Seq::<u8>::empty() =~= a.pending()); assert(s.len() == 0 ==> doubles(n, s) =~= doubles(n, s).take(0)); }
pub proof fn lemma_parts1(a: World, d: Seq<Part>, k: int)
    requires 0 <= k < d.len()
    ensures (a.pending() + wires(d.take(k))) + wire(d[k]) == a.pending() + wires(d.take(k + 1)), k + 1 == d.len() ==> d.take(k + 1) == d
{
    assert(d.take(k + 1).drop_last() =~= d.take(k));
    assert((a.pending() + wires(d.take(k))) + wire(d[k]) =~= a.pending() + wires(d.take(k + 1)));
    assert(k + 1 == d.len() ==> d.take(k + 1) =~= d);
}
pub proof fn lemma_doubles1(a: World, n: u32, s: Seq<f64>, k: int)
    requires 0 <= k < s.len()
    ensures (a.pending() + wires(doubles(n, s).take(k))) + wire(Part::Double { n, x: s[k] }) == a.pending() + wires(doubles(n, s).take(k + 1)),
        k + 1 == s.len() ==> doubles(n, s).take(k + 1) == doubles(n, s)
{ lemma_parts1(a, doubles(n, s), k); }
pub open spec fn opt<T>(o: Option<T>, f: spec_fn(T) -> Part) -> Seq<Part> { match o { Some(x) => Seq::empty().push(f(x)), None => Seq::empty() } }
pub open spec fn text_or(o: Option<String>) -> Text { match o { Some(s) => s@, None => Seq::empty() } }
/// unwrap_or_else(String::new)
#[verifier::external_body]
pub fn or_blank(o: Option<String>) -> (r: String) ensures r@ == text_or(o) { unimplemented!() }
pub open spec fn or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
/*@ rewrites
rw `::protobuf::SingularField` => `Single`
rw `::protobuf::RepeatedField` => `Rep`
rw `::protobuf::UnknownFields` => `Unknown`
rw `::protobuf::CachedSize` => `Cached`
rw `::std::collections::HashMap<::std::string::String, ::std::string::String>` => `Meta`
rw `::std::collections::HashMap` => `Meta`
rw `self.$x.take().unwrap_or_else(|| ::std::string::String::new())` => `or_blank(self.$x.take())`
rw `::std::string::String` => `String`
rw `::std::vec::Vec` => `Vec`
rw `::std::option::Option` => `Option`
rw `::std::result::Result` => `Result`
rw `::protobuf::ProtobufResult<()>` => `Result<(), Failed>`
rw `::protobuf::wire_format::` => ``
rw `::protobuf::rt::compute_map_size::<$*a>(` => `rt::compute_map_size(`
rw `::protobuf::rt::write_map_with_cached_sizes::<$*a>($*b)` => `rt::write_map_with_cached_sizes($*b, w)`
rw `::protobuf::rt::` => `rt::`
rw `self.$x.as_ref()` => `self.$x.held()`
rw `if let Some(ref $v) = self.$x.held()` => `if let Some($v) = self.$x.held()`
rw `for $v in &self.$x {` => `for $v in self.$x.each() {`
rw `self.get_unknown_fields()` => `&self.unknown_fields`
rw `self.cached_size.set(my_size);` => ``
rw `os.write_tag($*a)` => `os.write_tag($*a, w)`
rw `os.write_raw_varint32($*a)` => `os.write_raw_varint32($*a, w)`
rw `os.write_string($*a)` => `os.write_string($*a, w)`
rw `os.write_double($*a)` => `os.write_double($*a, w)`
rw `os.write_double_no_tag($*a)` => `os.write_double_no_tag($*a, w)`
rw `os.write_bool($*a)` => `os.write_bool($*a, w)`
rw `os.write_enum($*a)` => `os.write_enum($*a, w)`
rw `os.write_int64($*a)` => `os.write_int64($*a, w)`
rw `os.write_unknown_fields($*a)` => `os.write_unknown_fields($*a, w)`
rw `v.write_to_with_cached_sizes(os)` => `v.write_to_with_cached_sizes(os, w)`
@*/
/*@ item src/protocols/native.rs struct Telemetry
@*/
/*@ item src/protocols/native.rs struct LogLine
@*/
/*@ item src/protocols/native.rs struct Payload
@*/
impl Telemetry {
    pub closed spec fn v(&self) -> PointV {
        PointV { name: text_or(self.name.opt()), samples: self.samples@, persisted: or(self.persisted, false), method: or(self.method, AggregationMethod::SUMMARIZE),
                 meta: self.metadata@, ts_ms: or(self.timestamp_ms, 0), bounds: self.bin_bounds@, unknown: self.unknown_fields.b() }
    }
    pub closed spec fn part(&self, i: int) -> Seq<Part> {
        if i == 1 { opt(self.name.opt(), |s: String| Part::Txt { n: 1, s: s@ }) }
        else if i == 2 { if self.samples@.len() > 0 { Seq::empty().push(Part::Packed { n: 2, s: self.samples@ }) } else { Seq::empty() } }
        else if i == 3 { opt(self.persisted, |b: bool| Part::Bool { n: 3, b }) }
        else if i == 4 { opt(self.method, |m: AggregationMethod| Part::Choice { n: 4, k: num(m) }) }
        else if i == 5 { pairs(5, self.metadata.list()) }
        else if i == 6 { opt(self.timestamp_ms, |v: i64| Part::Num { n: 6, v }) }
        else if i == 7 { doubles(7, self.bin_bounds@) }
        else { Seq::empty().push(Part::Unknown { b: self.unknown_fields.b() }) }
    }
    /// the fields up to the i-th
    pub closed spec fn parts(&self, i: int) -> Seq<Part>
        decreases i
    { if i <= 0 { Seq::empty() } else { self.parts(i - 1) + self.part(i) } }
    pub open spec fn bytes(&self) -> Seq<u8> { wires(self.parts(8)) }
    /// as computed when the size of the payload was
    #[verifier::external_body]
    pub fn get_cached_size(&self) -> (r: u32) requires self.bytes().len() <= u32::MAX ensures r == self.bytes().len() { unimplemented!() }
    proof fn lemma_parts(&self)
        ensures
            forall|i: int| 1 <= i <= 8 ==> wires(#[trigger] self.parts(i)) == wires(self.parts(i - 1)) + wires(self.part(i)),
            self.parts(0).len() == 0,
            forall|i: int| 0 <= i <= 8 ==> wires(#[trigger] self.parts(i)).len() <= self.bytes().len(),
            wires(self.part(7)).len() == 9 * self.bin_bounds@.len(), eights(self.samples@).len() == 8 * self.samples@.len(),
    {
        reveal_with_fuel(Telemetry::parts, 9);
        assert forall|i: int| 1 <= i <= 8 implies wires(#[trigger] self.parts(i)) == wires(self.parts(i - 1)) + wires(self.part(i)) by { lemma_wires(self.parts(i - 1), self.part(i)); }
        assert(wires(self.parts(8)) == wires(self.parts(7)) + wires(self.part(8)));
        assert(wires(self.parts(7)) == wires(self.parts(6)) + wires(self.part(7)));
        assert(wires(self.parts(6)) == wires(self.parts(5)) + wires(self.part(6)));
        assert(wires(self.parts(5)) == wires(self.parts(4)) + wires(self.part(5)));
        assert(wires(self.parts(4)) == wires(self.parts(3)) + wires(self.part(4)));
        assert(wires(self.parts(3)) == wires(self.parts(2)) + wires(self.part(3)));
        assert(wires(self.parts(2)) == wires(self.parts(1)) + wires(self.part(2)));
        assert(wires(self.parts(1)) == wires(self.parts(0)) + wires(self.part(1)));
        assert forall|i: int| 0 <= i <= 8 implies wires(#[trigger] self.parts(i)).len() <= self.bytes().len() by {}
        lemma_doubles(7, self.bin_bounds@);
        lemma_eights(self.samples@);
    }
    proof fn lemma_fits(&self)
        requires self.bytes().len() <= u32::MAX
        ensures self.samples@.len() * 8 <= u32::MAX
    {
        broadcast use wire_facts;
        self.lemma_parts();
        reveal_with_fuel(wires, 2);
        assert(wires(self.parts(2)).len() == wires(self.parts(1)).len() + wires(self.part(2)).len());
    }
/*@ fn src/protocols/native.rs Message@Telemetry.compute_size
attr: pub
ret: r
spec:
    requires self.bytes().len() <= u32::MAX
    ensures r == self.bytes().len()
at fn-start:
    broadcast use wire_facts;
    proof {
        self.lemma_parts();
        reveal_with_fuel(wires, 2);
        assert(wires(self.parts(0)).len() == 0);
        assert(wires(self.parts(1)).len() == wires(self.part(1)).len());
        assert(wires(self.parts(2)).len() == wires(self.parts(1)).len() + wires(self.part(2)).len());
        assert(wires(self.parts(3)).len() == wires(self.parts(2)).len() + wires(self.part(3)).len());
        assert(wires(self.parts(4)).len() == wires(self.parts(3)).len() + wires(self.part(4)).len());
        assert(wires(self.parts(5)).len() == wires(self.parts(4)).len() + wires(self.part(5)).len());
        assert(wires(self.parts(6)).len() == wires(self.parts(5)).len() + wires(self.part(6)).len());
        assert(wires(self.parts(7)).len() == wires(self.parts(6)).len() + wires(self.part(7)).len());
        assert(wires(self.parts(8)).len() == wires(self.parts(7)).len() + wires(self.part(8)).len());
    }
@*/
    /// the fields up to the i-th are written
    closed spec fn done(&self, w0: World, w: World, i: int) -> bool {
        w.pending() == w0.pending() + wires(self.parts(i)) && w.buffered() == w0.buffered() && w.out() == w0.out() && w.broken() == w0.broken()
    }
    proof fn lemma_none(&self, w0: World)
        ensures self.done(w0, w0, 0)
    { reveal_with_fuel(Telemetry::parts, 1); assert(self.parts(0) =~= Seq::<Part>::empty()); assert(w0.pending() + wires(self.parts(0)) =~= w0.pending()); }
    proof fn lemma_done(&self, w0: World, w1: World, w2: World, i: int)
        requires 1 <= i <= 8, self.done(w0, w1, i - 1), coded(w1, w2, true, wires(self.part(i)))
        ensures self.done(w0, w2, i)
    {
        self.lemma_parts();
        assert((w0.pending() + wires(self.parts(i - 1))) + wires(self.part(i)) =~= w0.pending() + wires(self.parts(i)));
    }
    /// a field that is one part, or none
    proof fn lemma_single(&self)
        ensures
            self.name.opt() is None ==> wires(self.part(1)) == Seq::<u8>::empty(), self.name.opt() is Some ==> wires(self.part(1)) == wire(Part::Txt { n: 1, s: self.name.opt()->0@ }),
            self.samples@.len() == 0 ==> wires(self.part(2)) == Seq::<u8>::empty(), self.samples@.len() > 0 ==> wires(self.part(2)) == wire(Part::Packed { n: 2, s: self.samples@ }),
            self.persisted is None ==> wires(self.part(3)) == Seq::<u8>::empty(), self.persisted is Some ==> wires(self.part(3)) == wire(Part::Bool { n: 3, b: self.persisted->0 }),
            self.method is None ==> wires(self.part(4)) == Seq::<u8>::empty(), self.method is Some ==> wires(self.part(4)) == wire(Part::Choice { n: 4, k: num(self.method->0) }),
            wires(self.part(5)) == wires(pairs(5, self.metadata.list())),
            self.timestamp_ms is None ==> wires(self.part(6)) == Seq::<u8>::empty(), self.timestamp_ms is Some ==> wires(self.part(6)) == wire(Part::Num { n: 6, v: self.timestamp_ms->0 }),
            wires(self.part(7)) == wires(doubles(7, self.bin_bounds@)),
            wires(self.part(8)) == self.unknown_fields.b(),
    {
        lemma_one(Part::Txt { n: 1, s: self.name.opt()->0@ }); lemma_one(Part::Packed { n: 2, s: self.samples@ }); lemma_one(Part::Bool { n: 3, b: self.persisted->0 });
        lemma_one(Part::Choice { n: 4, k: num(self.method->0) }); lemma_one(Part::Num { n: 6, v: self.timestamp_ms->0 }); lemma_one(Part::Unknown { b: self.unknown_fields.b() });
    }
/*@ fn src/protocols/native.rs Message@Telemetry.write_to_with_cached_sizes
sig:
    pub fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream, w: &mut World) -> (r: Result<(), Failed>)
spec:
    requires self.bytes().len() <= u32::MAX
    ensures coded(*old(w), *final(w), r is Ok, self.bytes())
at fn-start:
    hide(Telemetry::part);
    hide(wires);
    let ghost w0 = *w;
    proof { self.lemma_none(w0); self.lemma_single(); self.lemma_fits(); lemma_eights(self.samples@); }
at before `if !self.samples.is_empty()`:
    proof { lemma_nothing(w0, *w); self.lemma_done(w0, w0, *w, 1); }
    let ghost w1 = *w;
at loop 1 before:
    let ghost wp = *w;
    proof { lemma_eights0(wp, self.samples@); }
loop 1 for iter it:
    invariant
        wp.out() == old(w).out(),
        it.seq().len() == self.samples@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.samples@[i],
        coded(wp, *w, true, eights(self.samples@.take(it.index() as int))),
        it.index() == it.seq().len() ==> coded(wp, *w, true, eights(self.samples@)),
at loop 1 start:
    proof { lemma_eights1(wp, self.samples@, it.index() as int); }
at before `if let Some(v) = self.persisted`:
    proof {
        lemma_nothing(w1, *w);
        if self.samples@.len() > 0 {
            let (t, c, e) = (tagb(2, WireTypeLengthDelimited), varint(8 * self.samples@.len() as int), eights(self.samples@));
            assert(((w1.pending() + t) + c) + e =~= w1.pending() + (t + (c + e)));
        }
        assert(coded(w1, *w, true, wires(self.part(2))));
        self.lemma_done(w0, w1, *w, 2);
    }
    let ghost w1 = *w;
at before `if let Some(v) = self.method`:
    proof { lemma_nothing(w1, *w); self.lemma_done(w0, w1, *w, 3); }
    let ghost w1 = *w;
at before `rt::write_map_with_cached_sizes`:
    proof { lemma_nothing(w1, *w); self.lemma_done(w0, w1, *w, 4); }
    let ghost w1 = *w;
at before `if let Some(v) = self.timestamp_ms`:
    proof { self.lemma_done(w0, w1, *w, 5); }
    let ghost w1 = *w;
at loop 2 before:
    proof { lemma_nothing(w1, *w); self.lemma_done(w0, w1, *w, 6); }
    let ghost wb = *w;
    proof { lemma_doubles0(wb, 7, self.bin_bounds@); }
loop 2 for iter jt:
    invariant
        wb.out() == old(w).out(), wires(self.part(7)) == wires(doubles(7, self.bin_bounds@)),
        jt.seq().len() == self.bin_bounds@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == self.bin_bounds@[i],
        coded(wb, *w, true, wires(doubles(7, self.bin_bounds@).take(jt.index() as int))),
        jt.index() == jt.seq().len() ==> coded(wb, *w, true, wires(self.part(7))),
at loop 2 start:
    proof { lemma_doubles1(wb, 7, self.bin_bounds@, jt.index() as int); }
at loop 2 after:
    proof { self.lemma_done(w0, wb, *w, 7); }
    let ghost w1 = *w;
at before `Result::Ok(())`:
    proof { self.lemma_done(w0, w1, *w, 8); }
@*/
    /// derive(Default)
    #[verifier::external_body]
    pub fn new() -> (r: Telemetry)
        ensures r.v() == (PointV { name: Seq::empty(), samples: Seq::empty(), persisted: false, method: AggregationMethod::SUMMARIZE, meta: Map::empty(), ts_ms: 0, bounds: Seq::empty(), unknown: Seq::empty() })
    { unimplemented!() }
/*@ fn src/protocols/native.rs Telemetry.set_name
attr: pub
spec:
    ensures final(self).v() == (PointV { name: v@, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.take_name
attr: pub
ret: r
spec:
    ensures r@ == old(self).v().name, final(self).v() == (PointV { name: Seq::empty(), ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.set_samples
attr: pub
spec:
    ensures final(self).v() == (PointV { samples: v@, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.take_samples
attr: pub
ret: r
spec:
    ensures r@ == old(self).v().samples, final(self).v() == (PointV { samples: Seq::empty(), ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.set_persisted
attr: pub
spec:
    ensures final(self).v() == (PointV { persisted: v, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.get_persisted
attr: pub
ret: r
spec:
    ensures r == self.v().persisted
@*/
/*@ fn src/protocols/native.rs Telemetry.set_method
attr: pub
spec:
    ensures final(self).v() == (PointV { method: v, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.get_method
attr: pub
ret: r
spec:
    ensures r == self.v().method
@*/
/*@ fn src/protocols/native.rs Telemetry.set_metadata
attr: pub
spec:
    ensures final(self).v() == (PointV { meta: v@, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.take_metadata
attr: pub
ret: r
spec:
    ensures r@ == old(self).v().meta, final(self).v() == (PointV { meta: Map::empty(), ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.set_timestamp_ms
attr: pub
spec:
    ensures final(self).v() == (PointV { ts_ms: v, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs Telemetry.get_timestamp_ms
attr: pub
ret: r
spec:
    ensures r == self.v().ts_ms
@*/
}
impl LogLine {
    pub closed spec fn v(&self) -> LineV {
        LineV { path: text_or(self.path.opt()), value: text_or(self.value.opt()), meta: self.metadata@, ts_ms: or(self.timestamp_ms, 0), unknown: self.unknown_fields.b() }
    }
    pub closed spec fn part(&self, i: int) -> Seq<Part> {
        if i == 1 { opt(self.path.opt(), |s: String| Part::Txt { n: 1, s: s@ }) }
        else if i == 2 { opt(self.value.opt(), |s: String| Part::Txt { n: 2, s: s@ }) }
        else if i == 3 { pairs(3, self.metadata.list()) }
        else if i == 4 { opt(self.timestamp_ms, |v: i64| Part::Num { n: 4, v }) }
        else { Seq::empty().push(Part::Unknown { b: self.unknown_fields.b() }) }
    }
    pub closed spec fn parts(&self, i: int) -> Seq<Part>
        decreases i
    { if i <= 0 { Seq::empty() } else { self.parts(i - 1) + self.part(i) } }
    pub open spec fn bytes(&self) -> Seq<u8> { wires(self.parts(5)) }
    /// as computed when the size of the payload was
    #[verifier::external_body]
    pub fn get_cached_size(&self) -> (r: u32) requires self.bytes().len() <= u32::MAX ensures r == self.bytes().len() { unimplemented!() }
    proof fn lemma_parts(&self)
        ensures
            forall|i: int| 1 <= i <= 5 ==> wires(#[trigger] self.parts(i)) == wires(self.parts(i - 1)) + wires(self.part(i)),
            self.parts(0).len() == 0,
            wires(self.parts(1)).len() == wires(self.part(1)).len(), wires(self.parts(2)).len() == wires(self.parts(1)).len() + wires(self.part(2)).len(),
            wires(self.parts(3)).len() == wires(self.parts(2)).len() + wires(self.part(3)).len(), wires(self.parts(4)).len() == wires(self.parts(3)).len() + wires(self.part(4)).len(),
            self.bytes().len() == wires(self.parts(4)).len() + wires(self.part(5)).len(),
            self.path.opt() is None ==> wires(self.part(1)) == Seq::<u8>::empty(), self.path.opt() is Some ==> wires(self.part(1)) == wire(Part::Txt { n: 1, s: self.path.opt()->0@ }),
            self.value.opt() is None ==> wires(self.part(2)) == Seq::<u8>::empty(), self.value.opt() is Some ==> wires(self.part(2)) == wire(Part::Txt { n: 2, s: self.value.opt()->0@ }),
            wires(self.part(3)) == wires(pairs(3, self.metadata.list())),
            self.timestamp_ms is None ==> wires(self.part(4)) == Seq::<u8>::empty(), self.timestamp_ms is Some ==> wires(self.part(4)) == wire(Part::Num { n: 4, v: self.timestamp_ms->0 }),
            wires(self.part(5)) == self.unknown_fields.b(),
    {
        reveal_with_fuel(LogLine::parts, 6);
        assert forall|i: int| 1 <= i <= 5 implies wires(#[trigger] self.parts(i)) == wires(self.parts(i - 1)) + wires(self.part(i)) by { lemma_wires(self.parts(i - 1), self.part(i)); }
        assert(wires(self.parts(0)).len() == 0);
        assert(wires(self.parts(5)) == wires(self.parts(4)) + wires(self.part(5)));
        lemma_one(Part::Txt { n: 1, s: self.path.opt()->0@ }); lemma_one(Part::Txt { n: 2, s: self.value.opt()->0@ });
        lemma_one(Part::Num { n: 4, v: self.timestamp_ms->0 }); lemma_one(Part::Unknown { b: self.unknown_fields.b() });
    }
    closed spec fn done(&self, w0: World, w: World, i: int) -> bool {
        w.pending() == w0.pending() + wires(self.parts(i)) && w.buffered() == w0.buffered() && w.out() == w0.out() && w.broken() == w0.broken()
    }
    proof fn lemma_none(&self, w0: World)
        ensures self.done(w0, w0, 0)
    { reveal_with_fuel(LogLine::parts, 1); assert(self.parts(0) =~= Seq::<Part>::empty()); assert(w0.pending() + wires(self.parts(0)) =~= w0.pending()); }
    proof fn lemma_done(&self, w0: World, w1: World, w2: World, i: int)
        requires 1 <= i <= 5, self.done(w0, w1, i - 1), coded(w1, w2, true, wires(self.part(i)))
        ensures self.done(w0, w2, i)
    {
        self.lemma_parts();
        assert((w0.pending() + wires(self.parts(i - 1))) + wires(self.part(i)) =~= w0.pending() + wires(self.parts(i)));
    }
/*@ fn src/protocols/native.rs Message@LogLine.compute_size
attr: pub
ret: r
spec:
    requires self.bytes().len() <= u32::MAX
    ensures r == self.bytes().len()
at fn-start:
    hide(LogLine::part);
    hide(wires);
    proof { self.lemma_parts(); }
@*/
/*@ fn src/protocols/native.rs Message@LogLine.write_to_with_cached_sizes
sig:
    pub fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream, w: &mut World) -> (r: Result<(), Failed>)
spec:
    ensures coded(*old(w), *final(w), r is Ok, self.bytes())
at fn-start:
    hide(LogLine::part);
    hide(wires);
    let ghost w0 = *w;
    proof { self.lemma_none(w0); self.lemma_parts(); }
at before `if let Some(v) = self.value`:
    proof { lemma_nothing(w0, *w); self.lemma_done(w0, w0, *w, 1); }
    let ghost w1 = *w;
at before `rt::write_map_with_cached_sizes`:
    proof { lemma_nothing(w1, *w); self.lemma_done(w0, w1, *w, 2); }
    let ghost w1 = *w;
at before `if let Some(v) = self.timestamp_ms`:
    proof { self.lemma_done(w0, w1, *w, 3); }
    let ghost w1 = *w;
at before `os.write_unknown_fields`:
    proof { lemma_nothing(w1, *w); self.lemma_done(w0, w1, *w, 4); }
    let ghost w1 = *w;
at before `Result::Ok(())`:
    proof { self.lemma_done(w0, w1, *w, 5); }
@*/
    /// derive(Default)
    #[verifier::external_body]
    pub fn new() -> (r: LogLine)
        ensures r.v() == (LineV { path: Seq::empty(), value: Seq::empty(), meta: Map::empty(), ts_ms: 0, unknown: Seq::empty() })
    { unimplemented!() }
/*@ fn src/protocols/native.rs LogLine.set_path
attr: pub
spec:
    ensures final(self).v() == (LineV { path: v@, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.take_path
attr: pub
ret: r
spec:
    ensures r@ == old(self).v().path, final(self).v() == (LineV { path: Seq::empty(), ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.set_value
attr: pub
spec:
    ensures final(self).v() == (LineV { value: v@, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.take_value
attr: pub
ret: r
spec:
    ensures r@ == old(self).v().value, final(self).v() == (LineV { value: Seq::empty(), ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.set_metadata
attr: pub
spec:
    ensures final(self).v() == (LineV { meta: v@, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.take_metadata
attr: pub
ret: r
spec:
    ensures r@ == old(self).v().meta, final(self).v() == (LineV { meta: Map::empty(), ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.set_timestamp_ms
attr: pub
spec:
    ensures final(self).v() == (LineV { ts_ms: v, ..old(self).v() })
@*/
/*@ fn src/protocols/native.rs LogLine.get_timestamp_ms
attr: pub
ret: r
spec:
    ensures r == self.v().ts_ms
@*/
}
pub open spec fn points_parts(s: Seq<Telemetry>) -> Seq<Part> { s.map_values(|t: Telemetry| Part::Msg { n: 2, b: t.bytes() }) }
pub open spec fn lines_parts(s: Seq<LogLine>) -> Seq<Part> { s.map_values(|l: LogLine| Part::Msg { n: 3, b: l.bytes() }) }
proof fn lemma_zero() ensures wires(Seq::<Part>::empty()) == Seq::<u8>::empty() {}
proof fn lemma_grows(s: Seq<Part>, n: int)
    requires 0 <= n < s.len()
    ensures
        wires(s.take(n + 1)) == wires(s.take(n)) + wire(s[n]), wires(s.take(n + 1)).len() <= wires(s).len(), wires(s.take(n)).len() <= wires(s).len(),
        wires(s.take(n + 1)).len() == wires(s.take(n)).len() + wire(s[n]).len(),
{
    lemma_prefix(s, n);
    lemma_prefix(s, n + 1);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
}
/// a message: its tag, its length, its bytes
proof fn lemma_framed(w0: World, w1: World, s: Seq<Part>, n: int)
    requires 0 <= n < s.len(), s[n] is Msg, coded(w0, w1, true, wires(s.take(n)))
    ensures ((w1.pending() + tagb(s[n]->Msg_n, WireTypeLengthDelimited)) + varint(s[n]->Msg_b.len() as int)) + s[n]->Msg_b == w0.pending() + wires(s.take(n + 1))
{
    lemma_grows(s, n);
    let (t, v, b) = (tagb(s[n]->Msg_n, WireTypeLengthDelimited), varint(s[n]->Msg_b.len() as int), s[n]->Msg_b);
    assert(((w1.pending() + t) + v) + b =~= w0.pending() + (wires(s.take(n)) + (t + (v + b))));
}
impl Payload {
    pub closed spec fn ps(&self) -> Seq<Telemetry> { self.points@ }
    pub closed spec fn ls(&self) -> Seq<LogLine> { self.lines@ }
    pub closed spec fn un(&self) -> Seq<u8> { self.unknown_fields.b() }
    pub open spec fn v(&self) -> PayloadV {
        PayloadV { points: self.ps().map_values(|p: Telemetry| p.v()), lines: self.ls().map_values(|l: LogLine| l.v()), unknown: self.un() }
    }
    /// derive(Default)
    #[verifier::external_body]
    pub fn new() -> (r: Payload) ensures r.ps().len() == 0, r.ls().len() == 0, r.un().len() == 0 { unimplemented!() }
/*@ fn src/protocols/native.rs Payload.set_points
attr: pub
spec:
    ensures final(self).ps() == v@, final(self).ls() == old(self).ls(), final(self).un() == old(self).un()
@*/
/*@ fn src/protocols/native.rs Payload.take_points
attr: pub
ret: r
spec:
    ensures r@ == old(self).ps(), final(self).ls() == old(self).ls(), final(self).un() == old(self).un()
@*/
/*@ fn src/protocols/native.rs Payload.set_lines
attr: pub
spec:
    ensures final(self).ls() == v@, final(self).ps() == old(self).ps(), final(self).un() == old(self).un()
@*/
/*@ fn src/protocols/native.rs Payload.take_lines
attr: pub
ret: r
spec:
    ensures r@ == old(self).ls(), final(self).ps() == old(self).ps(), final(self).un() == old(self).un()
@*/
    pub closed spec fn parts(&self) -> Seq<Part> { points_parts(self.ps()) + lines_parts(self.ls()) + Seq::empty().push(Part::Unknown { b: self.unknown_fields.b() }) }
    pub closed spec fn bytes(&self) -> Seq<u8> { wires(self.parts()) }
    proof fn lemma_parts(&self)
        ensures
            self.bytes().len() == wires(points_parts(self.ps())).len() + wires(lines_parts(self.ls())).len() + self.unknown_fields.b().len(),
            self.bytes() == wires(points_parts(self.ps())) + wires(lines_parts(self.ls())) + self.unknown_fields.b(),
    {
        let u = Part::Unknown { b: self.unknown_fields.b() };
        lemma_one(u);
        lemma_wires(points_parts(self.ps()) + lines_parts(self.ls()), Seq::empty().push(u));
        lemma_wires(points_parts(self.ps()), lines_parts(self.ls()));
    }
/*@ fn src/protocols/native.rs Message@Payload.compute_size
attr: pub
ret: r
spec:
    requires self.bytes().len() <= u32::MAX
    ensures r == self.bytes().len()
at fn-start:
    hide(wires);
    broadcast use wire_facts;
    proof { self.lemma_parts(); lemma_zero(); }
at loop 1 before:
    let ghost a = points_parts(self.ps());
    let ghost b = lines_parts(self.ls());
    assert(a.take(0) =~= Seq::<Part>::empty());
    assert(b.take(0) =~= Seq::<Part>::empty());
    assert(a.take(a.len() as int) =~= a);
    assert(b.take(b.len() as int) =~= b);
loop 1 for iter it:
    invariant
        it.seq().len() == self.ps().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.ps()[i],
        a == points_parts(self.ps()), a.take(a.len() as int) == a, wires(a).len() <= u32::MAX, my_size == wires(a.take(it.index() as int)).len(),
at loop 1 start:
    broadcast use wire_facts;
    proof { let n = it.index() as int; lemma_grows(a, n); assert(*it.seq()[n] == self.ps()[n]); }
loop 2 for iter jt:
    invariant
        jt.seq().len() == self.ls().len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == self.ls()[i],
        b == lines_parts(self.ls()), b.take(b.len() as int) == b, wires(a).len() + wires(b).len() <= u32::MAX, my_size == wires(a).len() + wires(b.take(jt.index() as int)).len(),
at loop 2 start:
    broadcast use wire_facts;
    proof { let n = jt.index() as int; lemma_grows(b, n); assert(*jt.seq()[n] == self.ls()[n]); }
@*/
/*@ fn src/protocols/native.rs Message@Payload.write_to_with_cached_sizes
sig:
    pub fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream, w: &mut World) -> (r: Result<(), Failed>)
spec:
    requires self.bytes().len() <= u32::MAX
    ensures coded(*old(w), *final(w), r is Ok, self.bytes())
at fn-start:
    hide(wires);
    let ghost w0 = *w;
    proof { self.lemma_parts(); lemma_zero(); }
at loop 1 before:
    let ghost a = points_parts(self.ps());
    let ghost b = lines_parts(self.ls());
    assert(a.take(0) =~= Seq::<Part>::empty());
    assert(b.take(0) =~= Seq::<Part>::empty());
    assert(a.take(a.len() as int) =~= a);
    assert(b.take(b.len() as int) =~= b);
    assert(w.pending() + wires(a.take(0)) =~= w.pending());
loop 1 for iter it:
    invariant
        w0 == *old(w),
        it.seq().len() == self.ps().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.ps()[i],
        a == points_parts(self.ps()), a.take(a.len() as int) == a, wires(a).len() <= u32::MAX, coded(w0, *w, true, wires(a.take(it.index() as int))),
at loop 1 start:
    let ghost w1 = *w;
    proof { let n = it.index() as int; lemma_grows(a, n); assert(*it.seq()[n] == self.ps()[n]); lemma_framed(w0, w1, a, n); }
at loop 2 before:
    let ghost wp = *w;
    assert(wp.pending() + wires(b.take(0)) =~= wp.pending());
loop 2 for iter jt:
    invariant
        wp.out() == old(w).out(),
        jt.seq().len() == self.ls().len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == self.ls()[i],
        b == lines_parts(self.ls()), b.take(b.len() as int) == b, wires(b).len() <= u32::MAX, coded(wp, *w, true, wires(b.take(jt.index() as int))),
at loop 2 start:
    let ghost w2 = *w;
    proof { let n = jt.index() as int; lemma_grows(b, n); assert(*jt.seq()[n] == self.ls()[n]); lemma_framed(wp, w2, b, n); }
at before `Result::Ok(())`:
    proof {
        let (x, y, z) = (wires(a), wires(b), self.unknown_fields.b());
        assert(((w0.pending() + x) + y) + z =~= w0.pending() + (x + y + z));
    }
@*/
}
} // mod pb
/// what a payload's bytes state
pub uninterp spec fn dec(b: Seq<u8>) -> Option<PayloadV>;
/// the generated code reads what it writes
pub axiom fn ax_codec(p: &pb::Payload) ensures dec(p.bytes()) == Some(p.v());
/// the bytes of a payload, after their number
pub open spec fn framed(x: Seq<u8>, p: PayloadV) -> bool { exists|b: Seq<u8>| x == frame(b) && #[trigger] dec(b) == Some(p) && b.len() <= u32::MAX }
/// a payload of less than 4 GiB
pub open spec fn fits(p: PayloadV) -> bool { forall|x: pb::Payload| x.v() == p ==> (#[trigger] x.bytes()).len() <= u32::MAX }

// ================================================================ the sink
pub struct Failed {}
#[verifier::external_body]
pub struct TcpStream { _p: () }
/// The connection in use: what is on its way to it, what has been sent, and whether a write on it has failed.
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    pub uninterp spec fn pending(&self) -> Seq<u8>;
    pub uninterp spec fn buffered(&self) -> Seq<u8>;
    /// what was sent, each whole and on a connection on which nothing had failed before
    pub uninterp spec fn out(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn broken(&self) -> bool;
}
pub open spec fn coded(a: World, b: World, ok: bool, x: Seq<u8>) -> bool {
    &&& b.out() == a.out()
    &&& if ok { b.pending() == a.pending() + x && b.buffered() == a.buffered() && b.broken() == a.broken() } else { b.broken() }
}
#[verifier::external_body]
pub struct BufWriter { _p: () }
impl BufWriter {
    #[verifier::external_body]
    pub fn new(s: &mut TcpStream, w: &mut World) -> (r: BufWriter)
        requires !old(w).broken()
        ensures final(w).buffered().len() == 0, final(w).pending().len() == 0, final(w).out() == old(w).out(), !final(w).broken()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: Result<(), Failed>)
        ensures match r {
            Ok(_) => final(w).out() == old(w).out().push(old(w).buffered()) && final(w).broken() == old(w).broken(),
            Err(_) => final(w).out() == old(w).out() && final(w).broken(),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct CodedOutputStream { _p: () }
impl CodedOutputStream {
    #[verifier::external_body]
    pub fn new(b: &mut BufWriter, w: &mut World) -> (r: CodedOutputStream)
        ensures final(w).pending().len() == 0, final(w).buffered() == old(w).buffered(), final(w).out() == old(w).out(), final(w).broken() == old(w).broken()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_raw_bytes(&mut self, b: &[u8; 4], w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, b@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_tag(&mut self, n: u32, t: WireType, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, tagb(n, t))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_raw_varint32(&mut self, n: u32, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, varint(n as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_string(&mut self, n: u32, s: &&String, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, wire(Part::Txt { n, s: s@ }))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_double(&mut self, n: u32, x: f64, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, wire(Part::Double { n, x }))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_double_no_tag(&mut self, x: f64, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, eight(x))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_bool(&mut self, n: u32, b: bool, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, wire(Part::Bool { n, b }))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_enum(&mut self, n: u32, k: i32, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, wire(Part::Choice { n, k }))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_int64(&mut self, n: u32, v: i64, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, wire(Part::Num { n, v }))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_unknown_fields(&mut self, u: &pb::Unknown, w: &mut World) -> (r: Result<(), Failed>)
        ensures coded(*old(w), *final(w), r is Ok, u.b())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: Result<(), Failed>)
        ensures final(w).out() == old(w).out(), match r {
            Ok(_) => final(w).buffered() == old(w).buffered() + old(w).pending() && final(w).pending().len() == 0 && final(w).broken() == old(w).broken(),
            Err(_) => final(w).broken(),
        }
    { unimplemented!() }
}
/// the bytes of a number, most significant first
pub open spec fn bytes4(n: u32) -> Seq<u8> { seq![(n / 16777216) as u8, (n / 65536 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }
#[verifier::external_body]
pub fn put_u32(b: &mut [u8; 4], n: u32) ensures final(b)@ == bytes4(n) { unimplemented!() }
/// a new connection, to any address of the host that takes it
#[verifier::external_body]
pub fn connect(host: &str, port: u16, w: &mut World) -> (r: Option<TcpStream>)
    ensures final(w).out() == old(w).out(), r is Some ==> !final(w).broken()
{ unimplemented!() }
pub mod sink_time {
    #[verifier::external_body]
    pub fn delay(n: u32) { unimplemented!() }
}
#[verifier::external_body]
pub fn plus_one(a: u32) -> (r: u32) { unimplemented!() }
#[verifier::external_body]
pub fn drain_everything<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }

// ---- what is sent of the events held
pub open spec fn method_of(k: AggregationMethod) -> pb::AggregationMethod {
    match k {
        AggregationMethod::Set => pb::AggregationMethod::SET,
        AggregationMethod::Sum => pb::AggregationMethod::SUM,
        AggregationMethod::Summarize => pb::AggregationMethod::SUMMARIZE,
        AggregationMethod::Histogram => pb::AggregationMethod::BIN,
    }
}
pub open spec fn point_of(t: Telemetry, d: TagMap) -> PointV {
    PointV { name: t.name@, samples: t.seen(), persisted: t.persist, method: method_of(kind_of(t.agg())), meta: over(d, t.tags),
             ts_ms: sat(t.timestamp * 1000), bounds: Seq::empty(), unknown: Seq::empty() }
}
pub open spec fn line_of(l: LogLine, d: TagMap) -> LineV {
    LineV { path: l.path@, value: l.value@, meta: over(d, l.tags), ts_ms: sat(l.time * 1000), unknown: Seq::empty() }
}
pub open spec fn points_in(s: Seq<Event>, d: TagMap) -> Seq<PointV>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Event::Telemetry(t) => points_in(s.drop_last(), d).push(point_of(t, d)), _ => points_in(s.drop_last(), d) } }
}
pub open spec fn lines_in(s: Seq<Event>, d: TagMap) -> Seq<LineV>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Event::Log(l) => lines_in(s.drop_last(), d).push(line_of(l, d)), _ => lines_in(s.drop_last(), d) } }
}
pub open spec fn payload_of(s: Seq<Event>, d: TagMap) -> PayloadV { PayloadV { points: points_in(s, d), lines: lines_in(s, d), unknown: Seq::empty() } }
pub open spec fn frame(b: Seq<u8>) -> Seq<u8> { bytes4(b.len() as u32) + b }
pub open spec fn all_ok(s: Seq<Event>) -> bool { forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] { Event::Telemetry(t) => t.ok(), _ => true } }
pub mod sink {
use super::*;
use super::pb::{AggregationMethod, LogLine, Payload, Telemetry};
use super::pb::Rep as RepeatedField;
use super::sink_time as time;
/*@ item src/sink/native.rs struct Native
@*/
/*@ item src/sink/native.rs struct NativeConfig
@*/
/*@ rewrites
rw `replace(&mut $*x, Default::default())` => `blanked(&mut $*x)`
rw `replace(&mut $*x, Vec::new())` => `blanked(&mut $*x)`
rw `replace(&mut $*x, String::new())` => `blanked(&mut $*x)`
rw `HashMap::new()` => `Meta::new()`
rw `.saturating_mul(` => `.sat_mul(`
rw `$x.to_string()` => `$x.copied()`
rw `$x.clone()` => `$x.copied()`
rw `self.buffer.drain(..)` => `drain_everything(&mut self.buffer)`
rw `$s.write_raw_bytes($*a).and_then(|_| $*b).and_then(|_| $*c)` => `match $s.write_raw_bytes($*a, w) { Ok(_) => match $*b { Ok(_) => $*c, Err(e) => Err(e) }, Err(e) => Err(e) }`
rw `.write_to_with_cached_sizes($*a)` => `.write_to_with_cached_sizes($*a, w)`
rw `$x.flush()` => `$x.flush(w)`
rw `CodedOutputStream::new($*a)` => `CodedOutputStream::new($*a, w)`
rw `BufWriter::new($*a)` => `BufWriter::new($*a, w)`
rw `BigEndian::write_u32($*a)` => `put_u32($*a)`
rw `connect($*a)` => `connect($*a, w)`
rw `drop($*a);` => ``
rw `if let Some(ref mut stream) = self.stream` => `if let Some(stream) = &mut self.stream`
rw `self.delivery_attempts.saturating_add(1)` => `plus_one(self.delivery_attempts)`
@*/
impl Native {
    /// a connection on which something failed is not used again
    pub closed spec fn ok(&self, w: World) -> bool { (self.stream is Some ==> !w.broken()) && all_ok(self.buffer@) }
    pub closed spec fn held(&self) -> Seq<metric::Event> { self.buffer@ }
    pub closed spec fn defaults(&self) -> TagMap { self.tags }
    pub closed spec fn every(&self) -> u64 { self.flush_interval }
/*@ fn src/sink/native.rs Sink@Native.init
sig:
    pub fn init(config: NativeConfig, w: &mut World) -> (r: Native)
spec:
    ensures
        r.ok(*final(w)), r.held().len() == 0, r.defaults() == config.tags, r.every() == config.flush_interval,
        final(w).out() == old(w).out(),
@*/
/*@ fn src/sink/native.rs Sink@Native.deliver
sig:
    pub fn deliver(&mut self, telemetry: metric::Telemetry)
spec:
    requires telemetry.ok()
    ensures
        final(self).held() == old(self).held().push(metric::Event::Telemetry(telemetry)),
        final(self).defaults() == old(self).defaults(), final(self).every() == old(self).every(),
        forall|w: World| old(self).ok(w) ==> #[trigger] final(self).ok(w),
@*/
/*@ fn src/sink/native.rs Sink@Native.deliver_line
sig:
    pub fn deliver_line(&mut self, line: metric::LogLine)
spec:
    ensures
        final(self).held() == old(self).held().push(metric::Event::Log(line)),
        final(self).defaults() == old(self).defaults(), final(self).every() == old(self).every(),
        forall|w: World| old(self).ok(w) ==> #[trigger] final(self).ok(w),
@*/
/*@ fn src/sink/native.rs Sink@Native.flush_interval
ret: r
sig:
    pub fn flush_interval(&self) -> (r: Option<u64>)
spec:
    ensures r == Some(self.every())
@*/
/*@ fn src/sink/native.rs Sink@Native.flush
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn flush(&mut self, w: &mut World)
spec:
    requires old(self).ok(*old(w)), fits(payload_of(old(self).held(), old(self).defaults()))
    ensures
        // all that was held has left as one whole payload, once
        final(self).ok(*final(w)), final(self).held().len() == 0,
        final(self).defaults() == old(self).defaults(), final(self).every() == old(self).every(),
        final(w).out().len() == old(w).out().len() + 1, old(w).out().is_prefix_of(final(w).out()),
        framed(final(w).out().last(), payload_of(old(self).held(), old(self).defaults())),
at loop 1 before:
    let ghost evs = old(self).buffer@;
    let ghost d = self.tags;
    assert(evs.take(0) =~= Seq::<metric::Event>::empty());
loop 1 for iter it:
    invariant
        it.seq() == evs, all_ok(evs), d == self.tags,
        self.stream == old(self).stream, self.tags == old(self).tags, self.flush_interval == old(self).flush_interval, self.buffer@.len() == 0,
        *w == *old(w),
        points@.map_values(|p: Telemetry| p.v()) == points_in(evs.take(it.index() as int), d),
        lines@.map_values(|l: LogLine| l.v()) == lines_in(evs.take(it.index() as int), d),
at loop 1 start:
    let ghost p0 = points@;
    let ghost l0 = lines@;
    proof {
        let n = it.index() as int;
        assert(evs.take(n + 1).drop_last() =~= evs.take(n)); assert(evs.take(n + 1).last() == evs[n]);
    }
at loop 1 end:
    proof {
        if points@.len() > p0.len() { assert(points@.map_values(|p: Telemetry| p.v()) =~= p0.map_values(|p: Telemetry| p.v()).push(points@.last().v())); }
        if lines@.len() > l0.len() { assert(lines@.map_values(|l: LogLine| l.v()) =~= l0.map_values(|l: LogLine| l.v()).push(lines@.last().v())); }
    }
loop 2 for iter jt:
    invariant
        meta@ == put_all(jt.seq().take(jt.index() as int)), put_all(jt.seq()) == over(d, m.tags),
        jt.index() == jt.seq().len() ==> meta@ == over(d, m.tags),
at loop 2 start:
    proof { lemma_put(jt.seq(), jt.index() as int); assert(jt.seq().take(jt.seq().len() as int) =~= jt.seq()); }
loop 3 for iter kt:
    invariant
        meta@ == put_all(kt.seq().take(kt.index() as int)), put_all(kt.seq()) == over(d, l.tags),
        kt.index() == kt.seq().len() ==> meta@ == over(d, l.tags),
at loop 3 start:
    proof { lemma_put(kt.seq(), kt.index() as int); assert(kt.seq().take(kt.seq().len() as int) =~= kt.seq()); }
at loop 4 before:
    assert(evs.take(evs.len() as int) =~= evs);
    assert(pyld.v() =~= payload_of(evs, d)) by { assert(pyld.un() =~= Seq::<u8>::empty()); }
    proof { ax_codec(&pyld); }
    let ghost bb = pyld.bytes();
loop 4 loop:
    invariant
        self.stream is Some ==> !w.broken(),
        self.tags == old(self).tags, self.flush_interval == old(self).flush_interval, self.buffer@.len() == 0,
        w.out() == old(w).out(), pyld.v() == payload_of(evs, d), evs == old(self).buffer@, d == old(self).tags, fits(payload_of(evs, d)),
        dec(pyld.bytes()) == Some(payload_of(evs, d)), bb == pyld.bytes(),
@*/
/*@ fn src/sink/native.rs Sink@Native.shutdown
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn shutdown(&mut self, w: &mut World)
spec:
    requires old(self).ok(*old(w)), fits(payload_of(old(self).held(), old(self).defaults()))
    ensures
        final(w).out().len() == old(w).out().len() + 1, old(w).out().is_prefix_of(final(w).out()),
        framed(final(w).out().last(), payload_of(old(self).held(), old(self).defaults())),
@*/
}
} // mod sink

// ================================================================ the source
//@include inc/source.inc
/// a point or line as it is sent on
pub enum Out {
    Point { name: Text, agg: Agg, timestamp: i64, tags: Tags, persist: bool },
    Line { path: Text, value: Text, time: i64, tags: Tags, fields: Tags },
    Other,
}
pub open spec fn shown(e: Event) -> Out {
    match e {
        Event::Telemetry(t) => Out::Point { name: t.name@, agg: t.agg(), timestamp: t.timestamp, tags: tags_of(t.tags), persist: t.persist },
        Event::Log(l) => Out::Line { path: l.path@, value: l.value@, time: l.time, tags: tags_of(l.tags), fields: map_of(l.fields) },
        _ => Out::Other,
    }
}
pub open spec fn begun(m: pb::AggregationMethod, x: f64) -> Agg {
    match m {
        pb::AggregationMethod::SET => Agg::Set(x),
        pb::AggregationMethod::SUM => Agg::Sum(x),
        pb::AggregationMethod::SUMMARIZE => Agg::Quant { data: Multiset::empty().insert(x), sum: x },
        pb::AggregationMethod::BIN => Agg::Hist { data: Multiset::empty().insert(x), bounds: default_bins(), sum: Some(x) },
    }
}
/// the default bins of a histogram are in order
pub broadcast axiom fn ax_bins() ensures #[trigger] ascending(default_bins());
pub open spec fn default_bins() -> Seq<f64> { seq![1.0f64, 10.0f64, 100.0f64, 1000.0f64] }
pub open spec fn with_all(a: Agg, s: Seq<f64>) -> Agg
    decreases s.len()
{ if s.len() == 0 { a } else { with_sample(with_all(a, s.drop_last()), s.last()) } }
/// what a point of a payload is sent on as
pub open spec fn point_out(p: PointV) -> Out {
    Out::Point { name: p.name, agg: with_all(begun(p.method, p.samples[0]), p.samples.skip(1)), timestamp: quot(p.ts_ms as int, 1000) as i64, tags: p.meta, persist: p.persisted }
}
pub open spec fn line_out(l: LineV) -> Out {
    Out::Line { path: l.path, value: l.value, time: quot(l.ts_ms as int, 1000) as i64, tags: l.meta, fields: Map::empty() }
}
/// a point without a sample is none
pub open spec fn points_out(s: Seq<PointV>) -> Seq<Out>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.last().samples.len() == 0 { points_out(s.drop_last()) } else { points_out(s.drop_last()).push(point_out(s.last())) }
}
pub open spec fn lines_out(s: Seq<LineV>) -> Seq<Out>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { lines_out(s.drop_last()).push(line_out(s.last())) } }
pub open spec fn received(p: PayloadV) -> Seq<Out> { points_out(p.points) + lines_out(p.lines) }
/// what the bytes of a payload are sent on as: nothing, if they are not those of one
pub open spec fn read_as(b: Seq<u8>) -> Seq<Out> { match dec(b) { Some(p) => received(p), None => Seq::empty() } }
pub open spec fn all_read(ps: Seq<Seq<u8>>) -> Seq<Out>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { all_read(ps.drop_last()) + read_as(ps.last()) } }
pub open spec fn views(s: Seq<Event>) -> Seq<Out> { s.map_values(|e: Event| shown(e)) }
/// exactly this was sent from s0 to s1
pub open spec fn sent_more(s0: Seq<Event>, s1: Seq<Event>, o: Seq<Out>) -> bool { s0.is_prefix_of(s1) && views(s1.skip(s0.len() as int)) == o }
pub proof fn lemma_sent(s0: Seq<Event>, s1: Seq<Event>, o: Seq<Out>, e: Event)
    requires sent_more(s0, s1, o)
    ensures sent_more(s0, s1.push(e), o.push(shown(e)))
{
    assert(s1.push(e).skip(s0.len() as int) =~= s1.skip(s0.len() as int).push(e));
    assert(views(s1.push(e).skip(s0.len() as int)) =~= views(s1.skip(s0.len() as int)).push(shown(e)));
}
pub proof fn lemma_then(s0: Seq<Event>, s1: Seq<Event>, s2: Seq<Event>, o: Seq<Out>, q: Seq<Out>)
    requires sent_more(s0, s1, o), sent_more(s1, s2, q)
    ensures sent_more(s0, s2, o + q)
{
    assert(s2.skip(s0.len() as int) =~= s1.skip(s0.len() as int) + s2.skip(s1.len() as int)) by { assert(s1 =~= s2.take(s1.len() as int)); }
    assert(views(s2.skip(s0.len() as int)) =~= views(s1.skip(s0.len() as int)) + views(s2.skip(s1.len() as int)));
    assert(s0.is_prefix_of(s2)) by { assert(s2.subrange(0, s0.len() as int) =~= s1.subrange(0, s0.len() as int)); }
}
/// the payloads a connection's bytes are made of (C07 proves that the reader yields them)
pub uninterp spec fn payloads(all: Seq<u8>) -> Seq<Seq<u8>>;
/*@ rewrites
rw `io::Error` => `IoError`
@*/
#[derive(Debug)]
pub struct IoError { _p: () }
/*@ item src/source/nonblocking.rs enum PayloadErr
attr: #[derive(Debug)]
@*/
#[verifier::external_body]
pub fn clone_of(s: &mio::net::TcpStream) -> (r: mio::net::TcpStream) ensures r.all() == s.all() { unimplemented!() }
#[verifier::external_body]
pub fn close(s: &mio::net::TcpStream) -> Result<(), IoError> { unimplemented!() }
#[verifier::external_body]
pub struct BufferedPayload { _p: () }
impl BufferedPayload {
    pub uninterp spec fn given(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn of(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn new(s: mio::net::TcpStream, max: usize) -> (r: BufferedPayload) ensures r.given().len() == 0, r.of() == payloads(s.all()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Vec<u8>, PayloadErr>)
        ensures final(self).of() == old(self).of(), final(self).given().is_prefix_of(final(self).of()),
            match r { Ok(p) => final(self).given() == old(self).given().push(p@), Err(_) => final(self).given() == old(self).given() }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ProtobufError { _p: () }
#[verifier::external_body]
pub fn parse(b: &Vec<u8>) -> (r: Result<pb::Payload, ProtobufError>)
    ensures match dec(b@) { Some(p) => r is Ok && r->Ok_0.v() == p, None => r is Err }
{ unimplemented!() }
pub open spec fn decodable(ps: Seq<Seq<u8>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> dec(#[trigger] ps[i]) is Some }
/// the payloads read so far are sent on; reading ends with the first that is none
pub open spec fn passed(ps: Seq<Seq<u8>>, all: Seq<Seq<u8>>, s0: Seq<Event>, s1: Seq<Event>, more: bool) -> bool {
    ps.is_prefix_of(all) && sent_more(s0, s1, all_read(ps)) && decodable(ps, if more { ps.len() as int } else { ps.len() - 1 })
}
pub proof fn lemma_payload(ps: Seq<Seq<u8>>, all: Seq<Seq<u8>>, s0: Seq<Event>, s1: Seq<Event>, s2: Seq<Event>, p: Seq<u8>, ok: bool)
    requires passed(ps, all, s0, s1, true), sent_more(s1, s2, read_as(p)), ok == (dec(p) is Some), ps.push(p).is_prefix_of(all)
    ensures passed(ps.push(p), all, s0, s2, ok)
{
    lemma_then(s0, s1, s2, all_read(ps), read_as(p));
    assert(ps.push(p).drop_last() =~= ps);
}
pub mod source {
use super::*;
use super::pb::{AggregationMethod, Payload};
pub struct NativeStreamHandler;
/*@ rewrites
rw `protobuf::parse_from_bytes::<Payload>($*a)` => `parse($*a)`
rw `protobuf::ProtobufError` => `ProtobufError`
rw `for mut $p in $*e.into_iter() {` => `for p_ in $*e.into_vec() { let mut $p = p_;`
rw `for mut $p in $*e {` => `for p_ in $*e.into_vec() { let mut $p = p_;`
rw `stream.try_clone().unwrap()` => `clone_of(&stream)`
rw `stream.shutdown($*a)` => `close(&stream)`
rw `chans.copied()` => `chans`
rw `&mut chans` => `chans`
rw `.get_timestamp_ms() / 1000` => `.seconds()`
rw `&smpls[1..]` => `rest(&smpls)`
rw `for $s in smpls.iter().skip(1)` => `for $s in rest(&smpls)`
@*/
pub trait Seconds { spec fn ms(&self) -> i64; fn seconds(&self) -> (r: i64) ensures r == quot(self.ms() as int, 1000); }
impl Seconds for pb::Telemetry {
    open spec fn ms(&self) -> i64 { self.v().ts_ms }
    fn seconds(&self) -> (r: i64) { div(self.get_timestamp_ms(), 1000) }
}
impl Seconds for pb::LogLine {
    open spec fn ms(&self) -> i64 { self.v().ts_ms }
    fn seconds(&self) -> (r: i64) { div(self.get_timestamp_ms(), 1000) }
}
/// all but the first
#[verifier::external_body]
pub fn rest(v: &Vec<f64>) -> (r: Vec<&f64>) requires v@.len() > 0 ensures r@.len() == v@.len() - 1, forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == v@[i + 1] { unimplemented!() }
impl NativeStreamHandler {
/*@ fn src/source/native.rs NativeStreamHandler.handle_stream_payload
sig:
    pub fn handle_stream_payload(&mut self, chans: &mut util::Channel, buf: &mut Vec<u8>) -> (r: Result<(), ProtobufError>)
spec:
    ensures
        sent_more(old(chans).sent(), final(chans).sent(), read_as(old(buf)@)),
        r is Ok == dec(old(buf)@) is Some,
at fn-start:
    broadcast use {floats, strings, ax_bins};
    let ghost s0 = chans.sent();
    proof { assert(s0.skip(s0.len() as int) =~= Seq::<Event>::empty()); assert(views(Seq::<Event>::empty()) =~= Seq::<Out>::empty()); }
at loop 1 before:
    let ghost v = pyld.v();
    let ghost ls = pyld.ls();
    assert(v.points.take(0) =~= Seq::<PointV>::empty());
loop 1 for iter it:
    invariant
        s0 == old(chans).sent(), pyld.ls() == ls, it.seq().map_values(|p: pb::Telemetry| p.v()) == v.points,
        sent_more(s0, chans.sent(), points_out(v.points.take(it.index() as int))),
at loop 1 start:
    broadcast use {floats, strings, ax_bins};
    let ghost s1 = chans.sent();
    let ghost pv = v.points[it.index() as int];
    proof {
        let n = it.index() as int;
        assert(v.points.take(n + 1).drop_last() =~= v.points.take(n));
        assert(pv == it.seq()[n].v());
    }
loop 2 for iter jt:
    invariant
        metric.ok(), metric.name@ == pv.name, metric.persist == pv.persisted, metric.timestamp == quot(pv.ts_ms as int, 1000) as i64,
        metric.agg() == begun(pv.method, pv.samples[0]), metric.override_count is None, metric.override_sample_sum is None,
        tags_of(metric.tags) == put_all(jt.seq().take(jt.index() as int)), put_all(jt.seq()) == pv.meta,
        jt.index() == jt.seq().len() ==> tags_of(metric.tags) == pv.meta,
at loop 2 start:
    proof { lemma_put(jt.seq(), jt.index() as int); assert(jt.seq().take(jt.seq().len() as int) =~= jt.seq()); }
loop 3 for iter kt:
    invariant
        metric.ok(), metric.name@ == pv.name, metric.persist == pv.persisted, metric.timestamp == quot(pv.ts_ms as int, 1000) as i64,
        metric.override_count is None, metric.override_sample_sum is None, tags_of(metric.tags) == pv.meta,
        kt.seq().len() == pv.samples.len() - 1, forall|i: int| 0 <= i < kt.seq().len() ==> *#[trigger] kt.seq()[i] == pv.samples[i + 1],
        metric.agg() == with_all(begun(pv.method, pv.samples[0]), pv.samples.skip(1).take(kt.index() as int)),
        kt.index() == kt.seq().len() ==> metric.agg() == with_all(begun(pv.method, pv.samples[0]), pv.samples.skip(1)),
at loop 3 before:
    assert(pv.samples.skip(1).take(0) =~= Seq::<f64>::empty());
    assert(pv.samples.len() == 1 ==> pv.samples.skip(1) =~= Seq::<f64>::empty());
at loop 3 start:
    proof {
        let n = kt.index() as int;
        assert(pv.samples.skip(1).take(n + 1).drop_last() =~= pv.samples.skip(1).take(n));
        assert(pv.samples.skip(1).take(pv.samples.len() - 1) =~= pv.samples.skip(1));
    }
at loop 3 after:
    proof { lemma_sent(s0, s1, points_out(v.points.take(it.index() as int)), Event::Telemetry(metric)); }
at loop 4 before:
    let ghost s2 = chans.sent();
    assert(v.points.take(v.points.len() as int) =~= v.points);
    assert(v.lines.take(0) =~= Seq::<LineV>::empty());
    assert(points_out(v.points) + lines_out(v.lines.take(0)) =~= points_out(v.points));
loop 4 for iter it:
    invariant
        s0 == old(chans).sent(), it.seq().map_values(|l: pb::LogLine| l.v()) == v.lines,
        sent_more(s0, chans.sent(), points_out(v.points) + lines_out(v.lines.take(it.index() as int))),
at loop 4 start:
    let ghost s3 = chans.sent();
    let ghost lv = v.lines[it.index() as int];
    proof {
        let n = it.index() as int;
        assert(v.lines.take(n + 1).drop_last() =~= v.lines.take(n));
        assert(lv == it.seq()[n].v());
    }
loop 5 for iter jt:
    invariant
        logline.path@ == lv.path, logline.value@ == lv.value, logline.time == quot(lv.ts_ms as int, 1000) as i64, map_of(logline.fields) == Map::<Text, Text>::empty(),
        tags_of(logline.tags) == put_all(jt.seq().take(jt.index() as int)), put_all(jt.seq()) == lv.meta,
        jt.index() == jt.seq().len() ==> tags_of(logline.tags) == lv.meta,
at loop 5 start:
    proof { lemma_put(jt.seq(), jt.index() as int); assert(jt.seq().take(jt.seq().len() as int) =~= jt.seq()); }
at loop 5 after:
    proof {
        let o = points_out(v.points) + lines_out(v.lines.take(it.index() as int));
        lemma_sent(s0, s3, o, Event::Log(logline));
        assert(o.push(line_out(lv)) =~= points_out(v.points) + lines_out(v.lines.take(it.index() + 1)));
    }
at loop 4 after:
    assert(v.lines.take(v.lines.len() as int) =~= v.lines);
@*/
/*@ fn src/source/native.rs TCPStreamHandler@NativeStreamHandler.handle_stream
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn handle_stream(&mut self, chans: &mut util::Channel, poller: &mio::Poll, stream: mio::net::TcpStream)
rw `self.handle_stream_payload($*a)` => `{ let ghost s1 = chans.sent(); let ghost p = reader.given().last(); let r = self.handle_stream_payload($*a); proof { lemma_payload(ps, reader.of(), s0, s1, chans.sent(), p, r is Ok); ps = ps.push(p); } r }`
spec:
    ensures exists|ps: Seq<Seq<u8>>| #[trigger] passed(ps, payloads(stream.all()), old(chans).sent(), final(chans).sent(), false)
at fn-start:
    let ghost s0 = chans.sent();
    let ghost mut ps: Seq<Seq<u8>> = Seq::empty();
    proof { assert(s0.skip(s0.len() as int) =~= Seq::<Event>::empty()); assert(views(Seq::<Event>::empty()) =~= Seq::<Out>::empty()); }
loop 1 while:
    invariant
        s0 == old(chans).sent(), reader.given() == ps, reader.of() == payloads(stream.all()), passed(ps, reader.of(), s0, chans.sent(), streaming),
loop 2 for iter it:
    invariant
        s0 == old(chans).sent(), reader.given() == ps, reader.of() == payloads(stream.all()), passed(ps, reader.of(), s0, chans.sent(), streaming),
loop 3 while:
    invariant
        s0 == old(chans).sent(), reader.given() == ps, reader.of() == payloads(stream.all()), passed(ps, reader.of(), s0, chans.sent(), streaming),
@*/
}
} // mod source
// ================================================================ from one end to the other
/// a time that milliseconds reach
pub open spec fn in_ms(x: i64) -> bool { i64::MIN <= x * 1000 <= i64::MAX }
/// a point the protocol can carry: no histogram, and with a sample at least
pub open spec fn carried(t: Telemetry) -> bool { t.ok() && !(t.agg() is Hist) && t.seen().len() > 0 && in_ms(t.timestamp) }
pub open spec fn total(s: Seq<f64>) -> f64
    decreases s.len()
{ if s.len() <= 1 { s[0] } else { fadd(total(s.drop_last()), s.last()) } }
/// a point of the samples that can be seen of one
pub open spec fn again(t: Telemetry) -> Agg {
    match t.agg() { Agg::Quant { .. } => Agg::Quant { data: t.seen().to_multiset(), sum: total(t.seen()) }, a => a }
}
pub open spec fn point_due(t: Telemetry, d: TagMap) -> Out {
    Out::Point { name: t.name@, agg: again(t), timestamp: t.timestamp, tags: over(d, t.tags), persist: t.persist }
}
pub open spec fn line_due(l: LogLine, d: TagMap) -> Out {
    Out::Line { path: l.path@, value: l.value@, time: l.time, tags: over(d, l.tags), fields: Map::empty() }
}
pub open spec fn points_due(s: Seq<Event>, d: TagMap) -> Seq<Out>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Event::Telemetry(t) => points_due(s.drop_last(), d).push(point_due(t, d)), _ => points_due(s.drop_last(), d) } }
}
pub open spec fn lines_due(s: Seq<Event>, d: TagMap) -> Seq<Out>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match s.last() { Event::Log(l) => lines_due(s.drop_last(), d).push(line_due(l, d)), _ => lines_due(s.drop_last(), d) } }
}
pub open spec fn all_carried(s: Seq<Event>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] { Event::Telemetry(t) => carried(t), Event::Log(l) => in_ms(l.time), _ => true }
}
pub proof fn lemma_seconds(x: i64)
    requires in_ms(x)
    ensures quot(sat(x * 1000) as int, 1000) as i64 == x
{
    if x >= 0 { assert((x * 1000) / 1000 == x as int) by (nonlinear_arith); } else { assert((-(x * 1000)) / 1000 == -x) by (nonlinear_arith); }
}
pub proof fn lemma_quant(s: Seq<f64>)
    requires s.len() > 0
    ensures with_all(begun(pb::AggregationMethod::SUMMARIZE, s[0]), s.skip(1)) == (Agg::Quant { data: s.to_multiset(), sum: total(s) })
    decreases s.len()
{
    broadcast use {vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let e = Seq::<f64>::empty();
    e.to_multiset_ensures();
    if s.len() == 1 {
        assert(s =~= e.push(s[0]));
        assert(s.skip(1) =~= e);
        assert(s.to_multiset() =~= Multiset::empty().insert(s[0]));
    } else {
        lemma_quant(s.drop_last());
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
        assert(s =~= s.drop_last().push(s.last()));
        assert(s.to_multiset() =~= s.drop_last().to_multiset().insert(s.last()));
    }
}
pub proof fn lemma_one(x: f64, a: Agg)
    ensures Seq::<f64>::empty().push(x)[0] == x, with_all(a, Seq::<f64>::empty().push(x).skip(1)) == a, Seq::<f64>::empty().push(x).len() == 1
{
    assert(Seq::<f64>::empty().push(x).skip(1) =~= Seq::<f64>::empty());
}
pub proof fn lemma_set(t: Telemetry, x: f64)
    requires t.value == Some(Value::Set(x))
    ensures t.seen() == Seq::<f64>::empty().push(x), t.agg() == Agg::Set(x), again(t) == Agg::Set(x), method_of(kind_of(t.agg())) == pb::AggregationMethod::SET,
        with_all(begun(pb::AggregationMethod::SET, t.seen()[0]), t.seen().skip(1)) == Agg::Set(x)
{ lemma_one(x, Agg::Set(x)); }
pub proof fn lemma_sum(t: Telemetry, x: f64)
    requires t.value == Some(Value::Sum(x))
    ensures t.seen() == Seq::<f64>::empty().push(x), t.agg() == Agg::Sum(x), again(t) == Agg::Sum(x), method_of(kind_of(t.agg())) == pb::AggregationMethod::SUM,
        with_all(begun(pb::AggregationMethod::SUM, t.seen()[0]), t.seen().skip(1)) == Agg::Sum(x)
{ lemma_one(x, Agg::Sum(x)); }
pub proof fn lemma_point(t: Telemetry, d: TagMap)
    requires carried(t)
    ensures point_out(point_of(t, d)) == point_due(t, d)
{
    lemma_seconds(t.timestamp);
    match t.value->0 {
        Value::Set(x) => { lemma_set(t, x); }
        Value::Sum(x) => { lemma_sum(t, x); }
        Value::Quantiles { ckms, sum } => { lemma_quant(t.seen()); }
        Value::Histogram(h) => {}
    }
}
pub proof fn lemma_points(s: Seq<Event>, d: TagMap)
    requires all_carried(s)
    ensures points_out(points_in(s, d)) == points_due(s, d)
    decreases s.len()
{
    if s.len() > 0 {
        let i = s.len() - 1;
        assert forall|j: int| 0 <= j < s.drop_last().len() implies (match #[trigger] s.drop_last()[j] { Event::Telemetry(t) => carried(t), Event::Log(l) => in_ms(l.time), _ => true }) by { assert(s.drop_last()[j] == s[j]); }
        lemma_points(s.drop_last(), d);
        assert(s[i] == s.last());
        match s.last() {
            Event::Telemetry(t) => { lemma_point(t, d); assert(points_in(s, d).drop_last() =~= points_in(s.drop_last(), d)); }
            _ => {}
        }
    }
}
pub proof fn lemma_lines(s: Seq<Event>, d: TagMap)
    requires all_carried(s)
    ensures lines_out(lines_in(s, d)) == lines_due(s, d)
    decreases s.len()
{
    if s.len() > 0 {
        let i = s.len() - 1;
        assert forall|j: int| 0 <= j < s.drop_last().len() implies (match #[trigger] s.drop_last()[j] { Event::Telemetry(t) => carried(t), Event::Log(l) => in_ms(l.time), _ => true }) by { assert(s.drop_last()[j] == s[j]); }
        lemma_lines(s.drop_last(), d);
        assert(s[i] == s.last());
        match s.last() {
            Event::Log(l) => { lemma_seconds(l.time); assert(lines_in(s, d).drop_last() =~= lines_in(s.drop_last(), d)); }
            _ => {}
        }
    }
}
/// What a flush sends, the source sends on: the same points, then the same lines, each in their order.
pub proof fn theorem_end_to_end(s: Seq<Event>, d: TagMap)
    requires all_carried(s)
    ensures forall|b: Seq<u8>| #[trigger] dec(b) == Some(payload_of(s, d)) ==> read_as(b) == points_due(s, d) + lines_due(s, d)
{
    lemma_points(s, d);
    lemma_lines(s, d);
}
fn main() {}
} // verus!
