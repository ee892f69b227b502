// C34: what the InfluxDB sink holds, posts and lets go.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/shown.inc
//@include inc/points.inc
pub enum Valve { Open, Closed }
/*@ item src/metric/logline.rs struct LogLine
@*/
pub uninterp spec fn line_tags(l: LogLine, over: TagMap) -> Pairs;
impl LogLine {
    #[verifier::external_body]
    pub fn tags(&self, over: &TagMap) -> (r: Vec<(String, String)>) ensures pairs(r@) == line_tags(*self, *over) { unimplemented!() }
}
/*@ rewrites
rw `$x.to_string()` => `$x.shown()`
rw `$A.fetch_add($*a)` => `()`
rw `$A.store($*a);` => ``
rw `use crate::metric::AggregationMethod;` => ``
rw `use quantiles::histogram::Bound;` => ``
@*/

// ================================================================ influxdb
pub mod influx {
use super::*;
pub mod reqwest {
    use super::*;
    #[verifier::external_body]
    pub struct Client { _p: () }
}
#[verifier::external_body]
pub struct Url { _p: () }
/// what a server answers a post with
#[verifier::external_body]
pub struct Response { _p: () }
#[verifier::external_body]
pub struct Status { _p: () }
pub struct PostError {}
impl Response {
    pub uninterp spec fn success(&self) -> bool;
    #[verifier::external_body]
    pub fn status(&self) -> (r: Status) ensures r.ok() == self.success() { unimplemented!() }
}
impl Status {
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body]
    pub fn is_success(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_client_error(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_server_error(&self) -> (r: bool) { unimplemented!() }
}
/// every payload posted so far, and whether the server accepted it
pub struct Post { pub body: Text, pub accepted: bool }
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn posts(&self) -> Seq<Post>; }
#[verifier::external_body]
pub fn post(c: &reqwest::Client, u: &Url, body: String, w: &mut World) -> (r: Result<Response, PostError>)
    ensures final(w).posts() == old(w).posts().push(Post { body: body@, accepted: r is Ok && r->Ok_0.success() })
{ unimplemented!() }
pub mod time {
    #[verifier::external_body]
    pub fn delay(n: u32) { unimplemented!() }
}

// ---- values that can be put in order
pub trait Ordered: Sized {
    spec fn ok(self) -> bool;
    spec fn lt(self, o: Self) -> bool;
    spec fn same(self, o: Self) -> bool;
    proof fn laws(a: Self, b: Self, c: Self)
        requires a.ok(), b.ok(), c.ok()
        ensures
            a.same(a), a.same(b) ==> b.same(a) && !a.lt(b) && !b.lt(a),
            a.lt(b) || b.lt(a) || a.same(b), a.lt(b) ==> !b.lt(a),
            a.lt(b) && b.lt(c) ==> a.lt(c), a.lt(b) && b.same(c) ==> a.lt(c);
}
impl Ordered for i64 {
    open spec fn ok(self) -> bool { true }
    open spec fn lt(self, o: i64) -> bool { self < o }
    open spec fn same(self, o: i64) -> bool { self == o }
    proof fn laws(a: i64, b: i64, c: i64) {}
}
pub uninterp spec fn f_finite(x: f64) -> bool;
pub uninterp spec fn f_lt(x: f64, y: f64) -> bool;
pub uninterp spec fn f_eq(x: f64, y: f64) -> bool;
impl Ordered for f64 {
    open spec fn ok(self) -> bool { f_finite(self) }
    open spec fn lt(self, o: f64) -> bool { f_lt(self, o) }
    open spec fn same(self, o: f64) -> bool { f_eq(self, o) }
    // floats that are not NaN are in order
    #[verifier::external_body]
    proof fn laws(a: f64, b: f64, c: f64) {}
}
/// equal floats have equal texts (0 and -0 both are "0" to this standard library)
#[verifier::external_body]
pub broadcast proof fn ax_text(a: f64, b: f64) requires #[trigger] f_eq(a, b) ensures text_f64(a) == text_f64(b) {}
/// f64::is_finite
#[verifier::external_body]
pub fn finite(x: &f64) -> (r: bool) ensures r == f_finite(*x) { unimplemented!() }
/// Option::filter by `storable`
#[verifier::external_body]
pub fn only_storable(v: Option<f64>) -> (r: Option<f64>)
    ensures r == (match v { Some(x) => if f_finite(x) { Some(x) } else { None }, None => None })
{ unimplemented!() }
pub open spec fn sorted<T: Ordered>(c: Seq<(T, String)>) -> bool {
    (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).0.ok())
    && forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).0.lt((#[trigger] c[j]).0)
}
/// every entry has the text of its value
pub open spec fn texts_right<T: Ordered + Shown>(c: Seq<(T, String)>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1@ == c[i].0.text()
}
pub open spec fn cache_ok<T: Ordered + Shown>(c: Seq<(T, String)>) -> bool { sorted(c) && texts_right(c) }
pub open spec fn found<T: Ordered>(c: Seq<(T, String)>, v: T, i: int) -> bool { 0 <= i < c.len() && c[i].0.same(v) }
/// `binary_search_by` the order of the values, which has to be one
#[verifier::external_body]
pub fn search<T: Ordered>(c: &Vec<(T, String)>, v: T) -> (r: Result<usize, usize>)
    requires sorted(c@), v.ok()
    ensures match r {
        Ok(i) => found(c@, v, i as int),
        Err(i) => i <= c@.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] c@[j]).0.lt(v)) && forall|j: int| i <= j < c@.len() ==> v.lt((#[trigger] c@[j]).0) }
{ unimplemented!() }
pub trait Same: Ordered + Shown {
    proof fn same_text(a: Self, b: Self) ensures a.same(b) ==> a.text() == b.text();
}
impl Same for i64 { proof fn same_text(a: i64, b: i64) {} }
impl Same for f64 { proof fn same_text(a: f64, b: f64) { broadcast use ax_text; } }

/*@ fn src/sink/influxdb.rs storable
ret: r
rw `val.is_finite()` => `finite(val)`
spec:
    ensures r == f_finite(*val)
@*/
/*@ fn src/sink/influxdb.rs get_from_cache
ret: r
sig:
    fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> (r: &str) where T: Same + Copy,
rw `cache.binary_search_by(|$p| $*b)` => `search(cache, val)`
rw `&cache[idx].1` => `{ proof { T::same_text(cache@[idx as int].0, val); } cache[idx].1.as_str() }`
rw `cache.insert(idx, (val, str_val));` => `cache.insert(idx, (val, str_val)); proof { lemma_insert(old(cache)@, cache@, val, str_val, idx as int); }`
spec:
    requires cache_ok(old(cache)@), val.ok()
    ensures cache_ok(final(cache)@), r@ == val.text()
    decreases if exists|i: int| found(old(cache)@, val, i) { 0int } else { 1int }
@*/
pub proof fn lemma_insert<T: Same>(a: Seq<(T, String)>, b: Seq<(T, String)>, v: T, s: String, i: int)
    requires
        cache_ok(a), v.ok(), 0 <= i <= a.len(), b == a.insert(i, (v, s)), s@ == v.text(),
        forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).0.lt(v), forall|j: int| i <= j < a.len() ==> v.lt((#[trigger] a[j]).0),
    ensures cache_ok(b), found(b, v, i), forall|k: int| !found(a, v, k)
{
    T::laws(v, v, v);
    assert forall|k: int| !found(a, v, k) by { if 0 <= k < a.len() { T::laws(a[k].0, v, v); T::laws(v, a[k].0, v); } }
}

pub open spec fn tag_text(p: Pairs) -> Text
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { tag_text(p.drop_last()) + (","@ + p.last().0 + "="@ + p.last().1) } }
/*@ fn src/sink/influxdb.rs fmt_tags
sig:
    fn fmt_tags(tags: Vec<(String, String)>, s: &mut String)
spec:
    ensures final(s)@ == old(s)@ + tag_text(pairs(tags@))
at fn-start:
    let ghost p = pairs(tags@);
    let ghost s0 = s@;
    broadcast use cats;
loop 1 for iter it:
    invariant s@ == s0 + tag_text(p.take(it.index() as int)), p == pairs(it.seq()),
at loop 1 start:
    broadcast use cats;
    proof { assert(p.take(it.index() + 1).drop_last() =~= p.take(it.index() as int)); }
at loop 1 after:
    proof { assert(p.take(p.len() as int) =~= p); }
@*/

// ---- what is posted
pub uninterp spec fn f_of(x: int) -> f64;
/// usize as f64
#[verifier::external_body]
pub fn f64_of(x: usize) -> (r: f64) ensures r == f_of(x as int), f_finite(r) { unimplemented!() }
pub open spec fn clamp(x: int) -> int { if x < i64::MIN { i64::MIN as int } else if x > i64::MAX { i64::MAX as int } else { x } }
/// i64::saturating_mul
#[verifier::external_body]
pub fn sat_mul(a: i64, b: i64) -> (r: i64) ensures r == clamp(a * b) { unimplemented!() }
/// format!("{}.{}")
#[verifier::external_body]
pub fn dotted(a: &String, b: &String) -> (r: String) ensures r@ == a@ + "."@ + b@ { unimplemented!() }
/// format!("le_{}")
#[verifier::external_body]
pub fn le_of(a: f64) -> (r: String) ensures r@ == "le_"@ + text_f64(a) { unimplemented!() }

/// one line of the line protocol
pub open spec fn line(name: Text, tags: Pairs, value: Text, time: i64) -> Text {
    name + (tag_text(tags) + (" "@ + ("value="@ + (value + (" "@ + (text_int(clamp(time * 1_000_000_000)) + "\n"@))))))
}
/// values InfluxDB cannot store are left out
pub open spec fn value_line(name: Text, tags: Pairs, v: Option<f64>, time: i64) -> Text {
    match v { Some(x) => if f_finite(x) { line(name, tags, text_f64(x), time) } else { Seq::empty() }, None => Seq::empty() }
}
pub open spec fn bin_name(b: Bound) -> Text { match b { Bound::Finite(x) => "le_"@ + text_f64(x), Bound::PosInf => "le_inf"@ } }
pub open spec fn bin_lines(t: Telemetry, tags: Pairs, b: Seq<(Bound, usize)>) -> Text
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else {
        bin_lines(t, tags, b.drop_last())
            + line((t.name@ + "."@) + bin_name(b.last().0), tags, text_f64(f_of(b.last().1 as int)), t.timestamp)
    }
}
pub open spec fn quantile_lines(t: Telemetry, tags: Pairs, q: Seq<f64>) -> Text
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else {
        quantile_lines(t, tags, q.drop_last()) + value_line((t.name@ + "."@) + text_f64(q.last()), tags, t.query_of(q.last()), t.timestamp)
    }
}
pub open spec fn quantiles() -> Seq<f64> { seq![0.25f64, 0.50f64, 0.75f64, 0.90f64, 0.99f64, 1.0f64] }
pub open spec fn point_lines(t: Telemetry, over: TagMap) -> Text {
    let tags = tel_tags(t, over);
    match t.kind_of() {
        AggregationMethod::Sum => value_line(t.name@, tags, t.sum_of(), t.timestamp),
        AggregationMethod::Set => value_line(t.name@, tags, t.set_of(), t.timestamp),
        AggregationMethod::Histogram => match t.bins_of() { Some(b) => bin_lines(t, tags, b), None => Seq::empty() },
        AggregationMethod::Summarize => quantile_lines(t, tags, quantiles()),
    }
}
/// every point's lines, in the order of the points
pub open spec fn payload(ts: Seq<Telemetry>, over: TagMap) -> Text
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { payload(ts.drop_last(), over) + point_lines(ts.last(), over) } }

/*@ item src/sink/influxdb.rs struct InfluxDB
@*/
impl InfluxDB {
/*@ fn src/sink/influxdb.rs InfluxDB.format_stats
rw `telem.timestamp.saturating_mul($*n)` => `sat_mul(telem.timestamp, $*n)`
rw `telems.iter()` => `telems.iter()`
rw `telem.$m($*a).filter(storable)` => `only_storable(telem.$m($*a))`
rw `for percentile in &[$*a] {` => `for percentile in vec![$*a] {`
rw `*percentile` => `percentile`
rw `&format!("{}.{}", &telem.name, percentile)` => `dotted(&telem.name, &percentile.shown())`
rw `&format!("{}.{}", &telem.name, bound_name)` => `dotted(&telem.name, &bound_name)`
rw `format!("le_{}", x)` => `le_of(x)`
rw `count as f64` => `f64_of(count)`
rw `tag_buf.clear()` => `tag_buf.wipe()`
rw `telem.tags(&self.tags)` => `telem.tags(&self.tags)`
spec:
    ensures final(buffer)@ == old(buffer)@ + payload(telems@, self.tags)
at fn-start:
    broadcast use cats;
    let ghost b0 = buffer@;
loop 1 for iter it:
    invariant
        tag_buf@.len() == 0, cache_ok(time_cache@), cache_ok(value_cache@),
        it.seq().len() == telems@.len(), forall|i: int| 0 <= i < telems@.len() ==> *(#[trigger] it.seq()[i]) == telems@[i],
        buffer@ == b0 + payload(telems@.take(it.index() as int), self.tags),
at loop 1 start:
    broadcast use cats;
    let ghost b1 = buffer@;
    proof {
        assert(*telem == telems@[it.index() as int]);
        assert(telems@.take(it.index() + 1).drop_last() =~= telems@.take(it.index() as int));
    }
at loop 1 end:
    assert(buffer@ == b1 + point_lines(*telem, self.tags));
at loop 1 after:
    proof { assert(telems@.take(telems@.len() as int) =~= telems@); }
loop 2 for iter bi:
    invariant
        tag_buf@.len() == 0, cache_ok(time_cache@), cache_ok(value_cache@),
        telem.bins_of() == Some(bi.seq()),
        buffer@ == b1 + bin_lines(*telem, tel_tags(*telem, self.tags), bi.seq().take(bi.index() as int)),
at loop 2 start:
    broadcast use cats;
    proof { assert(bi.seq().take(bi.index() + 1).drop_last() =~= bi.seq().take(bi.index() as int)); }
at loop 2 after:
    proof { let b = telem.bins_of()->0; assert(b.take(b.len() as int) =~= b); }
loop 3 for iter pi:
    invariant
        tag_buf@.len() == 0, cache_ok(time_cache@), cache_ok(value_cache@),
        pi.seq() == quantiles(),
        buffer@ == b1 + quantile_lines(*telem, tel_tags(*telem, self.tags), pi.seq().take(pi.index() as int)),
at loop 3 start:
    broadcast use cats;
    proof { assert(pi.seq().take(pi.index() + 1).drop_last() =~= pi.seq().take(pi.index() as int)); }
at loop 3 after:
    proof { let b = quantiles(); assert(b.take(b.len() as int) =~= b); }
@*/
/*@ fn src/sink/influxdb.rs Sink@InfluxDB.deliver
spec:
    ensures *final(self) == (InfluxDB { aggrs: final(self).aggrs, ..*old(self) }), final(self).aggrs@ == old(self).aggrs@.push(point)
@*/
/*@ fn src/sink/influxdb.rs Sink@InfluxDB.valve_state
ret: r
spec:
    ensures r is Closed <==> self.aggrs@.len() > 100_000
@*/
/*@ fn src/sink/influxdb.rs Sink@InfluxDB.flush_interval
ret: r
spec:
    ensures r == Some(self.flush_interval)
@*/
/*@ fn src/sink/influxdb.rs Sink@InfluxDB.flush
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    fn flush(&mut self, w: &mut World)
rw `self.client.post(self.uri.clone()).header($*h).body($*b).send()` => `{ let ghost p0 = w.posts(); let r = post(&self.client, &self.uri, $*b, w); proof { lemma_post(old(w).posts(), p0, w.posts().last(), buffer@); } r }`
rw `buffer.clear()` => `buffer.wipe()`
rw `debug!($*a)` => `()`
spec:
    ensures
        *final(self) == (InfluxDB { aggrs: final(self).aggrs, delivery_attempts: final(self).delivery_attempts, ..*old(self) }),
        final(self).aggrs@.len() == 0, posted(old(w).posts(), final(w).posts(), payload(old(self).aggrs@, old(self).tags)),
at fn-start:
    broadcast use cats;
    let ghost o = *self;
    proof { assert(w.posts().take(w.posts().len() as int) =~= w.posts()); }
loop 1 loop:
    invariant_except_break
        buffer@ == payload(o.aggrs@, o.tags), *self == (InfluxDB { delivery_attempts: self.delivery_attempts, ..o }), posting(old(w).posts(), w.posts(), buffer@),
    ensures *self == (InfluxDB { delivery_attempts: self.delivery_attempts, ..o }), posted(old(w).posts(), w.posts(), payload(o.aggrs@, o.tags)),
@*/
/*@ fn src/sink/influxdb.rs Sink@InfluxDB.shutdown
sig:
    fn shutdown(self, w: &mut World)
attr: #[verifier::exec_allows_no_decreases_clause]
rw `self.flush()` => `self.flush(w)`
spec:
    ensures posted(old(w).posts(), final(w).posts(), payload(self.aggrs@, self.tags)),
@*/
}
/// the same payload again and again, refused every time
pub open spec fn posting(a: Seq<Post>, b: Seq<Post>, body: Text) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a
    && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]) == (Post { body: body, accepted: false })
}
pub proof fn lemma_post(a: Seq<Post>, b: Seq<Post>, p: Post, body: Text)
    requires posting(a, b, body), p.body == body
    ensures p.accepted ==> posted(a, b.push(p), body), !p.accepted ==> posting(a, b.push(p), body)
{ assert(b.push(p).drop_last() =~= b); assert(b.push(p).take(a.len() as int) =~= b.take(a.len() as int)); }
/// ... until it was accepted
pub open spec fn posted(a: Seq<Post>, b: Seq<Post>, body: Text) -> bool {
    b.len() > 0 && posting(a, b.drop_last(), body) && b.last() == (Post { body: body, accepted: true })
}
}
fn main() {}
}
