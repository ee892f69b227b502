// C33: what the Elasticsearch sink holds, sends and lets go.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/shown.inc
//@include inc/points.inc
pub enum Valve { Open, Closed }
/*@ item src/metric/logline.rs struct LogLine
@*/
pub uninterp spec fn line_tags(l: LogLine, over: TagMap) -> Pairs;
impl LogLine {
    #[verifier::external_body]
    pub fn tags(&self, over: &TagMap) -> (r: Vec<(String, String)>) ensures pairs(r@) == line_tags(*self, *over) { unimplemented!() }
}
/*@ rewrites
rw `$x.to_string()` => `$x.shown()`
rw `$A.fetch_add($*a)` => `()`
rw `$A.store($*a);` => ``
rw `use crate::metric::AggregationMethod;` => ``
rw `use quantiles::histogram::Bound;` => ``
@*/

// ================================================================ elasticsearch
pub mod elastic {
use super::*;
use std::cmp;
pub mod uuid {
    use super::*;
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Uuid { _p: () }
    #[verifier::external_body]
    pub struct Hyphenated { _p: () }
    impl Hyphenated { pub uninterp spec fn of(&self) -> Uuid; }
    impl Shown for Hyphenated {
        open spec fn text(&self) -> Text { self.of().hyphens() }
        #[verifier::external_body]
        fn shown(&self) -> (r: String) { unimplemented!() }
    }
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct ParseError { _p: () }
    impl Uuid {
        pub uninterp spec fn hyphens(&self) -> Text;
        /// a fresh one, each time
        #[verifier::external_body]
        pub fn new_v4(Ghost(used): Ghost<Seq<Line>>) -> (r: Uuid)
            ensures forall|i: int| 0 <= i < used.len() ==> (#[trigger] used[i]).uuid != r
        { unimplemented!() }
        /// the inverse of `hyphens`
        #[verifier::external_body]
        pub fn parse_str(s: &String) -> (r: Result<Uuid, ParseError>)
            ensures forall|u: Uuid| #[trigger] u.hyphens() == s@ ==> r == Ok::<Uuid, ParseError>(u)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn cmp(&self, o: &Uuid) -> (r: cmp::Ordering) ensures r is Equal <==> *self == *o { unimplemented!() }
        #[verifier::external_body]
        pub fn hyphenated(&self) -> (r: Hyphenated) ensures r.of() == *self { unimplemented!() }
    }
}
/*@ item src/sink/elasticsearch.rs struct Line
@*/
/*@ item src/sink/elasticsearch.rs struct Elasticsearch
@*/
// ---- JSON
pub enum J { Str(Text), Obj(Map<Text, J>) }
pub uninterp spec fn json_text(j: J) -> Text;
pub enum Value { String(String), Other }
impl Value { pub open spec fn j(self) -> J { match self { Value::String(s) => J::Str(s@), Value::Other => J::Str(Seq::empty()) } } }
#[verifier::external_body]
pub struct Object { _p: () }
impl Object {
    pub uninterp spec fn m(&self) -> Map<Text, J>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: Value) ensures final(self).m() == old(self).m().insert(k@, v.j()) { unimplemented!() }
}
#[verifier::external_body]
pub fn to_string(o: &Object) -> (r: Result<String, ()>) ensures r is Ok, r->Ok_0@ == json_text(J::Obj(o.m())) { unimplemented!() }
/// json!({ a: { b: v, c: w, d: x } })
#[verifier::external_body]
pub fn json_nested(a: &str, b: &str, v: String, c: &str, w: String, d: &str, x: String) -> (r: Object)
    ensures r.m() == Map::<Text, J>::empty().insert(a@, J::Obj(Map::<Text, J>::empty().insert(b@, J::Str(v@)).insert(c@, J::Str(w@)).insert(d@, J::Str(x@))))
{ unimplemented!() }
/// json!({ a: v, b: w, c: x, d: y })
#[verifier::external_body]
pub fn json_flat(a: &str, v: String, b: &str, w: String, c: &str, x: String, d: &str, y: String) -> (r: Object)
    ensures r.m() == Map::<Text, J>::empty().insert(a@, J::Str(v@)).insert(b@, J::Str(w@)).insert(c@, J::Str(x@)).insert(d@, J::Str(y@))
{ unimplemented!() }

// ---- calendar
pub uninterp spec fn day_text(time: i64) -> Text;
pub uninterp spec fn moment_text(time: i64) -> Text;
#[verifier::external_body]
pub fn format_time(time: i64) -> (r: String) ensures r@ == moment_text(time) { unimplemented!() }
pub open spec fn index_name(prefix: Option<String>, time: i64) -> Text {
    match prefix { Some(p) => p@ + "-"@ + day_text(time), None => day_text(time) }
}
#[verifier::external_body]
pub struct DateTime { _p: () }
impl DateTime {
    pub uninterp spec fn of(&self) -> i64;
    /// format("%Y-%m-%d")
    #[verifier::external_body]
    pub fn day(&self) -> (r: String) ensures r@ == day_text(self.of()) { unimplemented!() }
}
/// every timestamp has a place in the calendar
#[verifier::external_body]
pub fn calendar(time: i64) -> (r: DateTime) ensures r.of() == time { unimplemented!() }
#[verifier::external_body]
pub fn dashed(a: &String, b: String) -> (r: String) ensures r@ == a@ + "-"@ + b@ { unimplemented!() }
/*@ fn src/sink/elasticsearch.rs idx
ret: r
rw `format!("{}-{}", p, utc_time.format("%Y-%m-%d"))` => `dashed(p, utc_time.day())`
rw `format!("{}", utc_time.format("%Y-%m-%d"))` => `utc_time.day()`
spec:
    ensures r@ == index_name(*prefix, time)
@*/
// ---- what is sent
pub open spec fn header(u: Text, l: LogLine, prefix: Option<String>, kind: Text) -> J {
    J::Obj(Map::<Text, J>::empty().insert("index"@, J::Obj(
        Map::<Text, J>::empty().insert("_index"@, J::Str(index_name(prefix, l.time))).insert("_type"@, J::Str(kind)).insert("_id"@, J::Str(u)))))
}
pub open spec fn with_all(m: Map<Text, J>, p: Pairs) -> Map<Text, J>
    decreases p.len()
{ if p.len() == 0 { m } else { with_all(m, p.drop_last()).insert(p.last().0, J::Str(p.last().1)) } }
/// the document of a line: its tags and then its fields win over what is there
pub open spec fn document(u: Text, l: LogLine, over: TagMap) -> J {
    J::Obj(with_all(with_all(
        Map::<Text, J>::empty().insert("uuid"@, J::Str(u)).insert("path"@, J::Str(l.path@)).insert("payload"@, J::Str(l.value@)).insert("timestamp"@, J::Str(moment_text(l.time))),
        line_tags(l, over)), map_pairs(l.fields)))
}
pub open spec fn line_text(x: Line, e: Elasticsearch) -> Text {
    json_text(header(x.uuid.hyphens(), x.line, e.index_prefix, e.index_type@)) + (seq!['\n'] + (json_text(document(x.uuid.hyphens(), x.line, e.tags)) + seq!['\n']))
}
pub open spec fn body(b: Seq<Line>, e: Elasticsearch) -> Text
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { body(b.drop_last(), e) + line_text(b.last(), e) } }

/*@ item src/sink/elasticsearch.rs struct ElasticsearchConfig
@*/
impl Elasticsearch {
/*@ fn src/sink/elasticsearch.rs Sink@Elasticsearch.init
ret: r
spec:
    ensures
        r.buffer@.len() == 0, r.ok(), r.index_prefix == config.index_prefix, r.index_type == config.index_type, r.tags == config.tags,
        r.delivery_attempt_limit == config.delivery_attempt_limit, r.flush_interval == config.flush_interval,
        r.secure == config.secure, r.host == config.host, r.port == config.port,
@*/
/*@ fn src/sink/elasticsearch.rs Elasticsearch.bulk_body
rw `use serde_json::{to_string, Value};` => ``
rw `let header: Value = json!({$a: {$b: $*v, $c: $*w, $d: $*x,}});` => `let header = json_nested($a, $b, $*v, $c, $*w, $d, $*x);`
rw `let mut payload: Value = json!({$a: $*v, $b: $*w, $c: $*x, $d: $*y,});` => `let mut payload = json_flat($a, $*v, $b, $*w, $c, $*x, $d, $*y);`
rw `let obj = payload.as_object_mut().unwrap();` => ``
rw `obj.insert($*a);` => `payload.insert($*a);`
rw `to_string(&obj)` => `to_string(&payload)`
rw `in &line.fields` => `in entries(&line.fields)`
rw `in &self.buffer` => `in self.buffer.iter()`
rw `assert!(!self.buffer.is_empty());` => `check(self.buffer.len() > 0);`
rw `buffer.push($*c);` => `buffer.put_char($*c);`
spec:
    requires self.buffer@.len() > 0
    ensures final(buffer)@ == old(buffer)@ + body(self.buffer@, *self)
at fn-start:
    broadcast use cats;
    let ghost b0 = buffer@;
loop 1 for iter it:
    invariant
        it.seq().len() == self.buffer@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.buffer@[i],
        buffer@ == b0 + body(self.buffer@.take(it.index() as int), *self),
at loop 1 start:
    broadcast use cats;
    proof { assert(self.buffer@.take(it.index() + 1).drop_last() =~= self.buffer@.take(it.index() as int)); }
at loop 1 after:
    proof { assert(self.buffer@.take(self.buffer@.len() as int) =~= self.buffer@); }
loop 2 for iter ti:
    invariant
        pairs(ti.seq()) == line_tags(*line, self.tags), 
        payload.m() == with_all(p0, pairs(ti.seq()).take(ti.index() as int)),
at loop 2 before:
    let ghost p0 = payload.m();
at loop 2 start:
    proof { let p = pairs(ti.seq()); assert(p.take(ti.index() + 1).drop_last() =~= p.take(ti.index() as int)); }
at loop 2 after:
    proof { let p = line_tags(*line, self.tags); assert(p.take(p.len() as int) =~= p); }
    let ghost p1 = payload.m();
loop 3 for iter fi:
    invariant
        pairs(fi.seq()) == map_pairs(line.fields), 
        payload.m() == with_all(p1, pairs(fi.seq()).take(fi.index() as int)),
at loop 3 start:
    proof { let p = pairs(fi.seq()); assert(p.take(fi.index() + 1).drop_last() =~= p.take(fi.index() as int)); }
at loop 3 after:
    proof { let p = map_pairs(line.fields); assert(p.take(p.len() as int) =~= p); }
@*/

/*@ fn src/sink/elasticsearch.rs Sink@Elasticsearch.deliver_line
rw `uuid::Uuid::new_v4()` => `uuid::Uuid::new_v4(Ghost(self.buffer@))`
spec:
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).same_terms(*old(self)),
        final(self).buffer@ == old(self).buffer@.push(final(self).buffer@.last()),
        final(self).buffer@.last().line == line, final(self).buffer@.last().attempts == 0,
@*/
/*@ fn src/sink/elasticsearch.rs Sink@Elasticsearch.valve_state
ret: r
spec:
    ensures r is Closed <==> self.buffer@.len() > 10_000
@*/
/*@ fn src/sink/elasticsearch.rs Sink@Elasticsearch.flush_interval
ret: r
spec:
    ensures r == Some(self.flush_interval)
@*/
    pub open spec fn ok(&self) -> bool { distinct(self.buffer@) }
    pub open spec fn same_terms(&self, o: Elasticsearch) -> bool { *self == (Elasticsearch { buffer: self.buffer, ..o }) }
/*@ fn src/sink/elasticsearch.rs Sink@Elasticsearch.shutdown
sig:
    fn shutdown(self, w: &mut World)
rw `self.flush()` => `self.flush(w)`
spec:
    requires self.ok()
    ensures
        self.buffer@.len() == 0 ==> final(w).bulks() == old(w).bulks(),
        self.buffer@.len() > 0 ==> final(w).bulks() == old(w).bulks().push(final(w).bulks().last()) && final(w).bulks().last().body == body(self.buffer@, self),
@*/
/*@ fn src/sink/elasticsearch.rs Sink@Elasticsearch.flush
sig:
    fn flush(&mut self, w: &mut World)
rw `let params = RequestParams::new(format!("{}://{}:{}", proto, self.host, self.port));` => `let params = params_for(proto, &self.host, self.port);`
rw `SyncClientBuilder::from_params(params).build().unwrap()` => `client_for(params)`
rw `client.request(BulkRequest::new($*b)).send()` => `client.bulk($*b, Ghost(self.buffer@), w)`
rw `let bulk_resp: Result<BulkResponse> = snd.into_response::<BulkResponse>();` => `let bulk_resp = snd.into_response();`
rw `in bulk.iter()` => `in bulk.items()`
rw `debug!($*a)` => `()`
rw `use elastic::error::ApiError;` => ``
rw `self.buffer[idx].attempts = self.buffer[idx].attempts.saturating_add(1);` => `self.buffer[idx].attempts = sat_inc(self.buffer[idx].attempts); proof { assert(self.buffer@[idx as int].attempts <= limit ==> settled(cur, self.buffer@, said[n].uuid, said[n].ok, limit, idx as int)); }`
rw `self.buffer.remove(idx);` => `self.buffer.remove(idx); proof { assert(settled(cur, self.buffer@, said[n].uuid, said[n].ok, limit, idx as int)); }`
spec:
    requires old(self).ok()
    ensures
        final(self).ok(), final(self).same_terms(*old(self)),
        old(self).buffer@.len() == 0 ==> final(self).buffer@.len() == 0 && final(w).bulks() == old(w).bulks(),
        old(self).buffer@.len() > 0 ==> {
            let b = final(w).bulks().last();
            &&& final(w).bulks() == old(w).bulks().push(b)
            // one request, with all that is held
            &&& b.body == body(old(self).buffer@, *old(self))
            // and only what the answer settled is let go
            &&& final(self).buffer@ == match b.answers {
                Some(a) => keep(old(self).buffer@, amap(a), old(self).delivery_attempt_limit), None => old(self).buffer@ }
        },
at fn-start:
    broadcast use cats;
    let ghost o = *self;
loop 1 for iter it:
    invariant
        it.seq().len() == said.len(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] ans(it.seq()[i]) == said[i],
        fair(said, o.buffer@), distinct(o.buffer@), self.same_terms(o),
        self.buffer@ == keep(o.buffer@, amap(said.take(it.index() as int)), o.delivery_attempt_limit),
at loop 1 before:
    let ghost said = bulk.said();
    proof { assert(said.take(0) =~= Seq::<Ans>::empty()); lemma_keep_none(o.buffer@, o.delivery_attempt_limit); }
at loop 1 start:
    let ghost cur = self.buffer@;
    let ghost limit = o.delivery_attempt_limit;
    let ghost n = it.index() as int;
    let ghost m = amap(said.take(n));
    proof {
        assert(ans(it.seq()[n]) == said[n]);
        assert(said.take(n + 1).drop_last() =~= said.take(n));
        assert(said.take(n + 1).last() == said[n]);
        lemma_amap(said, n, said[n].uuid);
        lemma_there(o.buffer@, m, limit, said[n].uuid);
    }
at loop 1 end:
    proof { lemma_step(o.buffer@, m, limit, said[n].uuid, said[n].ok, cur, self.buffer@); }
at loop 1 after:
    proof { assert(said.take(said.len() as int) =~= said); lemma_keep_distinct(o.buffer@, amap(said), o.delivery_attempt_limit); }
loop 2 for iter ai:
    invariant_except_break
        idx == ai.index(),
    invariant
        idx <= self.buffer@.len(), ai.seq().len() == self.buffer@.len(), forall|j: int| 0 <= j < ai.seq().len() ==> ai.seq()[j] == j,
        forall|j: int| 0 <= j < idx ==> (#[trigger] self.buffer@[j]).uuid != uuid,
    ensures idx == self.buffer@.len() || self.buffer@[idx as int].uuid == uuid,
loop 3 for iter bi:
    invariant_except_break
        idx == bi.index(),
    invariant
        idx <= self.buffer@.len(), bi.seq().len() == self.buffer@.len(), forall|j: int| 0 <= j < bi.seq().len() ==> bi.seq()[j] == j,
        forall|j: int| 0 <= j < idx ==> (#[trigger] self.buffer@[j]).uuid != uuid,
    ensures idx == self.buffer@.len() || self.buffer@[idx as int].uuid == uuid,
@*/
}
/// the first line with the id is let go, or counts one more failure
pub open spec fn settled(cur: Seq<Line>, after: Seq<Line>, u: uuid::Uuid, ok: bool, limit: u8, k: int) -> bool {
    0 <= k < cur.len() && cur[k].uuid == u && after =~= cur.take(k) + stays(cur[k], Map::empty().insert(u, ok), limit) + cur.skip(k + 1)
}
pub proof fn lemma_keep_none(b: Seq<Line>, limit: u8)
    ensures keep(b, Map::empty(), limit) == b
    decreases b.len()
{ if b.len() > 0 { lemma_keep_none(b.drop_last(), limit); assert(b.drop_last() + seq![b.last()] =~= b); } else { assert(b =~= Seq::empty()); } }
pub proof fn lemma_amap(a: Seq<Ans>, n: int, u: uuid::Uuid)
    requires 0 <= n < a.len(), u == a[n].uuid, forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).uuid != (#[trigger] a[j]).uuid
    ensures !amap(a.take(n)).dom().contains(u)
    decreases n
{ lemma_amap_dom(a.take(n), u); }
pub proof fn lemma_amap_dom(a: Seq<Ans>, u: uuid::Uuid)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).uuid != u
    ensures !amap(a).dom().contains(u)
    decreases a.len()
{ if a.len() > 0 { assert(a.last() == a[a.len() - 1]); assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).uuid != u by { assert(a.drop_last()[i] == a[i]); } lemma_amap_dom(a.drop_last(), u); } }
/// what is kept was there
pub proof fn lemma_keep_sub(b: Seq<Line>, m: Map<uuid::Uuid, bool>, limit: u8, k: int)
    requires 0 <= k < keep(b, m, limit).len()
    ensures exists|i: int| 0 <= i < b.len() && b[i].uuid == keep(b, m, limit)[k].uuid
    decreases b.len()
{
    let p = keep(b.drop_last(), m, limit);
    if k < p.len() {
        lemma_keep_sub(b.drop_last(), m, limit, k);
        let i = choose|i: int| 0 <= i < b.drop_last().len() && b.drop_last()[i].uuid == p[k].uuid;
        assert(b[i].uuid == keep(b, m, limit)[k].uuid);
    } else { assert(b[b.len() - 1].uuid == keep(b, m, limit)[k].uuid); }
}
pub proof fn lemma_keep_distinct(b: Seq<Line>, m: Map<uuid::Uuid, bool>, limit: u8)
    requires distinct(b)
    ensures distinct(keep(b, m, limit))
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last();
        lemma_keep_distinct(d, m, limit);
        let p = keep(d, m, limit);
        let q = keep(b, m, limit);
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).uuid != (#[trigger] q[j]).uuid by {
            assert(q[i] == p[i]);
            if j < p.len() { assert(q[j] == p[j]); } else {
                lemma_keep_sub(d, m, limit, i);
                let x = choose|x: int| 0 <= x < d.len() && d[x].uuid == p[i].uuid;
                assert(b[x].uuid != b[b.len() - 1].uuid);
            }
        }
    }
}
/// a line without an answer is still there
pub proof fn lemma_there(b: Seq<Line>, m: Map<uuid::Uuid, bool>, limit: u8, u: uuid::Uuid)
    requires exists|j: int| 0 <= j < b.len() && b[j].uuid == u, !m.dom().contains(u)
    ensures exists|k: int| 0 <= k < keep(b, m, limit).len() && (#[trigger] keep(b, m, limit)[k]).uuid == u
    decreases b.len()
{
    let d = b.drop_last();
    let p = keep(d, m, limit);
    let q = keep(b, m, limit);
    if b.last().uuid == u { assert(q[p.len() as int].uuid == u); } else {
        let j = choose|j: int| 0 <= j < b.len() && b[j].uuid == u;
        assert(d[j].uuid == u);
        lemma_there(d, m, limit, u);
        let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).uuid == u;
        assert(q[k].uuid == u);
    }
}
pub proof fn lemma_same(b: Seq<Line>, m: Map<uuid::Uuid, bool>, limit: u8, u: uuid::Uuid, ok: bool)
    requires forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j]).uuid != u
    ensures keep(b, m.insert(u, ok), limit) == keep(b, m, limit)
    decreases b.len()
{
    if b.len() > 0 {
        assert(b.last() == b[b.len() - 1]);
        assert forall|j: int| 0 <= j < b.drop_last().len() implies (#[trigger] b.drop_last()[j]).uuid != u by { assert(b.drop_last()[j] == b[j]); }
        lemma_same(b.drop_last(), m, limit, u, ok);
    }
}
pub proof fn lemma_step(b: Seq<Line>, m: Map<uuid::Uuid, bool>, limit: u8, u: uuid::Uuid, ok: bool, cur: Seq<Line>, after: Seq<Line>)
    requires distinct(b), !m.dom().contains(u), cur == keep(b, m, limit), exists|k: int| settled(cur, after, u, ok, limit, k)
    ensures after == keep(b, m.insert(u, ok), limit)
    decreases b.len()
{
    let k = choose|k: int| settled(cur, after, u, ok, limit, k);
    let d = b.drop_last();
    let p = keep(d, m, limit);
    lemma_keep_distinct(b, m, limit);
    if b.last().uuid == u {
        assert(cur[p.len() as int].uuid == u);
        assert(k == p.len());
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).uuid != u by { assert(d[j] == b[j]); assert(b[j].uuid != b[b.len() - 1].uuid); }
        lemma_same(d, m, limit, u, ok);
        assert(cur.take(k) =~= p);
        assert(cur.skip(k + 1) =~= Seq::empty());
        assert(after =~= keep(b, m.insert(u, ok), limit));
    } else {
        assert(k < p.len());
        let s = stays(b.last(), m, limit);
        let r = p.take(k) + stays(p[k], Map::empty().insert(u, ok), limit) + p.skip(k + 1);
        assert(settled(p, r, u, ok, limit, k));
        lemma_step(d, m, limit, u, ok, p, r);
        assert(cur.take(k) =~= p.take(k));
        assert(cur.skip(k + 1) =~= p.skip(k + 1) + s);
        assert(after =~= r + s);
    }
}
pub fn check(b: bool) requires b {}
#[verifier::external_body]
pub struct Params { _p: () }
#[verifier::external_body]
pub fn params_for(proto: &str, host: &String, port: usize) -> Params { unimplemented!() }
#[verifier::external_body]
pub struct Client { _p: () }
#[verifier::external_body]
pub fn client_for(p: Params) -> Client { unimplemented!() }
/// u8::saturating_add(1)
#[verifier::external_body]
pub fn sat_inc(x: u8) -> (r: u8) ensures r == if x < 255 { x + 1 } else { 255 } { unimplemented!() }
/// what the server says became of a line
pub struct Ans { pub uuid: uuid::Uuid, pub ok: bool }
pub struct Bulk { pub body: Text, pub answers: Option<Seq<Ans>> }
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn bulks(&self) -> Seq<Bulk>; }
/// elasticsearch answers for the documents it was sent, once for each at most
pub open spec fn fair(a: Seq<Ans>, b: Seq<Line>) -> bool {
    (forall|i: int| 0 <= i < a.len() ==> exists|j: int| 0 <= j < b.len() && b[j].uuid == (#[trigger] a[i]).uuid)
    && forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).uuid != (#[trigger] a[j]).uuid
}
pub struct SendError {}
#[verifier::external_body]
pub struct Reply { _p: () }
impl Reply {
    pub uninterp spec fn said(&self) -> Option<Seq<Ans>>;
    #[verifier::external_body]
    pub fn into_response(self) -> (r: Result<BulkResponse, error::Error>)
        ensures match r { Ok(b) => self.said() == Some(b.said()), Err(_) => self.said() is None }
    { unimplemented!() }
}
impl Client {
    #[verifier::external_body]
    pub fn bulk(&self, body: String, Ghost(held): Ghost<Seq<Line>>, w: &mut World) -> (r: Result<Reply, SendError>)
        ensures ({
            let a = if r is Ok { r->Ok_0.said() } else { None };
            final(w).bulks() == old(w).bulks().push(Bulk { body: body@, answers: a }) && (a is Some ==> fair(a->0, held))
        })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct BulkResponse { _p: () }
#[verifier::external_body]
pub struct OkItem { _p: () }
#[verifier::external_body]
pub struct ErrItem { _p: () }
impl BulkResponse {
    pub uninterp spec fn said(&self) -> Seq<Ans>;
    #[verifier::external_body]
    pub fn items(&self) -> (r: Vec<Result<OkItem, ErrItem>>)
        ensures r@.len() == self.said().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] ans(r@[i]) == self.said()[i]
    { unimplemented!() }
}
pub open spec fn ans(i: Result<OkItem, ErrItem>) -> Ans {
    match i { Ok(x) => Ans { uuid: x.uuid(), ok: true }, Err(x) => Ans { uuid: x.uuid(), ok: false } }
}
impl OkItem {
    pub uninterp spec fn uuid(&self) -> uuid::Uuid;
    #[verifier::external_body]
    pub fn id(&self) -> (r: &String) ensures r@ == self.uuid().hyphens() { unimplemented!() }
}
impl ErrItem {
    pub uninterp spec fn uuid(&self) -> uuid::Uuid;
    #[verifier::external_body]
    pub fn id(&self) -> (r: &String) ensures r@ == self.uuid().hyphens() { unimplemented!() }
    #[verifier::external_body]
    pub fn source(&self) -> Option<()> { unimplemented!() }
    #[verifier::external_body]
    pub fn action(&self) -> bulk::Action { unimplemented!() }
}
pub mod bulk { pub enum Action { Index, Create, Update, Delete } }
pub mod error {
    pub enum ApiError {
        IndexNotFound { index: String }, Parsing { reason: String, line: u64 }, MapperParsing { reason: String },
        ActionRequestValidation { reason: String, line: u64 }, DocumentMissing { index: String, line: u64 },
        IndexAlreadyExists { index: String }, Other,
    }
    pub enum Error { Api(ApiError), Client(()) }
}
pub use error::ApiError;
pub open spec fn distinct(b: Seq<Line>) -> bool {
    forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).uuid != (#[trigger] b[j]).uuid
}
pub open spec fn amap(a: Seq<Ans>) -> Map<uuid::Uuid, bool>
    decreases a.len()
{ if a.len() == 0 { Map::empty() } else { amap(a.drop_last()).insert(a.last().uuid, a.last().ok) } }
/// what stays of one line: all of it while there is no answer, nothing once it was stored or has
/// failed more often than the limit
pub open spec fn stays(x: Line, m: Map<uuid::Uuid, bool>, limit: u8) -> Seq<Line> {
    if !m.dom().contains(x.uuid) { seq![x] } else if m[x.uuid] { Seq::empty() } else {
        let n = if x.attempts < 255 { (x.attempts + 1) as u8 } else { 255u8 };
        if n > limit { Seq::empty() } else { seq![Line { attempts: n, ..x }] }
    }
}
pub open spec fn keep(b: Seq<Line>, m: Map<uuid::Uuid, bool>, limit: u8) -> Seq<Line>
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { keep(b.drop_last(), m, limit) + stays(b.last(), m, limit) } }
}
fn main() {}
}
