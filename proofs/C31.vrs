// C31: a configuration file yields the topology it states.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/float.inc
//@include inc/tags.inc
pub mod metric { pub use super::TagMap; }
// ---- a parsed file, by what the toml crate documents of it
/// toml's tables: their entries in the order of their names
#[verifier::external_body]
pub struct Table { _p: () }
#[verifier::external_body]
pub struct Datetime { _p: () }
pub enum Value { String(String), Integer(i64), Float(f64), Boolean(bool), Datetime(Datetime), Array(Vec<Value>), Table(Table) }
pub type Entry = (Str, Value);
impl Table {
    pub uninterp spec fn entries(&self) -> Seq<Entry>;
}
/// what the entry of a name holds
pub open spec fn held(s: Seq<Entry>, k: Str) -> Option<Value> {
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k { Some(s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k].1) } else { None }
}
pub open spec fn distinct(s: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j }
/// the setting of a name in a section
pub open spec fn at(v: Value, k: Str) -> Option<Value> { match v { Value::Table(t) => held(t.entries(), k), _ => None } }
impl Table {
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a Value>)
        ensures match r { Some(v) => held(self.entries(), k@) == Some(*v), None => held(self.entries(), k@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn walk<'a>(&'a self) -> (r: Entries<'a>) ensures r.seq() == self.entries(), r.at() == 0, distinct(r.seq()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Entries<'a> { _p: &'a () }
impl<'a> Entries<'a> {
    pub uninterp spec fn seq(&self) -> Seq<Entry>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a String, &'a Value)>)
        requires 0 <= old(self).at() <= old(self).seq().len()
        ensures
            final(self).seq() == old(self).seq(),
            match r {
                Some((k, v)) => old(self).at() < old(self).seq().len() && (k@, *v) == old(self).seq()[old(self).at()] && final(self).at() == old(self).at() + 1,
                None => old(self).at() == old(self).seq().len() && final(self).at() == old(self).at(),
            }
    { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a Value>)
        ensures match r { Some(v) => at(*self, k@) == Some(*v), None => at(*self, k@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_integer(&self) -> (r: Option<i64>) ensures match *self { Value::Integer(i) => r == Some(i), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_float(&self) -> (r: Option<f64>) ensures match *self { Value::Float(i) => r == Some(i), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>) ensures match *self { Value::Boolean(i) => r == Some(i), _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match *self { Value::String(s) => r is Some && r->0@ == s@, _ => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_table<'a>(&'a self) -> (r: Option<&'a Table>) ensures match *self { Value::Table(t) => r == Some(&t), _ => r is None } { unimplemented!() }
}
pub mod toml {
    pub use super::Value;
    use super::*;
    pub struct Error { pub _p: () }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<Value, Error>) ensures r is Ok ==> r->Ok_0 == file(s@) { unimplemented!() }
}
/// what the text of a file states
pub uninterp spec fn file(text: Str) -> Value;
/// `expect` and `unwrap`: cernan refuses to start where nothing is there
pub trait Must: Sized {
    type Out;
    spec fn there(self) -> Option<Self::Out>;
    fn must(self) -> (r: Self::Out) ensures self.there() == Some(r);
}
impl<T> Must for Option<T> {
    type Out = T;
    open spec fn there(self) -> Option<T> { self }
    #[verifier::external_body]
    fn must(self) -> (r: T) { unimplemented!() }
}
impl<T, E> Must for Result<T, E> {
    type Out = T;
    open spec fn there(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
    #[verifier::external_body]
    fn must(self) -> (r: T) { unimplemented!() }
}
#[verifier::external_body]
pub fn refuse_unless(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn stop() -> (r: TagMap) ensures false { unimplemented!() }
/// integers as the settings hold them; what a setting cannot hold is nobody's statement
#[verifier::external_body]
pub fn low_u8(i: i64) -> (r: u8) ensures 0 <= i <= u8::MAX ==> r == i { unimplemented!() }
#[verifier::external_body]
pub fn low_u16(i: i64) -> (r: u16) ensures 0 <= i <= u16::MAX ==> r == i { unimplemented!() }
#[verifier::external_body]
pub fn low_u64(i: i64) -> (r: u64) ensures 0 <= i ==> r == i { unimplemented!() }
#[verifier::external_body]
pub fn low_usize(i: i64) -> (r: usize) ensures 0 <= i ==> r == i { unimplemented!() }
#[verifier::external_body]
pub fn low_i64(i: u64) -> i64 { unimplemented!() }
#[verifier::external_body]
pub fn times(a: u64, b: u64) -> (r: u64) ensures a * b <= u64::MAX ==> r == a * b { unimplemented!() }
/// `(f * n as f64) as u64`
pub uninterp spec fn ticks(f: f64, n: u64) -> u64;
#[verifier::external_body]
pub fn ticks_of(f: f64, n: u64) -> (r: u64) ensures r == ticks(f, n) { unimplemented!() }
pub trait Shown { spec fn text(&self) -> Str; fn shown(&self) -> (r: String) ensures r@ == self.text(); }
impl Shown for str {
    open spec fn text(&self) -> Str { self@ }
    #[verifier::external_body]
    fn shown(&self) -> (r: String) { unimplemented!() }
}
pub uninterp spec fn int_text(i: i64) -> Str;
pub uninterp spec fn float_text(f: f64) -> Str;
pub open spec fn bool_text(b: bool) -> Str { if b { "true"@ } else { "false"@ } }
#[verifier::external_body]
pub fn written_int(i: i64) -> (r: String) ensures r@ == int_text(i) { unimplemented!() }
#[verifier::external_body]
pub fn written_float(i: f64) -> (r: String) ensures r@ == float_text(i) { unimplemented!() }
#[verifier::external_body]
pub fn written_bool(i: bool) -> (r: String) ensures r@ == bool_text(i) { unimplemented!() }
#[verifier::external_body]
pub fn named(a: &str, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn some_text() -> String { unimplemented!() }
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl View for PathBuf { type V = Str; uninterp spec fn view(&self) -> Str; }
pub uninterp spec fn joined(a: Str, b: Str) -> Str;
impl PathBuf {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, p: PathBuf) -> (r: PathBuf) ensures r@ == joined(self@, p@) { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { _p: () }
impl Path {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body]
pub struct OsString { _p: () }
pub uninterp spec fn environment(name: Str) -> Str;
impl OsString {
    pub uninterp spec fn text(&self) -> Str;
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<String, OsString>) ensures r is Ok ==> r->Ok_0@ == self.text() { unimplemented!() }
}
pub mod env {
    use super::*;
    #[verifier::external_body]
    pub fn var_os(k: &str) -> (r: Option<OsString>) ensures r is Some ==> r->0.text() == environment(k@) { unimplemented!() }
}
/// `regex::Regex`
#[verifier::external_body]
pub struct Regex { _p: () }
impl Regex {
    pub uninterp spec fn text(&self) -> Str;
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<Regex, ()>) ensures r is Ok ==> r->Ok_0.text() == s@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
impl<V> HashMap<String, V> {
    pub uninterp spec fn m(&self) -> Map<Str, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<Str, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.m() == Map::<Str, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
}
// ---- settings
pub open spec fn texts(v: Seq<String>) -> Seq<Str> { Seq::new(v.len(), |i: int| v[i]@) }
/// an array of texts
pub open spec fn lists_texts(v: Value, r: Seq<String>) -> bool {
    match v { Value::Array(a) => a@.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> ((#[trigger] a@[i]) matches Value::String(s) && s@ == r[i]@), _ => false }
}
#[verifier::external_body]
pub fn texts_of(v: &Value) -> (r: Vec<String>) ensures lists_texts(*v, r@) { unimplemented!() }
#[verifier::external_body]
pub fn floats_of(v: &Value) -> (r: Vec<f64>) ensures lists_floats(*v, r@) { unimplemented!() }
pub open spec fn lists_floats(v: Value, r: Seq<f64>) -> bool {
    match v { Value::Array(a) => a@.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] a@[i] == Value::Float(r[i]), _ => false }
}
pub open spec fn num(v: Option<Value>, d: int, hi: int, r: int) -> bool { match v { Some(Value::Integer(i)) => 0 <= i <= hi ==> r == i, Some(_) => false, None => r == d } }
pub open spec fn int(v: Option<Value>, d: i64, r: i64) -> bool { match v { Some(Value::Integer(i)) => r == i, Some(_) => false, None => r == d } }
pub open spec fn yes(v: Option<Value>, d: bool, r: bool) -> bool { match v { Some(Value::Boolean(b)) => r == b, Some(_) => false, None => r == d } }
pub open spec fn txt(v: Option<Value>, d: Str, r: Str) -> bool { match v { Some(Value::String(s)) => r == s@, Some(_) => false, None => r == d } }
pub open spec fn age(v: Option<Value>, r: Option<u64>) -> bool { match v { Some(Value::Integer(i)) => r is Some && (0 <= i ==> r->0 == i), Some(_) => false, None => r is None } }
pub open spec fn forwards(v: Option<Value>, r: Seq<String>) -> bool { match v { Some(a) => lists_texts(a, r), None => r.len() == 0 } }
/// a flush interval in seconds, as ticks
pub open spec fn flush(v: Option<Value>, d: u64, r: u64) -> bool {
    match v { Some(Value::Integer(i)) => 0 <= i && i * 100 <= u64::MAX ==> r == i * 100, Some(Value::Float(f)) => r == ticks(f, 100), Some(_) => false, None => r == d }
}
pub open spec fn enabled(v: Value) -> bool { match at(v, "enabled"@) { Some(Value::Boolean(b)) => b, Some(_) => false, None => true } }
/// what every section is under
pub struct Ctx { pub tags: Map<Str, Str>, pub flush: u64, pub scripts: Str }
/// a kind of section: which of them count, and what one of them yields
pub trait Section: Sized {
    spec fn under() -> Str;
    spec fn counts(v: Value) -> bool;
    spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool;
}
pub open spec fn sections<C: Section>(s: Seq<Entry>, c: Ctx, r: Map<Str, C>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && C::counts((#[trigger] s[i]).1) ==> r.contains_key(C::under() + s[i].0) && C::conf(s[i].1, s[i].0, c, r[C::under() + s[i].0])
    &&& forall|p: Str| #[trigger] r.contains_key(p) ==> exists|i: int| 0 <= i < s.len() && C::counts((#[trigger] s[i]).1) && p == C::under() + s[i].0
}
pub proof fn one_more<C: Section>(s: Seq<Entry>, i: int, c: Ctx, r: Map<Str, C>)
    requires 0 <= i < s.len(), distinct(s), sections(s.take(i), c, r)
    ensures
        !C::counts(s[i].1) ==> sections(s.take(i + 1), c, r),
        C::counts(s[i].1) ==> forall|x: C| C::conf(s[i].1, s[i].0, c, x) ==> sections(s.take(i + 1), c, #[trigger] r.insert(C::under() + s[i].0, x)),
{
    let a = s.take(i); let b = s.take(i + 1);
    assert(forall|j: int| 0 <= j < i ==> a[j] == b[j]);
    assert(b[i] == s[i]);
    if !C::counts(s[i].1) {
        assert forall|p: Str| #[trigger] r.contains_key(p) implies exists|k: int| 0 <= k < b.len() && C::counts((#[trigger] b[k]).1) && p == C::under() + b[k].0 by {
            let k = choose|k: int| 0 <= k < a.len() && C::counts((#[trigger] a[k]).1) && p == C::under() + a[k].0;
            assert(b[k] == a[k]);
        }
        assert forall|j: int| 0 <= j < b.len() && C::counts((#[trigger] b[j]).1) implies r.contains_key(C::under() + b[j].0) && C::conf(b[j].1, b[j].0, c, r[C::under() + b[j].0]) by { assert(j < i); assert(a[j] == b[j]); }
    } else {
        assert forall|x: C| C::conf(s[i].1, s[i].0, c, x) implies sections(b, c, #[trigger] r.insert(C::under() + s[i].0, x)) by {
            let q = r.insert(C::under() + s[i].0, x);
            assert forall|j: int| 0 <= j < b.len() && C::counts((#[trigger] b[j]).1) implies q.contains_key(C::under() + b[j].0) && C::conf(b[j].1, b[j].0, c, q[C::under() + b[j].0]) by {
                if j < i {
                    assert(a[j] == b[j]);
                    if C::under() + b[j].0 == C::under() + s[i].0 {
                        let u = C::under();
                        assert((u + b[j].0).skip(u.len() as int) =~= b[j].0);
                        assert((u + s[i].0).skip(u.len() as int) =~= s[i].0);
                        assert(s[j].0 == s[i].0);
                    }
                }
            }
            assert forall|p: Str| #[trigger] q.contains_key(p) implies exists|k: int| 0 <= k < b.len() && C::counts((#[trigger] b[k]).1) && p == C::under() + b[k].0 by {
                if p == C::under() + s[i].0 { assert(C::counts(b[i].1)); } else {
                    assert(r.contains_key(p));
                    let k = choose|k: int| 0 <= k < a.len() && C::counts((#[trigger] a[k]).1) && p == C::under() + a[k].0;
                    assert(b[k] == a[k]);
                }
            }
        }
    }
}
/// the sections that count, in order
pub open spec fn counting<C: Section>(s: Seq<Entry>) -> Seq<Entry>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if C::counts(s.last().1) { counting::<C>(s.drop_last()).push(s.last()) } else { counting::<C>(s.drop_last()) } }
pub open spec fn listed<C: Section>(s: Seq<Entry>, c: Ctx, r: Seq<C>) -> bool {
    let k = counting::<C>(s);
    r.len() == k.len() && forall|j: int| 0 <= j < k.len() ==> C::conf((#[trigger] k[j]).1, k[j].0, c, r[j])
}
pub proof fn one_listed<C: Section>(s: Seq<Entry>, i: int, c: Ctx, r: Seq<C>)
    requires 0 <= i < s.len(), listed(s.take(i), c, r)
    ensures
        !C::counts(s[i].1) ==> listed(s.take(i + 1), c, r),
        C::counts(s[i].1) ==> forall|x: C| C::conf(s[i].1, s[i].0, c, x) ==> listed(s.take(i + 1), c, #[trigger] r.push(x)),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
pub proof fn none_listed<C: Section>(c: Ctx)
    ensures listed::<C>(Seq::empty(), c, Seq::empty())
{ assert(counting::<C>(Seq::empty()).len() == 0); }
pub open spec fn ctx(a: Args, g: TagMap) -> Ctx { Ctx { tags: g@, flush: a.flush_interval, scripts: a.scripts_directory@ } }

// ---- the configurations
/*@ rewrites
rw `if let Some(filters) = value.get("filters") { $*b }` => `if let Some(filters) = value.get("filters") { args = filters_into(filters, args, &global_tags); }`
rw `if let Some(sinks) = value.get("sinks") { $*b }` => `if let Some(sinks) = value.get("sinks") { args = sinks_into(sinks, args, &global_tags); }`
rw `if let Some(sources) = value.get("sources") { $*b }` => `if let Some(sources) = value.get("sources") { args = sources_into(sources, args, &global_tags); }`
rw `filters.get("delay").map(|$p| $*b)` => `(match filters.get("delay") { Some(p) => Some(delay_of(p, &args, &global_tags)), None => None })`
rw `filters.get("json_encode").map(|$p| $*b)` => `(match filters.get("json_encode") { Some(p) => Some(json_encode_of(p, &args, &global_tags)), None => None })`
rw `filters.get("flush_boundary").map(|$p| $*b)` => `(match filters.get("flush_boundary") { Some(p) => Some(flush_boundary_of(p, &args, &global_tags)), None => None })`
rw `filters.get("programmable").map(|$p| $*b)` => `(match filters.get("programmable") { Some(p) => Some(programmable_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("null").map(|$p| $*b)` => `(match sinks.get("null") { Some(p) => Some(null_of(p)), None => None })`
rw `sinks.get("console").map(|$p| $*b)` => `(match sinks.get("console") { Some(p) => Some(console_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("wavefront").map(|$p| $*b)` => `(match sinks.get("wavefront") { Some(p) => Some(wavefront_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("influxdb").map(|$p| $*b)` => `(match sinks.get("influxdb") { Some(p) => Some(influxdb_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("prometheus").map(|$p| $*b)` => `(match sinks.get("prometheus") { Some(p) => Some(prometheus_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("elasticsearch").map(|$p| $*b)` => `(match sinks.get("elasticsearch") { Some(p) => Some(elasticsearch_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("native").map(|$p| $*b)` => `(match sinks.get("native") { Some(p) => Some(native_sink_of(p, &args, &global_tags)), None => None })`
rw `sinks.get("kafka").map(|$p| $*b)` => `(match sinks.get("kafka") { Some(p) => Some(kafkas_of(p, &args, &global_tags)), None => None })`
rw `sources.get("files").map(|$p| $*b)` => `(match sources.get("files") { Some(p) => Some(files_of(p, &args, &global_tags)), None => None })`
rw `sources.get("statsd").map(|$p| $*b)` => `(match sources.get("statsd") { Some(p) => Some(statsds_of(p, &args, &global_tags)), None => None })`
rw `sources.get("graphite").map(|$p| $*b)` => `(match sources.get("graphite") { Some(p) => Some(graphites_of(p, &args, &global_tags)), None => None })`
rw `sources.get("avro").map(|$p| $*b)` => `(match sources.get("avro") { Some(p) => Some(avros_of(p, &args, &global_tags)), None => None })`
rw `sources.get("native").map(|$p| $*b)` => `(match sources.get("native") { Some(p) => Some(native_servers_of(p, &args, &global_tags)), None => None })`
rw `sources.get("internal").map(|$p| $*b).unwrap_or($*d)` => `(match sources.get("internal") { Some(p) => internal_of(p, &args, &global_tags), None => $*d })`
rw `let global_tags: TagMap = $*b;` => `let global_tags: TagMap = tags_of(&value);`
rw `snk.get("percentiles").and_then(|$t| $*e).map(|$p| $*b).unwrap_or($*d)` => `(match snk.get("percentiles") { Some(t) => match t.as_table() { Some(p) => percentiles_of(p), None => $*d }, None => $*d })`
rw `tbl.get("librdkafka").map(|$p| $*b)` => `(match tbl.get("librdkafka") { Some(p) => Some(rdkafka_of(p)), None => None })`
rw `tbl.get("mapping").map(|$p| $*b).unwrap_or($*d)` => `(match tbl.get("mapping") { Some(p) => masks_of(p), None => $*d })`
rw `$x.as_array().expect($*m).to_vec().iter().map(|$s| $s.as_str().unwrap().to_string()).collect()` => `texts_of($x)`
rw `$x.as_array().expect($*m).to_vec().iter().map(|$s| $s.as_float().unwrap()).collect()` => `floats_of($x)`
rw `println!($*a); exit($*b);` => `return stop();`
rw `use std::process::exit;` => ``
rw `warn!($*a)` => ``
rw `$x.as_integer().expect($*m) as usize` => `low_usize($x.as_integer().must())`
rw `$x.as_integer().expect($*m) as u16` => `low_u16($x.as_integer().must())`
rw `$x.as_integer().expect($*m) as u64` => `low_u64($x.as_integer().must())`
rw `$x.as_integer().expect($*m) as u8` => `low_u8($x.as_integer().must())`
rw `($*x as i64)` => `low_i64($*x)`
rw `.expect($*m)` => `.must()`
rw `.unwrap()` => `.must()`
rw `.to_string()` => `.shown()`
rw `assert!($*a);` => `refuse_unless($*a);`
rw `::regex::Regex` => `Regex`
rw `$x.get($k).map_or($*d, |$p| $*b)` => `(match $x.get($k) { Some($p) => $*b, None => $*d })`
rw `$x.get($k).and_then(|$t| $*e).map(|$p| $*b).unwrap_or($*d)` => `(match (match $x.get($k) { Some($t) => $*e, None => None }) { Some($p) => $*b, None => $*d })`
rw `$x.get($k).map(|$p| $*b).unwrap_or($*d)` => `(match $x.get($k) { Some($p) => $*b, None => $*d })`
rw `$x.get($k).map(|$p| $*b);` => `(match $x.get($k) { Some($p) => Some($*b), None => None });`
rw `$x.get($k).map_or($*d, |$p| $*b)` => `(match $x.get($k) { Some($p) => $*b, None => $*d })`
rw `for ($k, $v) in $x.as_table().must().iter() { $*b }` => `{ let mut it = $x.as_table().must().walk(); while let Some(($k, $v)) = it.next() { $*b } }`
rw `for ($k, $v) in $x.iter() { $*b }` => `{ let mut it = $x.walk(); while let Some(($k, $v)) = it.next() { $*b } }`
rw `for $v in $x.as_table().must().values() { $*b }` => `{ let mut it = $x.as_table().must().walk(); while let Some((_, $v)) = it.next() { $*b } }`
rw `format!("filters.delay.{}", $n)` => `named("filters.delay.", $n)`
rw `format!("filters.json_encode.{}", $n)` => `named("filters.json_encode.", $n)`
rw `format!("filters.flush_boundary.{}", $n)` => `named("filters.flush_boundary.", $n)`
rw `format!("filters.programmable.{}", $n)` => `named("filters.programmable.", $n)`
rw `format!("sources.statsd.{}", $n)` => `named("sources.statsd.", $n)`
rw `format!("sources.graphite.{}", $n)` => `named("sources.graphite.", $n)`
rw `format!("sources.avro.{}", $n)` => `named("sources.avro.", $n)`
rw `format!("sources.native.{}", $n)` => `named("sources.native.", $n)`
rw `let config_path = &format!("sinks.kafka.{}", $n)[..];` => `let config_name = named("sinks.kafka.", $n); let config_path = config_name.as_str();`
rw `format!("sources.files.{}", $n)` => `named("sources.files.", $n)`
@*/
pub type Mask = Regex;
pub type Bounds = Vec<f64>;
/*@ fn src/source/flush.rs flushes_per_second
attr: pub
ret: r
spec:
    ensures r == 100
@*/
/*@ item src/filter/delay_filter.rs struct DelayFilterConfig
@*/
/*@ item src/filter/flush_boundary_filter.rs struct FlushBoundaryFilterConfig
@*/
/*@ item src/filter/json_encode_filter.rs struct JSONEncodeFilterConfig
@*/
/*@ item src/filter/programmable_filter.rs struct ProgrammableFilterConfig
@*/
/*@ item src/sink/console.rs struct ConsoleConfig
@*/
/*@ item src/sink/elasticsearch.rs struct ElasticsearchConfig
@*/
/*@ item src/sink/influxdb.rs struct InfluxDBConfig
@*/
/*@ item src/sink/kafka.rs struct KafkaConfig
@*/
/*@ item src/sink/native.rs struct NativeConfig
@*/
/*@ item src/sink/null.rs struct NullConfig
@*/
/*@ item src/sink/prometheus.rs struct PrometheusConfig
@*/
/*@ item src/sink/wavefront.rs struct PadControl
@*/
/*@ item src/sink/wavefront.rs struct WavefrontConfig
@*/
/*@ item src/source/graphite.rs struct GraphiteConfig
@*/
/*@ item src/source/internal.rs struct InternalConfig
@*/
/*@ item src/source/native.rs struct NativeServerConfig
@*/
/*@ item src/source/statsd.rs struct StatsdParseConfig
@*/
/*@ item src/source/statsd.rs struct StatsdConfig
@*/
/*@ item src/source/tcp.rs struct TCPConfig
@*/
/*@ item src/source/file/file_server.rs struct FileServerConfig
@*/
/*@ item src/config.rs struct Args
@*/
impl PadControl {
    #[verifier::external_body]
    pub fn default() -> (r: PadControl) ensures !r.set, !r.sum, !r.summarize, !r.histogram { unimplemented!() }
}
impl ConsoleConfig {
/*@ fn src/sink/console.rs Default@ConsoleConfig.default
attr: pub
ret: r
spec:
    ensures r.bin_width == 1, r.flush_interval == 6000
@*/
}
impl WavefrontConfig {
/*@ fn src/sink/wavefront.rs Default@WavefrontConfig.default
attr: pub
ret: r
spec:
    ensures
        r.bin_width == 1, r.host@ == "localhost"@, r.port == 2878, r.age_threshold is None,
        !r.pad_control.set, !r.pad_control.sum, !r.pad_control.summarize, !r.pad_control.histogram,
        default_percentiles(r.percentiles@),
at fn-start:
    broadcast use floats;
@*/
}
/// the minimum, the maximum and eleven percentiles
pub open spec fn default_percentiles(p: Seq<(String, f64)>) -> bool {
    &&& p.len() == 13
    &&& p[0].0@ == "min"@ && p[1].0@ == "max"@ && p[2].0@ == "2"@ && p[3].0@ == "9"@ && p[4].0@ == "25"@ && p[5].0@ == "50"@ && p[6].0@ == "75"@ && p[7].0@ == "90"@ && p[8].0@ == "91"@ && p[9].0@ == "95"@ && p[10].0@ == "98"@ && p[11].0@ == "99"@ && p[12].0@ == "999"@
    &&& p[0].1 == 0.0f64 && p[1].1 == 1.0f64 && p[2].1 == 0.02f64 && p[3].1 == 0.09f64 && p[4].1 == 0.25f64 && p[5].1 == 0.5f64 && p[6].1 == 0.75f64 && p[7].1 == 0.90f64 && p[8].1 == 0.91f64 && p[9].1 == 0.95f64 && p[10].1 == 0.98f64 && p[11].1 == 0.99f64 && p[12].1 == 0.999f64
}
impl InfluxDBConfig {
/*@ fn src/sink/influxdb.rs Default@InfluxDBConfig.default
attr: pub
ret: r
rw `Default::default()` => `TagMap::default()`
spec:
    ensures r.port == 8086, r.secure, r.host@ == "localhost"@, r.db@ == "cernan"@
@*/
}
impl PrometheusConfig {
/*@ fn src/sink/prometheus.rs Default@PrometheusConfig.default
attr: pub
ret: r
spec:
    ensures r.host@ == "localhost"@, r.port == 8086, r.capacity_in_seconds == 600, r.age_threshold is None, !r.gzip
@*/
}
impl ElasticsearchConfig {
/*@ fn src/sink/elasticsearch.rs Default@ElasticsearchConfig.default
attr: pub
ret: r
spec:
    ensures !r.secure, r.host@ == "127.0.0.1"@, r.index_prefix is None, r.index_type@ == "payload"@, r.delivery_attempt_limit == 10, r.port == 9200
@*/
}
impl NativeConfig {
/*@ fn src/sink/native.rs Default@NativeConfig.default
attr: pub
ret: r
spec:
    ensures r.port == 1972, r.host@ == "localhost"@
@*/
}
impl KafkaConfig {
/*@ fn src/sink/kafka.rs Default@KafkaConfig.default
attr: pub
ret: r
spec:
    ensures r.topic_name is None, r.brokers is None, r.rdkafka_config is None, r.max_message_bytes == 10485760
at fn-start:
    assert(1usize << 20 == 1048576) by (bit_vector);
@*/
}
impl FileServerConfig {
/*@ fn src/source/file/file_server.rs Default@FileServerConfig.default
attr: pub
ret: r
rw `Vec::default()` => `Vec::new()`
spec:
    ensures r.path is None, r.max_read_bytes == 2048, r.forwards@.len() == 0
@*/
}
impl StatsdParseConfig {
/*@ fn src/source/statsd.rs Default@StatsdParseConfig.default
attr: pub
ret: r
spec:
    ensures r.histogram_masks@.len() == 0, r.summarize_error_bound == 0.01f64
@*/
}
impl StatsdConfig {
/*@ fn src/source/statsd.rs Default@StatsdConfig.default
attr: pub
ret: r
spec:
    ensures r.host@ == "localhost"@, r.port == 8125, r.forwards@.len() == 0, r.parse_config.histogram_masks@.len() == 0
@*/
}
impl GraphiteConfig {
/*@ fn src/source/graphite.rs Default@GraphiteConfig.default
attr: pub
ret: r
spec:
    ensures r.host@ == "localhost"@, r.port == 2003, r.forwards@.len() == 0
@*/
}
impl TCPConfig {
/*@ fn src/source/tcp.rs Default@TCPConfig.default
attr: pub
ret: r
spec:
    ensures r.host@ == "localhost"@, r.forwards@.len() == 0
@*/
}
impl NativeServerConfig {
/*@ fn src/source/native.rs Default@NativeServerConfig.default
attr: pub
ret: r
rw `Vec::default()` => `Vec::new()`
spec:
    ensures r.ip@ == "0.0.0.0"@, r.port == 1972, r.forwards@.len() == 0
@*/
}
impl InternalConfig {
/*@ fn src/source/internal.rs Default@InternalConfig.default
attr: pub
ret: r
spec:
    ensures r.forwards@.len() == 0, r.config_path is Some, r.config_path->0@ == "sources.internal"@
@*/
}
#[verifier::external_body]
pub fn default_version() -> String { unimplemented!() }
/*@ fn src/config.rs default_data_directory
ret: r
spec:
    ensures r@ == "/tmp/cernan-data"@
@*/
/*@ fn src/config.rs default_scripts_directory
ret: r
spec:
    ensures r@ == "/tmp/cernan-scripts"@
@*/
/// a configuration that states nothing
pub open spec fn bare(r: Args) -> bool {
    &&& r.max_hopper_in_memory_bytes == 1048576 && r.max_hopper_queue_bytes == 104857600 && r.max_hopper_queue_files == 100
    &&& r.data_directory@ == "/tmp/cernan-data"@ && r.scripts_directory@ == "/tmp/cernan-scripts"@ && r.flush_interval == 6000
    &&& r.programmable_filters is None && r.delay_filters is None && r.json_encode_filters is None && r.flush_boundary_filters is None
    &&& r.console is None && r.null is None && r.wavefront is None && r.influxdb is None && r.prometheus is None && r.native_sink_config is None && r.elasticsearch is None && r.kafkas is None
    &&& r.statsds is None && r.graphites is None && r.avros is None && r.native_server_config is None && r.files is None && r.internal.forwards@.len() == 0
}
impl Args {
/*@ fn src/config.rs Default@Args.default
attr: pub
ret: r
spec:
    ensures bare(r)
@*/
}
/*@ fn src/config.rs parse_flush_interval
ret: r
rw `($f * $g() as f64) as u64` => `ticks_of(*$f, $g())`
rw `*$i as u64 * $g()` => `times(low_u64(*$i), $g())`
rw `panic!($*a)` => `return refused()`
spec:
    ensures match at(*table, key@) { None => r is None, Some(_) => r is Some && forall|d: u64| flush(at(*table, key@), d, r->0) }
@*/
#[verifier::external_body]
pub fn refused() -> (r: Option<u64>) ensures false { unimplemented!() }

// ---- filters
impl Section for DelayFilterConfig {
    open spec fn under() -> Str { "filters.delay."@ }
    open spec fn counts(v: Value) -> bool { at(v, "tolerance"@) is Some }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        int(at(v, "tolerance"@), 0, r.tolerance)
        && forwards(at(v, "forwards"@), r.forwards@)
    }
}
/*@ part src/config.rs parse_config_file `filters.get("delay").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn delay_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, DelayFilterConfig>)
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), filters.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), filters.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<DelayFilterConfig>(it.seq().take(0), ctx(*args, *global_tags), filters.m())); }
at loop 1 start:
    proof { one_more::<DelayFilterConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), filters.m()); }
@*/
impl Section for JSONEncodeFilterConfig {
    open spec fn under() -> Str { "filters.json_encode."@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        yes(at(v, "parse_line"@), false, r.parse_line)
        && forwards(at(v, "forwards"@), r.forwards@)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `filters.get("json_encode").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn json_encode_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, JSONEncodeFilterConfig>)
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), filters.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), filters.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<JSONEncodeFilterConfig>(it.seq().take(0), ctx(*args, *global_tags), filters.m())); }
at loop 1 start:
    proof { one_more::<JSONEncodeFilterConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), filters.m()); }
@*/
impl Section for FlushBoundaryFilterConfig {
    open spec fn under() -> Str { "filters.flush_boundary."@ }
    open spec fn counts(v: Value) -> bool { at(v, "tolerance"@) is Some }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        num(at(v, "tolerance"@), 0, i64::MAX as int, r.tolerance as int)
        && forwards(at(v, "forwards"@), r.forwards@)
    }
}
/*@ part src/config.rs parse_config_file `filters.get("flush_boundary").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn flush_boundary_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, FlushBoundaryFilterConfig>)
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), filters.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), filters.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<FlushBoundaryFilterConfig>(it.seq().take(0), ctx(*args, *global_tags), filters.m())); }
at loop 1 start:
    proof { one_more::<FlushBoundaryFilterConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), filters.m()); }
@*/
impl Section for ProgrammableFilterConfig {
    open spec fn under() -> Str { "filters.programmable."@ }
    open spec fn counts(v: Value) -> bool { at(v, "script"@) is Some }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        at(v, "script"@) matches Some(Value::String(s)) && r.script is Some && r.script->0@ == joined(c.scripts, s@)
        && r.scripts_directory is Some && r.scripts_directory->0@ == c.scripts
        && r.config_path is Some && r.config_path->0@ == "filters.programmable."@ + n
        && forwards(at(v, "forwards"@), r.forwards@)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `filters.get("programmable").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn programmable_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, ProgrammableFilterConfig>)
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), filters.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), filters.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<ProgrammableFilterConfig>(it.seq().take(0), ctx(*args, *global_tags), filters.m())); }
at loop 1 start:
    proof { one_more::<ProgrammableFilterConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), filters.m()); }
@*/
// ---- sinks
/*@ part src/config.rs parse_config_file `sinks.get("null").map(|$p| $*b)`
sig:
    pub fn null_of(what: &Value) -> (res: NullConfig)
spec:
    ensures res.config_path@ == "sinks.null"@
@*/
impl Section for ConsoleConfig {
    open spec fn under() -> Str { "sinks.console"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.console"@
        && int(at(v, "bin_width"@), 1, r.bin_width)
        && flush(at(v, "flush_interval"@), c.flush, r.flush_interval)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("console").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn console_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: ConsoleConfig)
spec:
    ensures ConsoleConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
/// one side of the padding: only a table of it counts
pub open spec fn padded(v: Value, k: Str, r: bool) -> bool { match at(v, "padding"@) { Some(Value::Table(t)) => yes(held(t.entries(), k), false, r), _ => !r } }
pub open spec fn percentiles(v: Value, r: Seq<(String, f64)>) -> bool {
    match at(v, "percentiles"@) {
        Some(Value::Table(t)) => r.len() == t.entries().len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == t.entries()[i].0 && t.entries()[i].1 == Value::Float(r[i].1),
        _ => default_percentiles(r),
    }
}
/*@ part src/config.rs parse_config_file `snk.get("percentiles").and_then(|$t| $*e).map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn percentiles_of($p: &Table) -> (res: Vec<(String, f64)>)
rw `let mut prcnt = Vec::default();` => `let mut prcnt: Vec<(String, f64)> = Vec::new();`
spec:
    ensures res@.len() == $p.entries().len() && forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).0@ == $p.entries()[i].0 && $p.entries()[i].1 == Value::Float(res@[i].1)
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), it.seq() == $p.entries(), prcnt@.len() == it.at(),
        forall|i: int| 0 <= i < prcnt@.len() ==> (#[trigger] prcnt@[i]).0@ == $p.entries()[i].0 && $p.entries()[i].1 == Value::Float(prcnt@[i].1),
    ensures prcnt@.len() == $p.entries().len(),
@*/
impl Section for WavefrontConfig {
    open spec fn under() -> Str { "sinks.wavefront"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.wavefront"@
        && int(at(v, "bin_width"@), 1, r.bin_width)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && num(at(v, "port"@), 2878, u16::MAX as int, r.port as int)
        && age(at(v, "age_threshold"@), r.age_threshold)
        && padded(v, "set"@, r.pad_control.set) && padded(v, "sum"@, r.pad_control.sum) && padded(v, "summarize"@, r.pad_control.summarize) && padded(v, "histogram"@, r.pad_control.histogram)
        && percentiles(v, r.percentiles@)
        && flush(at(v, "flush_interval"@), c.flush, r.flush_interval)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("wavefront").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn wavefront_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: WavefrontConfig)
spec:
    ensures WavefrontConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
impl Section for InfluxDBConfig {
    open spec fn under() -> Str { "sinks.influxdb"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.influxdb"@
        && num(at(v, "port"@), 8086, u16::MAX as int, r.port as int)
        && yes(at(v, "secure"@), true, r.secure)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && txt(at(v, "db"@), "cernan"@, r.db@)
        && flush(at(v, "flush_interval"@), c.flush, r.flush_interval)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("influxdb").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn influxdb_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: InfluxDBConfig)
spec:
    ensures InfluxDBConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
impl Section for PrometheusConfig {
    open spec fn under() -> Str { "sinks.prometheus"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.prometheus"@
        && age(at(v, "age_threshold"@), r.age_threshold)
        && num(at(v, "port"@), 8086, u16::MAX as int, r.port as int)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && num(at(v, "capacity_in_seconds"@), 600, i64::MAX as int, r.capacity_in_seconds as int)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("prometheus").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn prometheus_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: PrometheusConfig)
spec:
    ensures PrometheusConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
impl Section for ElasticsearchConfig {
    open spec fn under() -> Str { "sinks.elasticsearch"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.elasticsearch"@
        && num(at(v, "delivery_attempt_limit"@), 10, u8::MAX as int, r.delivery_attempt_limit as int)
        && num(at(v, "port"@), 9200, i64::MAX as int, r.port as int)
        && txt(at(v, "host"@), "127.0.0.1"@, r.host@)
        && (match at(v, "index-prefix"@) { Some(Value::String(s)) => r.index_prefix is Some && r.index_prefix->0@ == s@, Some(_) => false, None => r.index_prefix is None })
        && yes(at(v, "secure"@), false, r.secure)
        && txt(at(v, "index_type"@), "payload"@, r.index_type@)
        && flush(at(v, "flush_interval"@), c.flush, r.flush_interval)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("elasticsearch").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn elasticsearch_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: ElasticsearchConfig)
spec:
    ensures ElasticsearchConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
impl Section for NativeConfig {
    open spec fn under() -> Str { "sinks.native"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.native"@
        && num(at(v, "port"@), 1972, u16::MAX as int, r.port as int)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && flush(at(v, "flush_interval"@), c.flush, r.flush_interval)
        && r.tags@ == c.tags
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("native").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn native_sink_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: NativeConfig)
spec:
    ensures NativeConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
/// an option of librdkafka: numbers, texts and booleans count
pub open spec fn option_text(v: Value) -> Option<Str> { match v { Value::Integer(i) => Some(int_text(i)), Value::String(s) => Some(s@), Value::Float(f) => Some(float_text(f)), Value::Boolean(b) => Some(bool_text(b)), _ => None } }
pub open spec fn options(s: Seq<Entry>) -> Map<Str, Str>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { match option_text(s.last().1) { Some(t) => options(s.drop_last()).insert(s.last().0, t), None => options(s.drop_last()) } } }
pub open spec fn kafka_options(v: Option<Value>, r: Option<HashMap<String, String>>) -> bool { match v { Some(Value::Table(t)) => r is Some && holds(r->0.m(), options(t.entries())), Some(_) => false, None => r is None } }
pub open spec fn holds(m: Map<Str, String>, w: Map<Str, Str>) -> bool { forall|k: Str| #[trigger] m.contains_key(k) == w.contains_key(k) && (m.contains_key(k) ==> m[k]@ == w[k]) }
/*@ part src/config.rs parse_config_file `tbl.get("librdkafka").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn rdkafka_of($p: &Value) -> (res: HashMap<String, String>)
rw `format!("{}", i)` => `written_int(i)`
rw `format!("{}", f)` => `written_float(f)`
rw `format!("{}", b)` => `written_bool(b)`
rw `let mut map = HashMap::new();` => `let mut map: HashMap<String, String> = HashMap::new();`
spec:
    ensures $p matches Value::Table(t) && holds(res.m(), options(t.entries()))
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), holds(map.m(), options(it.seq().take(it.at()))),
    ensures $p matches Value::Table(t) && holds(map.m(), options(t.entries())),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); }
at loop 1 start:
    proof { assert(it.seq().take(it.at()).drop_last() =~= it.seq().take(it.at() - 1)); assert(it.seq().take(it.at()).last() == it.seq()[it.at() - 1]); }
@*/
impl Section for KafkaConfig {
    open spec fn under() -> Str { "sinks.kafka."@ }
    open spec fn counts(v: Value) -> bool { enabled(v) && at(v, "topic"@) is Some && at(v, "brokers"@) is Some }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sinks.kafka."@ + n
        && r.topic_name is Some && txt(at(v, "topic"@), Seq::empty(), r.topic_name->0@)
        && r.brokers is Some && txt(at(v, "brokers"@), Seq::empty(), r.brokers->0@)
        && kafka_options(at(v, "librdkafka"@), r.rdkafka_config)
        && num(at(v, "max_message_bytes"@), 10485760, i64::MAX as int, r.max_message_bytes as int)
        && flush(at(v, "flush_interval"@), c.flush, r.flush_interval)
    }
}
/*@ part src/config.rs parse_config_file `sinks.get("kafka").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn kafkas_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: Vec<KafkaConfig>)
rw `let mut kafkas = Vec::new();` => `let mut kafkas: Vec<KafkaConfig> = Vec::new();`
spec:
    ensures $p matches Value::Table(t) && listed(t.entries(), ctx(*args, *global_tags), res@)
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), listed(it.seq().take(it.at()), ctx(*args, *global_tags), kafkas@),
    ensures $p matches Value::Table(t) && listed(t.entries(), ctx(*args, *global_tags), kafkas@),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(it.seq().take(0) =~= Seq::<Entry>::empty()); none_listed::<KafkaConfig>(ctx(*args, *global_tags)); assert(kafkas@ =~= Seq::<KafkaConfig>::empty()); }
at loop 1 start:
    proof { one_listed::<KafkaConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), kafkas@); }
@*/
// ---- sources
impl Section for FileServerConfig {
    open spec fn under() -> Str { "sources.files."@ }
    open spec fn counts(v: Value) -> bool { at(v, "path"@) is Some }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.path is Some && txt(at(v, "path"@), Seq::empty(), r.path->0@)
        && r.config_path is Some && r.config_path->0@ == Self::under() + n
        && num(at(v, "max_read_bytes"@), 2048, i64::MAX as int, r.max_read_bytes as int)
        && forwards(at(v, "forwards"@), r.forwards@)
    }
}
/*@ part src/config.rs parse_config_file `sources.get("files").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn files_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: Vec<FileServerConfig>)
rw `let mut files = Vec::new();` => `let mut files: Vec<FileServerConfig> = Vec::new();`
spec:
    ensures $p matches Value::Table(t) && listed(t.entries(), ctx(*args, *global_tags), res@)
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), listed(it.seq().take(it.at()), ctx(*args, *global_tags), files@),
    ensures $p matches Value::Table(t) && listed(t.entries(), ctx(*args, *global_tags), files@),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(it.seq().take(0) =~= Seq::<Entry>::empty()); none_listed::<FileServerConfig>(ctx(*args, *global_tags)); assert(files@ =~= Seq::<FileServerConfig>::empty()); }
at loop 1 start:
    proof { one_listed::<FileServerConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), files@); }
@*/
/// the masks of a mapping with their bounds, the last one first
pub open spec fn mapping(v: Option<Value>, r: Seq<(Regex, Vec<f64>)>) -> bool {
    match v {
        Some(Value::Table(t)) => the_masks(t.entries(), r),
        Some(_) => false,
        None => r.len() == 0,
    }
}
pub open spec fn the_masks(s: Seq<Entry>, r: Seq<(Regex, Vec<f64>)>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> a_mask(s[r.len() - 1 - i].1, #[trigger] r[i])
}
pub open spec fn a_mask(v: Value, r: (Regex, Vec<f64>)) -> bool {
    at(v, "mask"@) is Some && txt(at(v, "mask"@), Seq::empty(), r.0.text()) && (at(v, "bounds"@) matches Some(b) && lists_floats(b, r.1@))
}
/*@ part src/config.rs parse_config_file `tbl.get("mapping").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn masks_of($p: &Value) -> (res: StatsdParseConfig)
rw `panic!($*a)` => `return no_masks()`
rw `let mut masks = Vec::new();` => `let mut masks: Vec<(Regex, Vec<f64>)> = Vec::new();`
spec:
    ensures $p matches Value::Table(t) && the_masks(t.entries(), res.histogram_masks@)
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), the_masks(it.seq().take(it.at()), masks@),
    ensures $p matches Value::Table(t) && the_masks(t.entries(), masks@),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); }
@*/
#[verifier::external_body]
pub fn no_masks() -> (r: StatsdParseConfig) ensures false { unimplemented!() }
impl Section for StatsdConfig {
    open spec fn under() -> Str { "sources.statsd."@ }
    open spec fn counts(v: Value) -> bool { enabled(v) }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        num(at(v, "port"@), 8125, u16::MAX as int, r.port as int)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && forwards(at(v, "forwards"@), r.forwards@)
        && r.forwards@.len() > 0
        && mapping(at(v, "mapping"@), r.parse_config.histogram_masks@)
        && (match at(v, "summarize_error_bound"@) { Some(Value::Float(f)) => r.parse_config.summarize_error_bound == f, Some(_) => false, None => r.parse_config.summarize_error_bound == 0.01f64 })
    }
}
/*@ part src/config.rs parse_config_file `sources.get("statsd").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn statsds_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, StatsdConfig>)
rw `let mut statsds = HashMap::default();` => `let mut statsds: HashMap<String, StatsdConfig> = HashMap::default();`
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), statsds.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), statsds.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<StatsdConfig>(it.seq().take(0), ctx(*args, *global_tags), statsds.m())); }
at loop 1 start:
    proof { one_more::<StatsdConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), statsds.m()); }
@*/
impl Section for GraphiteConfig {
    open spec fn under() -> Str { "sources.graphite."@ }
    open spec fn counts(v: Value) -> bool { enabled(v) }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        num(at(v, "port"@), 2003, u16::MAX as int, r.port as int)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && forwards(at(v, "forwards"@), r.forwards@)
        && r.forwards@.len() > 0
    }
}
/*@ part src/config.rs parse_config_file `sources.get("graphite").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn graphites_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, GraphiteConfig>)
rw `let mut graphites = HashMap::default();` => `let mut graphites: HashMap<String, GraphiteConfig> = HashMap::default();`
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), graphites.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), graphites.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<GraphiteConfig>(it.seq().take(0), ctx(*args, *global_tags), graphites.m())); }
at loop 1 start:
    proof { one_more::<GraphiteConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), graphites.m()); }
@*/
impl Section for TCPConfig {
    open spec fn under() -> Str { "sources.avro."@ }
    open spec fn counts(v: Value) -> bool { enabled(v) }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        num(at(v, "port"@), 2002, u16::MAX as int, r.port as int)
        && txt(at(v, "host"@), "localhost"@, r.host@)
        && forwards(at(v, "forwards"@), r.forwards@)
        && r.forwards@.len() > 0
    }
}
/*@ part src/config.rs parse_config_file `sources.get("avro").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn avros_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, TCPConfig>)
rw `let mut avros = HashMap::default();` => `let mut avros: HashMap<String, TCPConfig> = HashMap::default();`
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), avros.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), avros.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<TCPConfig>(it.seq().take(0), ctx(*args, *global_tags), avros.m())); }
at loop 1 start:
    proof { one_more::<TCPConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), avros.m()); }
@*/
impl Section for NativeServerConfig {
    open spec fn under() -> Str { "sources.native."@ }
    open spec fn counts(v: Value) -> bool { enabled(v) }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        num(at(v, "port"@), 1972, u16::MAX as int, r.port as int)
        && txt(at(v, "ip"@), "0.0.0.0"@, r.ip@)
        && forwards(at(v, "forwards"@), r.forwards@)
    }
}
/*@ part src/config.rs parse_config_file `sources.get("native").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn native_servers_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: HashMap<String, NativeServerConfig>)
rw `let mut native_server_config = HashMap::default();` => `let mut native_server_config: HashMap<String, NativeServerConfig> = HashMap::default();`
spec:
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), res.m())
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), distinct(it.seq()), it.seq().take(it.seq().len() as int) == it.seq(),
        $p matches Value::Table(t) && it.seq() == t.entries(), sections(it.seq().take(it.at()), ctx(*args, *global_tags), native_server_config.m()),
    ensures $p matches Value::Table(t) && sections(t.entries(), ctx(*args, *global_tags), native_server_config.m()),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); assert(sections::<NativeServerConfig>(it.seq().take(0), ctx(*args, *global_tags), native_server_config.m())); }
at loop 1 start:
    proof { one_more::<NativeServerConfig>(it.seq(), it.at() - 1, ctx(*args, *global_tags), native_server_config.m()); }
@*/
impl Section for InternalConfig {
    open spec fn under() -> Str { "sources.internal"@ }
    open spec fn counts(v: Value) -> bool { true }
    open spec fn conf(v: Value, n: Str, c: Ctx, r: Self) -> bool {
        r.config_path is Some && r.config_path->0@ == "sources.internal"@
        && forwards(at(v, "forwards"@), r.forwards@)
    }
}
/*@ part src/config.rs parse_config_file `sources.get("internal").map(|$p| $*b)`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn internal_of($p: &Value, args: &Args, global_tags: &TagMap) -> (res: InternalConfig)
spec:
    ensures InternalConfig::conf(*$p, Seq::empty(), ctx(*args, *global_tags), res)
@*/
// ---- the whole
/// a tag: its text, or where it says so the text of the environment
pub open spec fn tag_text(v: Value) -> Option<Str> {
    match v {
        Value::String(s) => Some(s@),
        Value::Table(t) => match (held(t.entries(), "environment"@), held(t.entries(), "value"@)) { (Some(Value::Boolean(true)), Some(Value::String(s))) => Some(environment(s@)), _ => None },
        _ => None,
    }
}
pub open spec fn tags_are(s: Seq<Entry>, m: Map<Str, Str>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && tag_text(s[i].1) == Some(m[s[i].0])
    &&& forall|k: Str| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/*@ part src/config.rs parse_config_file `let global_tags: TagMap = $*b;`
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn tags_of(value: &Value) -> (res: TagMap)
spec:
    ensures match at(*value, "tags"@) { None => res@ == Map::<Str, Str>::empty(), Some(Value::Table(t)) => tags_are(t.entries(), res@), Some(_) => false }
loop 1 while:
    invariant
        0 <= it.at() <= it.seq().len(), it.seq().take(it.seq().len() as int) == it.seq(), distinct(it.seq()),
        it.seq() == ttbl.entries(), tags_are(it.seq().take(it.at()), tags@),
    ensures tags_are(ttbl.entries(), tags@),
at loop 1 before:
    proof { assert(it.seq().take(it.seq().len() as int) =~= it.seq()); }
at loop 1 start:
    proof {
        let n = it.at() - 1;
        let (a, b) = (it.seq().take(n), it.seq().take(n + 1));
        assert(forall|i: int| 0 <= i < n ==> a[i] == b[i]);
        assert(b[n] == it.seq()[n]);
    }
@*/
pub open spec fn path(v: Option<Value>, d: Str, r: PathBuf) -> bool { txt(v, d, r@) }
pub open spec fn maybe_sections<C: Section>(v: Option<Value>, c: Ctx, r: Option<HashMap<String, C>>) -> bool {
    match v { None => r is None, Some(Value::Table(t)) => r is Some && sections(t.entries(), c, r->0.m()), Some(_) => false }
}
pub open spec fn maybe_listed<C: Section>(v: Option<Value>, c: Ctx, r: Option<Vec<C>>) -> bool {
    match v { None => r is None, Some(Value::Table(t)) => r is Some && listed(t.entries(), c, r->0@), Some(_) => false }
}
pub open spec fn maybe<C: Section>(v: Option<Value>, c: Ctx, r: Option<C>) -> bool {
    match v { None => r is None, Some(x) => r is Some && C::conf(x, Seq::empty(), c, r->0) }
}
pub open spec fn filters_of(v: Value, c: Ctx, r: Args) -> bool {
    maybe_sections(at(v, "delay"@), c, r.delay_filters) && maybe_sections(at(v, "json_encode"@), c, r.json_encode_filters)
    && maybe_sections(at(v, "flush_boundary"@), c, r.flush_boundary_filters) && maybe_sections(at(v, "programmable"@), c, r.programmable_filters)
}
pub open spec fn sinks_of(v: Value, c: Ctx, r: Args) -> bool {
    &&& (match at(v, "null"@) { None => r.null is None, Some(_) => r.null is Some && r.null->0.config_path@ == "sinks.null"@ })
    &&& maybe(at(v, "console"@), c, r.console) && maybe(at(v, "wavefront"@), c, r.wavefront) && maybe(at(v, "influxdb"@), c, r.influxdb)
    &&& maybe(at(v, "prometheus"@), c, r.prometheus) && maybe(at(v, "elasticsearch"@), c, r.elasticsearch) && maybe(at(v, "native"@), c, r.native_sink_config)
    &&& maybe_listed(at(v, "kafka"@), c, r.kafkas)
}
pub open spec fn sources_of(v: Value, c: Ctx, r: Args) -> bool {
    &&& maybe_listed(at(v, "files"@), c, r.files)
    &&& maybe_sections(at(v, "statsd"@), c, r.statsds) && maybe_sections(at(v, "graphite"@), c, r.graphites)
    &&& maybe_sections(at(v, "avro"@), c, r.avros) && maybe_sections(at(v, "native"@), c, r.native_server_config)
    &&& match at(v, "internal"@) { None => r.internal.forwards@.len() == 0, Some(x) => InternalConfig::conf(x, Seq::empty(), c, r.internal) }
}
/// every section of the file, and nothing else
pub open spec fn topology(v: Value, r: Args) -> bool {
    &&& num(at(v, "max-hopper-queue-bytes"@), 104857600, i64::MAX as int, r.max_hopper_queue_bytes as int)
    &&& num(at(v, "max-hopper-queue-files"@), 100, i64::MAX as int, r.max_hopper_queue_files as int)
    &&& num(at(v, "max-hopper-in-memory-bytes"@), 1048576, i64::MAX as int, r.max_hopper_in_memory_bytes as int)
    &&& path(at(v, "data-directory"@), "/tmp/cernan-data"@, r.data_directory) && path(at(v, "scripts-directory"@), "/tmp/cernan-scripts"@, r.scripts_directory)
    &&& flush(at(v, "flush-interval"@), 6000, r.flush_interval)
    &&& exists|c: Ctx| #![auto] c.flush == r.flush_interval && c.scripts == r.scripts_directory@
        && (match at(v, "tags"@) { None => c.tags == Map::<Str, Str>::empty(), Some(Value::Table(t)) => tags_are(t.entries(), c.tags), Some(_) => false })
        && (match at(v, "filters"@) { Some(f) => filters_of(f, c, r), None => r.delay_filters is None && r.json_encode_filters is None && r.flush_boundary_filters is None && r.programmable_filters is None })
        && (match at(v, "sinks"@) { Some(f) => f is Table && sinks_of(f, c, r), None => r.null is None && r.console is None && r.wavefront is None && r.influxdb is None && r.prometheus is None && r.elasticsearch is None && r.native_sink_config is None && r.kafkas is None })
        && (match at(v, "sources"@) { Some(f) => f is Table && sources_of(f, c, r), None => r.files is None && r.statsds is None && r.graphites is None && r.avros is None && r.native_server_config is None && r.internal.forwards@.len() == 0 })
}
/*@ part src/config.rs parse_config_file `if let Some(filters) = value.get("filters") { $*b }`
sig:
    pub fn filters_into(filters: &Value, given: Args, global_tags: &TagMap) -> (res: Args)
rw `&global_tags` => `global_tags`
spec:
    ensures
        filters_of(*filters, ctx(given, *global_tags), res),
        res == (Args { delay_filters: res.delay_filters, json_encode_filters: res.json_encode_filters, flush_boundary_filters: res.flush_boundary_filters, programmable_filters: res.programmable_filters, ..given }),
at fn-start:
    let mut args = given;
at fn-end:
    args
@*/
/*@ part src/config.rs parse_config_file `if let Some(sinks) = value.get("sinks") { $*b }`
sig:
    pub fn sinks_into(sinks: &Value, given: Args, global_tags: &TagMap) -> (res: Args)
rw `&global_tags` => `global_tags`
spec:
    ensures
        *sinks is Table && sinks_of(*sinks, ctx(given, *global_tags), res),
        res == (Args { null: res.null, console: res.console, wavefront: res.wavefront, influxdb: res.influxdb, prometheus: res.prometheus, elasticsearch: res.elasticsearch, native_sink_config: res.native_sink_config, kafkas: res.kafkas, ..given }),
at fn-start:
    let mut args = given;
at fn-end:
    args
@*/
/*@ part src/config.rs parse_config_file `if let Some(sources) = value.get("sources") { $*b }`
sig:
    pub fn sources_into(sources: &Value, given: Args, global_tags: &TagMap) -> (res: Args)
rw `&global_tags` => `global_tags`
spec:
    requires given.internal.forwards@.len() == 0
    ensures
        *sources is Table && sources_of(*sources, ctx(given, *global_tags), res),
        res == (Args { files: res.files, statsds: res.statsds, graphites: res.graphites, avros: res.avros, native_server_config: res.native_server_config, internal: res.internal, ..given }),
at fn-start:
    let mut args = given;
at fn-end:
    args
@*/
/*@ fn src/config.rs parse_config_file
ret: r
spec:
    ensures topology(file(buffer@), r)
at before `args }`:
    proof { let c = ctx(args, global_tags); assert(c.flush == args.flush_interval && c.scripts == args.scripts_directory@); }
@*/
fn main() {}
}
