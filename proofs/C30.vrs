// C30: what a Lua script sees of, and does to, the events it is given.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
//@include inc/float.inc
//@include inc/tags.inc
#[verifier::external_body]
pub fn tags_clone(t: &Option<TagMap>) -> (r: Option<TagMap>) ensures match (*t, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } { unimplemented!() }
//@include inc/telemetry.inc
//@include inc/build.inc
/*@ item src/metric/logline.rs struct LogLine
@*/
//@include inc/tagfns.inc
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
impl LogLine {
/*@ fn src/metric/logline.rs LogLine.new
ret: r
sig:
    pub fn new(path: &str, value: &str) -> (r: LogLine)
rw `path.into()` => `owned(path)`
rw `value.into()` => `owned(value)`
rw `tags: Default::default()` => `tags: None`
rw `fields: Default::default()` => `fields: TagMap::default()`
spec:
    ensures r.path@ == path@, r.value@ == value@, r.tags is None, r.fields@ == Map::<Str, Str>::empty()
@*/
}
impl Telemetry {
/*@ fn src/metric/telemetry.rs Telemetry.query
ret: r
spec:
    ensures r == quantile(self.value, prcnt)
@*/
}
pub open spec fn quantile(v: Option<Value>, q: f64) -> Option<f64> {
    match v { Some(Value::Quantiles { ckms, sum }) => (match ckms.query_spec(q) { Some(x) => Some(x.1), None => None }), _ => None }
}
pub mod metric {
    pub use super::{Telemetry, LogLine, AggregationMethod, TagMap};
    use super::*;
    pub enum Encoding { Raw, Avro, JSON }
    #[verifier::external_body]
    pub struct Metadata { _p: () }
    #[verifier::external_body]
    pub struct Uuid { _p: () }
/*@ item src/metric/event.rs enum Event
@*/
    impl Event {
/*@ fn src/metric/event.rs Event.new_telemetry
attr: pub
ret: r
spec:
    ensures r == Event::Telemetry(metric)
@*/
/*@ fn src/metric/event.rs Event.new_log
attr: pub
ret: r
spec:
    ensures r == Event::Log(log)
@*/
    }
}
pub mod filter {
    use super::*;
/*@ item src/filter/mod.rs enum FilterError
@*/
}

// ---- Lua, as its manual documents it: a stack of values
pub enum Val { Absent, Nil, Num(f64), Text(Str), Payload, Function(int), Other(int) }
pub uninterp spec fn int_of(v: Val) -> i64;
pub uninterp spec fn num_of(v: Val) -> f64;
/// what a value is converted to, if that is UTF-8
pub uninterp spec fn shown_as(v: Val) -> Option<Str>;
/// the text of a value that is a text or a number, if it is UTF-8
pub uninterp spec fn text_of(v: Val) -> Option<Str>;
#[verifier::external_body]
pub struct State { _p: () }
pub enum ThreadStatus { Ok, Yield, RuntimeError, SyntaxError, MemoryError, GcError, MessageHandlerError, FileError }
pub broadcast proof fn lemma_take(a: Seq<Val>, x: Val, n: int)
    requires 0 <= n <= a.len()
    ensures #[trigger] a.push(x).take(n) == a.take(n), n == a.len() ==> a.take(n) == a
{ assert(a.push(x).take(n) =~= a.take(n)); if n == a.len() { assert(a.take(n) =~= a); } }
pub broadcast proof fn lemma_drop<A>(a: Seq<A>, x: A)
    ensures #[trigger] a.push(x).drop_last() == a
{ assert(a.push(x).drop_last() =~= a); }
pub open spec fn nth(s: Seq<Val>, i: int) -> Val { if 0 < i <= s.len() { s[i - 1] } else if i < 0 && -i <= s.len() { s[s.len() + i] } else { Val::Absent } }
impl State {
    pub uninterp spec fn stack(&self) -> Seq<Val>;
    /// whether the function called may refuse its arguments
    pub uninterp spec fn may_refuse(&self) -> bool;
    /// what a global name stands for
    pub uninterp spec fn global(&self, name: Str) -> Val;
    /// what the script called last has called itself, and what it has left of its payload
    pub uninterp spec fn calls(&self) -> Seq<Call>;
    pub uninterp spec fn left(&self) -> Left;
    pub open spec fn arg(&self, i: int) -> Val { nth(self.stack(), i) }
    pub open spec fn pushed(&self, o: State, v: Val) -> bool { self.stack() == o.stack().push(v) && self.may_refuse() == o.may_refuse() && self.same(o) }
    pub open spec fn same(&self, o: State) -> bool { forall|n: Str| #[trigger] self.global(n) == o.global(n) }
    /// the payload a function was called with
    #[verifier::external_body]
    pub fn is_payload(&self, i: i32) requires self.arg(i as int) is Payload { unimplemented!() }
    #[verifier::external_body]
    pub fn to_integer(&self, i: i32) -> (r: i64) ensures r == int_of(self.arg(i as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_number(&self, i: i32) -> (r: f64) ensures r == num_of(self.arg(i as int)) { unimplemented!() }
    // luaL_tolstring leaves the converted value on the stack
    #[verifier::external_body]
    pub fn to_str<'x>(&mut self, i: i32) -> (r: Option<&'x str>)
        ensures
            final(self).stack().len() == old(self).stack().len() + 1, final(self).pushed(*old(self), final(self).stack().last()),
            match r { Some(t) => shown_as(old(self).arg(i as int)) == Some(t@), None => shown_as(old(self).arg(i as int)) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str_in_place<'x>(&self, i: i32) -> (r: Option<&'x str>)
        ensures match r { Some(t) => text_of(self.arg(i as int)) == Some(t@), None => text_of(self.arg(i as int)) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_string(&mut self, s: &str) ensures final(self).pushed(*old(self), Val::Text(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_number(&mut self, n: f64) ensures final(self).pushed(*old(self), Val::Num(n)) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_nil(&mut self) ensures final(self).pushed(*old(self), Val::Nil) { unimplemented!() }
    // does not return: it ends the call with an error
    #[verifier::external_body]
    pub fn arg_error(&mut self, i: i32, msg: &str) -> ! requires old(self).may_refuse() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, n: i32)
        requires 0 <= n <= old(self).stack().len()
        ensures final(self).stack() == old(self).stack().take(old(self).stack().len() - n), final(self).same(*old(self)), final(self).calls() == old(self).calls(), final(self).left() == old(self).left()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_global(&mut self, name: &str) ensures final(self).pushed(*old(self), old(self).global(name@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_fn(&self, i: i32) -> (r: bool) ensures r == (self.arg(i as int) is Function) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_payload(&mut self) ensures final(self).pushed(*old(self), Val::Payload) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_metatable_from_registry(&mut self, name: &str)
        ensures final(self).stack().len() == old(self).stack().len() + 1, final(self).pushed(*old(self), final(self).stack().last())
    { unimplemented!() }
    // takes the metatable off the stack
    #[verifier::external_body]
    pub fn set_metatable(&mut self, i: i32)
        requires old(self).stack().len() > 0, !(old(self).arg(i as int) is Absent), i != -1
        ensures final(self).stack() == old(self).stack().drop_last(), final(self).same(*old(self))
    { unimplemented!() }
    /// A script changes its payload by nothing but the functions below, any number of times.
    #[verifier::external_body]
    pub fn pcall(&mut self, args: i32, results: i32, handler: i32, pyld: &mut Payload) -> (r: ThreadStatus)
        requires
            args == 1, results == 0, handler == 0, old(self).stack().len() >= 2,
            nth(old(self).stack(), -1) is Payload, nth(old(self).stack(), -2) is Function,
        ensures
            r is Ok ==> final(self).stack() == old(self).stack().take(old(self).stack().len() - 2),
            !(r is Ok) ==> final(self).stack().len() == old(self).stack().len() - 1 && final(self).stack().drop_last() == old(self).stack().take(old(self).stack().len() - 2),
            final(pyld).global_tags == old(pyld).global_tags, final(pyld).path == old(pyld).path,
            final(self).left() == left_of(*final(pyld)),
            could(final(self).calls(), pv(*old(pyld)), old(pyld).global_tags@, old(pyld).path@),
            pv(*final(pyld)) == run(final(self).calls(), pv(*old(pyld))),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn own_text(t: Option<&str>) -> (r: Option<String>) ensures match (t, r) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } { unimplemented!() }

// ---- events as a script sees them
#[allow(inconsistent_fields)]
pub struct MetricV { pub name: Str, pub tags: Map<Str, Str>, pub value: Option<Value>, pub persist: bool, pub timestamp: i64, pub count: Option<u64>, pub sum: Option<f64> }
pub struct LogV { pub path: Str, pub value: Str, pub time: i64, pub tags: Map<Str, Str>, pub fields: Map<Str, Str> }
pub struct PayloadV { pub metrics: Seq<MetricV>, pub logs: Seq<LogV> }
pub struct Left { pub metrics: Seq<Telemetry>, pub logs: Seq<LogLine> }
pub open spec fn mv(t: Telemetry) -> MetricV { MetricV { name: t.name@, tags: own_tags(t.tags), value: t.value, persist: t.persist, timestamp: t.timestamp, count: t.override_count, sum: t.override_sample_sum } }
pub open spec fn lv(l: LogLine) -> LogV { LogV { path: l.path@, value: l.value@, time: l.time, tags: own_tags(l.tags), fields: l.fields@ } }
pub open spec fn metrics_of(s: Seq<Box<Telemetry>>) -> Seq<MetricV> { s.map_values(|t: Box<Telemetry>| mv(*t)) }
pub open spec fn logs_of(s: Seq<Box<LogLine>>) -> Seq<LogV> { s.map_values(|t: Box<LogLine>| lv(*t)) }
pub open spec fn pv(p: Payload) -> PayloadV { PayloadV { metrics: metrics_of(p.metrics@), logs: logs_of(p.logs@) } }
pub open spec fn left_of(p: Payload) -> Left { Left { metrics: p.metrics@.map_values(|t: Box<Telemetry>| *t), logs: p.logs@.map_values(|t: Box<LogLine>| *t) } }
pub open spec fn left_view(l: Left) -> PayloadV { PayloadV { metrics: l.metrics.map_values(|t: Telemetry| mv(t)), logs: l.logs.map_values(|t: LogLine| lv(t)) } }
/// what one call of the payload library does
#[allow(inconsistent_fields)]
pub enum Call {
    Nothing, Name(int, Str), Tags(int, Map<Str, Str>), Push(MetricV), Clear,
    Value(int, Str), LogTags(int, Map<Str, Str>), Fields(int, Map<Str, Str>), PushLog(LogV), ClearLogs,
}
pub open spec fn apply(c: Call, p: PayloadV) -> PayloadV {
    match c {
        Call::Nothing => p,
        Call::Name(i, n) => PayloadV { metrics: p.metrics.update(i, MetricV { name: n, ..p.metrics[i] }), ..p },
        Call::Tags(i, t) => PayloadV { metrics: p.metrics.update(i, MetricV { tags: t, ..p.metrics[i] }), ..p },
        Call::Push(m) => PayloadV { metrics: p.metrics.push(m), ..p },
        Call::Clear => PayloadV { metrics: Seq::empty(), ..p },
        Call::Value(i, n) => PayloadV { logs: p.logs.update(i, LogV { value: n, ..p.logs[i] }), ..p },
        Call::LogTags(i, t) => PayloadV { logs: p.logs.update(i, LogV { tags: t, ..p.logs[i] }), ..p },
        Call::Fields(i, t) => PayloadV { logs: p.logs.update(i, LogV { fields: t, ..p.logs[i] }), ..p },
        Call::PushLog(l) => PayloadV { logs: p.logs.push(l), ..p },
        Call::ClearLogs => PayloadV { logs: Seq::empty(), ..p },
    }
}
/// what a call can be, given the tags and the path of the filter
pub open spec fn can(c: Call, p: PayloadV, tags: Map<Str, Str>, path: Str) -> bool {
    match c {
        Call::Name(i, _) | Call::Tags(i, _) => 0 <= i < p.metrics.len(),
        Call::Value(i, _) | Call::LogTags(i, _) | Call::Fields(i, _) => 0 <= i < p.logs.len(),
        Call::Push(m) => m.tags == tags && !m.persist && m.count is None && m.sum is None,
        Call::PushLog(l) => l.path == path && l.tags == tags && l.fields == Map::<Str, Str>::empty(),
        _ => true,
    }
}
pub open spec fn run(s: Seq<Call>, p: PayloadV) -> PayloadV
    decreases s.len()
{ if s.len() == 0 { p } else { apply(s.last(), run(s.drop_last(), p)) } }
pub open spec fn could(s: Seq<Call>, p: PayloadV, tags: Map<Str, Str>, path: Str) -> bool
    decreases s.len()
{ s.len() == 0 || could(s.drop_last(), p, tags, path) && can(s.last(), run(s.drop_last(), p), tags, path) }
pub open spec fn on_metric(c: Call, i: int) -> bool { match c { Call::Name(k, _) | Call::Tags(k, _) => k == i, Call::Clear => true, _ => false } }
pub open spec fn on_log(c: Call, i: int) -> bool { match c { Call::Value(k, _) | Call::LogTags(k, _) | Call::Fields(k, _) => k == i, Call::ClearLogs => true, _ => false } }
/// What a script leaves alone stays as it is, where it is.
pub proof fn lemma_left_alone(s: Seq<Call>, p: PayloadV, tags: Map<Str, Str>, path: Str, i: int)
    requires could(s, p, tags, path)
    ensures
        0 <= i < p.metrics.len() && (forall|k: int| 0 <= k < s.len() ==> !on_metric(#[trigger] s[k], i)) ==> i < run(s, p).metrics.len() && run(s, p).metrics[i] == p.metrics[i],
        0 <= i < p.logs.len() && (forall|k: int| 0 <= k < s.len() ==> !on_log(#[trigger] s[k], i)) ==> i < run(s, p).logs.len() && run(s, p).logs[i] == p.logs[i],
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_left_alone(t, p, tags, path, i);
        assert(s.last() == s[s.len() - 1]);
        assert(forall|k: int| 0 <= k < t.len() ==> t[k] == s[k]);
        if 0 <= i < p.metrics.len() && (forall|k: int| 0 <= k < s.len() ==> !on_metric(#[trigger] s[k], i)) {
            assert forall|k: int| 0 <= k < t.len() implies !on_metric(#[trigger] t[k], i) by { assert(!on_metric(s[k], i)); }
            assert(!on_metric(s[s.len() - 1], i));
        }
        if 0 <= i < p.logs.len() && (forall|k: int| 0 <= k < s.len() ==> !on_log(#[trigger] s[k], i)) {
            assert forall|k: int| 0 <= k < t.len() implies !on_log(#[trigger] t[k], i) by { assert(!on_log(s[k], i)); }
            assert(!on_log(s[s.len() - 1], i));
        }
    }
}
/// A script that changes nothing leaves what it was given.
pub proof fn lemma_idle(s: Seq<Call>, p: PayloadV)
    requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) is Nothing
    ensures run(s, p) == p
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.last() == s[s.len() - 1]);
        assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]) is Nothing by { assert(s[k] is Nothing); }
        lemma_idle(s.drop_last(), p);
    }
}

// ---- the payload library
/*@ rewrites
rw `mond::State` => `State`
rw `let mut state = State::from_ptr(L);` => ``
rw `let state = State::from_ptr(L);` => ``
rw `let pyld = state.to_userdata($*i) as *mut Payload;` => `state.is_payload($*i);`
rw `idx(&mut state, ` => `idx(state, `
rw `state.to_str($i).map(|$k| $k.to_owned())` => `own_text(state.to_str($i))`
rw `state.to_str_in_place($i).map(|$k| $k.to_owned())` => `own_text(state.to_str_in_place($i))`
@*/
/*@ item src/filter/programmable_filter.rs struct Payload
@*/
/// the place an index stands for: from one up, or from minus one down from the end
pub open spec fn place(n: i64, top: int) -> int { if n < 0 { top + n } else { n - 1 } }
pub open spec fn names(n: i64, top: int) -> bool { 0 <= place(n, top) < top }
/// how every function is called: with a payload, and with as many arguments as it reads
pub open spec fn called(s: State, n: int) -> bool { s.stack().len() >= n && s.arg(1) is Payload }
/// what the caller gets
pub open spec fn gave(s: State, n: i32, v: Val) -> bool { n == 1 && s.stack().len() > 0 && s.stack().last() == v }
pub open spec fn maybe(v: Option<Str>) -> Val { match v { Some(t) => Val::Text(t), None => Val::Nil } }
pub open spec fn get(m: Map<Str, Str>, k: Str) -> Option<Str> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn did(old_: Payload, new: Payload, c: Call) -> bool {
    &&& new.global_tags == old_.global_tags && new.path == old_.path
    &&& can(c, pv(old_), old_.global_tags@, old_.path@)
    &&& pv(new).metrics =~= apply(c, pv(old_)).metrics
    &&& pv(new).logs =~= apply(c, pv(old_)).logs
}
pub open spec fn metric_at(p: Payload, s: State) -> MetricV { pv(p).metrics[place(int_of(s.arg(2)), p.metrics@.len() as int)] }
pub open spec fn log_at(p: Payload, s: State) -> LogV { pv(p).logs[place(int_of(s.arg(2)), p.logs@.len() as int)] }
pub open spec fn metric_ix(p: Payload, s: State) -> int { place(int_of(s.arg(2)), p.metrics@.len() as int) }
pub open spec fn log_ix(p: Payload, s: State) -> int { place(int_of(s.arg(2)), p.logs@.len() as int) }
pub open spec fn asks_metric(p: Payload, s: State) -> bool { s.may_refuse() == !names(int_of(s.arg(2)), p.metrics@.len() as int) }
pub open spec fn asks_log(p: Payload, s: State) -> bool { s.may_refuse() == !names(int_of(s.arg(2)), p.logs@.len() as int) }

/*@ fn src/filter/programmable_filter.rs idx
ret: r
spec:
    requires !names(int_of(old(state).arg(2)), top as int) ==> old(state).may_refuse(), top < 0x8000_0000_0000_0000
    ensures r == place(int_of(old(state).arg(2)), top as int), r < top, *final(state) == *old(state)
@*/
impl<'a> Payload<'a> {
/*@ fn src/filter/programmable_filter.rs Payload.from_metric
ret: r
spec:
    ensures pv(r).metrics =~= seq![mv(m)], pv(r).logs =~= Seq::<LogV>::empty(), r.global_tags == tags, r.path == path
@*/
/*@ fn src/filter/programmable_filter.rs Payload.from_log
ret: r
spec:
    ensures pv(r).logs =~= seq![lv(l)], pv(r).metrics =~= Seq::<MetricV>::empty(), r.global_tags == tags, r.path == path
@*/
/*@ fn src/filter/programmable_filter.rs Payload.blank
ret: r
spec:
    ensures pv(r).logs =~= Seq::<LogV>::empty(), pv(r).metrics =~= Seq::<MetricV>::empty(), r.global_tags == tags, r.path == path
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_metric_name
ret: r
sig:
    pub fn lua_metric_name(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 2), asks_metric(*old(pyld), *old(state)), old(pyld).metrics@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, Val::Text(metric_at(*old(pyld), *old(state)).name)),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_value
ret: r
sig:
    pub fn lua_log_value(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 2), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, Val::Text(log_at(*old(pyld), *old(state)).value)),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_path
ret: r
sig:
    pub fn lua_log_path(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 2), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, Val::Text(log_at(*old(pyld), *old(state)).path)),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_set_metric_name
ret: r
sig:
    pub fn lua_set_metric_name(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), old(pyld).metrics@.len() < 0x8000_0000_0000_0000,old(state).may_refuse() == !(names(int_of(old(state).arg(2)), old(pyld).metrics@.len() as int) && text_of(old(state).arg(3)) is Some),
    ensures
        text_of(old(state).arg(3)) is Some, did(*old(pyld), *final(pyld), Call::Name(metric_ix(*old(pyld), *old(state)), text_of(old(state).arg(3))->0)), r == 0,
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_push_metric
ret: r
sig:
    pub fn lua_push_metric(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), 
    ensures
        r == 0,
        match shown_as(old(state).arg(2)) {
            Some(n) => { let m = pv(*final(pyld)).metrics.last(); m.name == n && m.value == Some(Value::Set(num_of(old(state).arg(3)))) && did(*old(pyld), *final(pyld), Call::Push(m)) },
            None => did(*old(pyld), *final(pyld), Call::Nothing),
        },
at fn-start:
    broadcast use {strings, floats};
    proof { assert(Map::<Str, Str>::empty().union_prefer_right(old(pyld).global_tags@) =~= old(pyld).global_tags@); }
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_clear_metrics
ret: r
sig:
    pub fn lua_clear_metrics(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 1), 
    ensures
        r == 0, did(*old(pyld), *final(pyld), Call::Clear),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_push_log
ret: r
sig:
    pub fn lua_push_log(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 2), 
    ensures
        r == 0,
        match shown_as(old(state).arg(2)) {
            Some(n) => { let l = pv(*final(pyld)).logs.last(); l.value == n && did(*old(pyld), *final(pyld), Call::PushLog(l)) },
            None => did(*old(pyld), *final(pyld), Call::Nothing),
        },
at fn-start:
    broadcast use {strings, floats};
    proof { assert(Map::<Str, Str>::empty().union_prefer_right(old(pyld).global_tags@) =~= old(pyld).global_tags@); }
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_clear_logs
ret: r
sig:
    pub fn lua_clear_logs(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 1), 
    ensures
        r == 0, did(*old(pyld), *final(pyld), Call::ClearLogs),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_tag_value
ret: r
sig:
    pub fn lua_log_tag_value(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, match shown_as(old(state).arg(3)) { Some(k) => maybe(get(layer(log_at(*old(pyld), *old(state)).tags, old(pyld).global_tags@), k)), None => Val::Nil }),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_field_value
ret: r
sig:
    pub fn lua_log_field_value(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, match shown_as(old(state).arg(3)) { Some(k) => maybe(get(log_at(*old(pyld), *old(state)).fields, k)), None => Val::Nil }),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_metric_tag_value
ret: r
sig:
    pub fn lua_metric_tag_value(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_metric(*old(pyld), *old(state)), old(pyld).metrics@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, match shown_as(old(state).arg(3)) { Some(k) => maybe(get(layer(metric_at(*old(pyld), *old(state)).tags, old(pyld).global_tags@), k)), None => Val::Nil }),
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_metric_set_tag
ret: r
sig:
    pub fn lua_metric_set_tag(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 4), asks_metric(*old(pyld), *old(state)), old(pyld).metrics@.len() < 0x8000_0000_0000_0000,
    ensures
        match (shown_as(old(state).arg(3)), shown_as(old(state).arg(4))) {
            (Some(k), Some(v)) => did(*old(pyld), *final(pyld), Call::Tags(metric_ix(*old(pyld), *old(state)), metric_at(*old(pyld), *old(state)).tags.insert(k, v))) && gave(*final(state), r, maybe(get(metric_at(*old(pyld), *old(state)).tags, k))),
            _ => did(*old(pyld), *final(pyld), Call::Nothing) && gave(*final(state), r, Val::Nil),
        },
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_set_tag
ret: r
sig:
    pub fn lua_log_set_tag(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 4), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        match (shown_as(old(state).arg(3)), shown_as(old(state).arg(4))) {
            (Some(k), Some(v)) => did(*old(pyld), *final(pyld), Call::LogTags(log_ix(*old(pyld), *old(state)), log_at(*old(pyld), *old(state)).tags.insert(k, v))) && gave(*final(state), r, maybe(get(log_at(*old(pyld), *old(state)).tags, k))),
            _ => did(*old(pyld), *final(pyld), Call::Nothing) && gave(*final(state), r, Val::Nil),
        },
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_set_field
ret: r
sig:
    pub fn lua_log_set_field(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 4), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        match (shown_as(old(state).arg(3)), shown_as(old(state).arg(4))) {
            (Some(k), Some(v)) => did(*old(pyld), *final(pyld), Call::Fields(log_ix(*old(pyld), *old(state)), log_at(*old(pyld), *old(state)).fields.insert(k, v))) && gave(*final(state), r, maybe(get(log_at(*old(pyld), *old(state)).fields, k))),
            _ => did(*old(pyld), *final(pyld), Call::Nothing) && gave(*final(state), r, Val::Nil),
        },
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_set_value
ret: r
sig:
    pub fn lua_log_set_value(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        gave(*final(state), r, Val::Nil),
        match shown_as(old(state).arg(3)) { Some(v) => did(*old(pyld), *final(pyld), Call::Value(log_ix(*old(pyld), *old(state)), v)), None => did(*old(pyld), *final(pyld), Call::Nothing) },
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_metric_remove_tag
ret: r
sig:
    pub fn lua_metric_remove_tag(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_metric(*old(pyld), *old(state)), old(pyld).metrics@.len() < 0x8000_0000_0000_0000,
    ensures
        match shown_as(old(state).arg(3)) {
            Some(k) => did(*old(pyld), *final(pyld), Call::Tags(metric_ix(*old(pyld), *old(state)), metric_at(*old(pyld), *old(state)).tags.remove(k))) && gave(*final(state), r, maybe(get(metric_at(*old(pyld), *old(state)).tags, k))),
            None => did(*old(pyld), *final(pyld), Call::Nothing) && gave(*final(state), r, Val::Nil),
        },
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_log_remove_tag
ret: r
sig:
    pub fn lua_log_remove_tag(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_log(*old(pyld), *old(state)), old(pyld).logs@.len() < 0x8000_0000_0000_0000,
    ensures
        match shown_as(old(state).arg(3)) {
            Some(k) => did(*old(pyld), *final(pyld), Call::LogTags(log_ix(*old(pyld), *old(state)), log_at(*old(pyld), *old(state)).tags.remove(k))) && gave(*final(state), r, maybe(get(log_at(*old(pyld), *old(state)).tags, k))),
            None => did(*old(pyld), *final(pyld), Call::Nothing) && gave(*final(state), r, Val::Nil),
        },
@*/
/*@ fn src/filter/programmable_filter.rs Payload.lua_metric_query
ret: r
sig:
    pub fn lua_metric_query(state: &mut State, pyld: &mut Payload<'a>) -> (r: i32)
spec:
    requires called(*old(state), 3), asks_metric(*old(pyld), *old(state)), old(pyld).metrics@.len() < 0x8000_0000_0000_0000,
    ensures
        did(*old(pyld), *final(pyld), Call::Nothing), gave(*final(state), r, match quantile(metric_at(*old(pyld), *old(state)).value, num_of(old(state).arg(3))) { Some(x) => Val::Num(x), None => Val::Nil }),
@*/
}

// ---- the names the functions go by
#[allow(non_camel_case_types)]
pub enum Payload_ { lua_set_metric_name, lua_clear_logs, lua_clear_metrics, lua_log_remove_tag, lua_log_set_tag, lua_log_tag_value, lua_log_set_field, lua_log_set_value, lua_log_field_value, lua_log_value, lua_log_path, lua_metric_query, lua_metric_remove_tag, lua_metric_set_tag, lua_metric_tag_value, lua_push_log, lua_push_metric, lua_metric_name }
impl Payload_ {
    pub open spec fn known_as(self) -> Str { match self { Payload_::lua_set_metric_name => "set_metric_name"@, Payload_::lua_clear_logs => "clear_logs"@, Payload_::lua_clear_metrics => "clear_metrics"@, Payload_::lua_log_remove_tag => "log_remove_tag"@, Payload_::lua_log_set_tag => "log_set_tag"@, Payload_::lua_log_tag_value => "log_tag_value"@, Payload_::lua_log_set_field => "log_set_field"@, Payload_::lua_log_set_value => "log_set_value"@, Payload_::lua_log_field_value => "log_field_value"@, Payload_::lua_log_value => "log_value"@, Payload_::lua_log_path => "log_path"@, Payload_::lua_metric_query => "metric_query"@, Payload_::lua_metric_remove_tag => "metric_remove_tag"@, Payload_::lua_metric_set_tag => "metric_set_tag"@, Payload_::lua_metric_tag_value => "metric_tag_value"@, Payload_::lua_push_log => "push_log"@, Payload_::lua_push_metric => "push_metric"@, Payload_::lua_metric_name => "metric_name"@ } }
}
/// every function under its name, and no other
pub open spec fn library(s: Seq<(&'static str, Option<Payload_>)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 is Some && s[i].0@ == s[i].1->0.known_as()
    &&& forall|f: Payload_| #[trigger] listed(s, f)
}
pub open spec fn listed(s: Seq<(&'static str, Option<Payload_>)>, f: Payload_) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 == Some(f) }
/// looking at the first few is enough to find them all
pub proof fn lemma_listed(s: Seq<(&'static str, Option<Payload_>)>)
    ensures
        forall|f: Payload_| ((s.len() > 0 && s[0].1 == Some(f)) || (s.len() > 1 && s[1].1 == Some(f)) || (s.len() > 2 && s[2].1 == Some(f)) || (s.len() > 3 && s[3].1 == Some(f)) || (s.len() > 4 && s[4].1 == Some(f)) || (s.len() > 5 && s[5].1 == Some(f)) || (s.len() > 6 && s[6].1 == Some(f)) || (s.len() > 7 && s[7].1 == Some(f)) || (s.len() > 8 && s[8].1 == Some(f)) || (s.len() > 9 && s[9].1 == Some(f)) || (s.len() > 10 && s[10].1 == Some(f)) || (s.len() > 11 && s[11].1 == Some(f)) || (s.len() > 12 && s[12].1 == Some(f)) || (s.len() > 13 && s[13].1 == Some(f)) || (s.len() > 14 && s[14].1 == Some(f)) || (s.len() > 15 && s[15].1 == Some(f)) || (s.len() > 16 && s[16].1 == Some(f)) || (s.len() > 17 && s[17].1 == Some(f)) || (s.len() > 18 && s[18].1 == Some(f)) || (s.len() > 19 && s[19].1 == Some(f)) || (s.len() > 20 && s[20].1 == Some(f)) || (s.len() > 21 && s[21].1 == Some(f)) || (s.len() > 22 && s[22].1 == Some(f)) || (s.len() > 23 && s[23].1 == Some(f))) ==> #[trigger] listed(s, f)
{}
/*@ item src/filter/programmable_filter.rs const PAYLOAD_LIB
rw `const PAYLOAD_LIB: $*t = [$*e];` => `fn payload_lib() -> (r: Vec<(&'static str, Option<Payload_>)>) ensures library(r@) { let r = vec![$*e]; proof { let s = r@; lemma_listed(s); } r }`
rw `Payload::$f` => `Payload_::$f`
@*/

// ---- the filter
/*@ item src/filter/programmable_filter.rs struct ProgrammableFilter
@*/
pub uninterp spec fn failure_name(path: Str, func: Str) -> Str;
#[verifier::external_body]
pub fn failure_of(path: &str, func: &str) -> (r: String) ensures r@ == failure_name(path@, func@) { unimplemented!() }
/// one failure of a function of the script
pub open spec fn failure(e: metric::Event, path: Str, func: Str) -> bool {
    e matches metric::Event::Telemetry(t) && t.name@ == failure_name(path, func) && t.ok() && t.agg() == Agg::Sum(1.0f64) && !t.persist && t.tags is None
}
/// lines first, then points
pub open spec fn events(l: Left) -> Seq<metric::Event> { l.logs.map_values(|x: LogLine| metric::Event::Log(x)) + l.metrics.map_values(|x: Telemetry| metric::Event::Telemetry(x)) }
pub open spec fn line_events(s: Seq<Box<LogLine>>) -> Seq<metric::Event> { s.map_values(|x: Box<LogLine>| metric::Event::Log(*x)) }
pub open spec fn point_events(s: Seq<Box<Telemetry>>) -> Seq<metric::Event> { s.map_values(|x: Box<Telemetry>| metric::Event::Telemetry(*x)) }
pub open spec fn answered(r: Result<(), filter::FilterError>, s0: State, s1: State, out0: Seq<metric::Event>, out1: Seq<metric::Event>, func: Str, given: PayloadV, tags: Map<Str, Str>, path: Str) -> bool {
    // whatever happened, the next call finds the stack as this one did
    &&& s1.stack() == s0.stack()
    &&& match r {
        Ok(_) => {
            &&& s0.global(func) is Function
            &&& could(s1.calls(), given, tags, path)
            &&& left_view(s1.left()) == run(s1.calls(), given)
            &&& out1 == out0 + events(s1.left())
        }
        Err(filter::FilterError::NoSuchFunction(n, e)) => !(s0.global(func) is Function) && n@ == func && failure(e, path, func) && out1 == out0,
        Err(filter::FilterError::LuaError(_, e)) => s0.global(func) is Function && failure(e, path, func) && out1 == out0,
    }
}
/*@ fn src/filter/programmable_filter.rs run_lua_func
ret: r
rw `format!("cernan.filter.{}.{}.failure", $*a, $*b)` => `failure_of($*a, $*b)`
rw `unsafe { state.push_light_userdata::<Payload>(&mut pyld); }` => `state.push_payload();`
rw `state.pcall($*a)` => `state.pcall($*a, &mut pyld)`
spec:
    ensures answered(r, *old(state), *final(state), old(res)@, final(res)@, func_name@, pv(pyld), pyld.global_tags@, pyld.path@)
loop 1 for iter it:
    invariant it.seq() == lines, res@ == old(res)@ + line_events(lines).take(it.index() as int),
at loop 1 before:
    let ghost lines = pyld.logs@;
    let ghost points = pyld.metrics@;
    proof { assert(old(res)@ + line_events(lines).take(0) =~= old(res)@); }
at loop 1 end:
    proof { assert(line_events(lines).take(it.index() + 1) =~= line_events(lines).take(it.index() as int).push(line_events(lines)[it.index() as int])); }
at loop 1 after:
    proof {
        assert(line_events(lines).take(lines.len() as int) =~= line_events(lines));
        assert(old(res)@ + line_events(lines) + point_events(points).take(0) =~= old(res)@ + line_events(lines));
    }
loop 2 for iter jt:
    invariant jt.seq() == points, res@ == old(res)@ + line_events(lines) + point_events(points).take(jt.index() as int),
at loop 2 end:
    proof { assert(point_events(points).take(jt.index() + 1) =~= point_events(points).take(jt.index() as int).push(point_events(points)[jt.index() as int])); }
at loop 2 after:
    proof {
        assert(point_events(points).take(points.len() as int) =~= point_events(points));
        assert(events(state.left()) =~= line_events(lines) + point_events(points));
        assert(left_view(state.left()).metrics =~= run(state.calls(), given).metrics);
        assert(left_view(state.left()).logs =~= run(state.calls(), given).logs);
        assert(old(res)@ + line_events(lines) + point_events(points) =~= old(res)@ + (line_events(lines) + point_events(points)));
        assert(state.stack() =~= old(state).stack());
    }
at fn-start:
    let ghost given = pv(pyld);
    broadcast use {strings, floats, lemma_take, lemma_drop};
@*/
impl ProgrammableFilter {
/*@ fn src/filter/programmable_filter.rs Filter@ProgrammableFilter.process
ret: r
spec:
    ensures
        final(self).path == old(self).path, final(self).global_tags == old(self).global_tags,
        match event {
            metric::Event::Telemetry(m) => final(self).last_flush_idx == old(self).last_flush_idx
                && answered(r, old(self).state, final(self).state, old(res)@, final(res)@, "process_metric"@, PayloadV { metrics: seq![mv(m)], logs: Seq::empty() }, old(self).global_tags@, old(self).path@),
            metric::Event::Log(l) => final(self).last_flush_idx == old(self).last_flush_idx
                && answered(r, old(self).state, final(self).state, old(res)@, final(res)@, "process_log"@, PayloadV { metrics: Seq::empty(), logs: seq![lv(l)] }, old(self).global_tags@, old(self).path@),
            // a flush seen before is done with; another one is passed on behind what the script has to add
            metric::Event::TimerFlush(n) => if n <= old(self).last_flush_idx { r is Ok && *final(self) == *old(self) && final(res)@ == old(res)@ } else {
                &&& final(res)@.len() > 0 && final(res)@.last() == event
                &&& answered(r, old(self).state, final(self).state, old(res)@, final(res)@.drop_last(), "tick"@, PayloadV { metrics: Seq::empty(), logs: Seq::empty() }, old(self).global_tags@, old(self).path@)
                &&& final(self).last_flush_idx == if r is Ok { n } else { old(self).last_flush_idx }
            },
            e => r is Ok && *final(self) == *old(self) && final(res)@ == old(res)@.push(e),
        },
at fn-start:
    broadcast use {lemma_take, lemma_drop};
@*/
}
fn main() {}
} // verus!
