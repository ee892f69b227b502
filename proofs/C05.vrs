// C05: statsd.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc
//@include inc/build.inc
#[verifier::external_body]
pub struct LogLine { _p: () }
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct Encoding { _p: () }
/*@ item src/metric/event.rs enum Event
@*/
impl Event {
/*@ fn src/metric/event.rs Event.new_telemetry
ret: r
spec:
    ensures r == Event::Telemetry(metric)
@*/
}
pub mod metric { pub use super::{Event, Telemetry}; }
//@include inc/source.inc
//@include inc/pt.inc
//@include inc/text.inc
/*@ rewrites
rw `&buf[..$*n]` => `bytes_to(buf, $*n)`
rw `&$s[$*a..]` => `cut_from($s, $*a)`
rw `&$s[$*a..$*b]` => `cut($s, $*a, $*b)`
rw `time::now()` => `time_here()`
@*/

pub struct Regex { pub id: u64 }
impl Regex {
    pub uninterp spec fn matches(&self, s: Seq<u8>) -> bool;
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.matches(sb(s)) { unimplemented!() }
}
pub type Mask = Regex;
pub type Bounds = Vec<f64>;
/*@ item src/source/statsd.rs struct StatsdParseConfig
@*/
/// a reading of the clock taken while a packet is parsed
pub uninterp spec fn read_here(t: i64) -> bool;
#[verifier::external_body]
pub fn time_here() -> (r: i64) ensures read_here(r) { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy(v: &Vec<f64>) -> (r: Vec<f64>) ensures r@ == v@ { unimplemented!() }
/// no NaN among them
pub uninterp spec fn orderable(s: Seq<f64>) -> bool;
pub uninterp spec fn sorted(s: Seq<f64>) -> Seq<f64>;
/// `sort_by(|a, b| a.partial_cmp(b).unwrap())`
#[verifier::external_body]
pub fn sort_floats(v: &mut Vec<f64>)
    requires orderable(old(v)@)
    ensures final(v)@ == sorted(old(v)@), final(v)@.len() == old(v)@.len(), ascending(final(v)@)
{ unimplemented!() }
impl SoftTelemetry {
/*@ fn src/metric/telemetry.rs SoftTelemetry.bounds
ret: r
rw `bounds.sort_by(|a, b| a.partial_cmp(b).unwrap())` => `sort_floats(&mut bounds)`
spec:
    requires orderable(bounds@)
    ensures r == (SoftTelemetry { bounds: r.bounds, ..self }), r.bounds is Some, r.bounds->0@ == sorted(bounds@),
        r.bounds->0@.len() == bounds@.len(), ascending(r.bounds->0@),
@*/
}
/// what the configuration must be for the source to be of any use: an error bound below 1,
/// bins that are a non-empty list of numbers
pub open spec fn sound(c: StatsdParseConfig) -> bool {
    &&& !fge(c.summarize_error_bound, 1.0)
    &&& forall|i: int| 0 <= i < c.histogram_masks@.len() ==> (#[trigger] c.histogram_masks@[i]).1@.len() > 0 && orderable(c.histogram_masks@[i].1@)
}

// ---- what a line states

pub enum Kind { Gauge, Counter, Timer }
pub open spec fn kind_named(t: Seq<u8>) -> Option<Kind> {
    if t == sb("g") { Some(Kind::Gauge) } else if t == sb("c") { Some(Kind::Counter) }
    else if t == sb("ms") || t == sb("h") { Some(Kind::Timer) } else { None }
}
/// in front of a rate the type may be followed by a bar
pub open spec fn kind_named_rated(t: Seq<u8>) -> Option<Kind> {
    if t == sb("g") || t == sb("g|") { Some(Kind::Gauge) } else if t == sb("c") || t == sb("c|") { Some(Kind::Counter) }
    else if t == sb("ms") || t == sb("h") || t == sb("ms|") || t == sb("h|") { Some(Kind::Timer) } else { None }
}
pub struct Line { pub name: Seq<u8>, pub x: f64, pub signed: bool, pub kind: Kind, pub rate: Option<f64> }
/// `name:value|type` or `name:value|type@rate`
pub open spec fn read_line(l: Seq<u8>) -> Option<Line> {
    match first(l, 58) {
        None => None,
        Some(c) => if c == 0 { None } else { read_rest(l.take(c), l.subrange(c + 1, l.len() as int)) }
    }
}
pub open spec fn read_rest(name: Seq<u8>, r: Seq<u8>) -> Option<Line> {
    match first(r, 124) {
        None => None,
        Some(p) => if num(r.take(p)) is None { None } else {
            read_type(name, num(r.take(p))->0, r[0] == 43 || r[0] == 45, r.subrange(p + 1, r.len() as int))
        }
    }
}
pub open spec fn read_type(name: Seq<u8>, x: f64, signed: bool, t: Seq<u8>) -> Option<Line> {
    match first(t, 64) {
        None => match kind_named(t) { Some(kind) => Some(Line { name, x, signed, kind, rate: None }), None => None },
        Some(k) => match kind_named_rated(t.take(k)) {
            Some(kind) => match num(t.subrange(k + 1, t.len() as int)) {
                Some(rate) => Some(Line { name, x, signed, kind, rate: Some(rate) }),
                None => None },
            None => None },
    }
}
pub open spec fn scaled(l: Line) -> f64 { match l.rate { Some(rate) => fmul(l.x, fdiv(1.0, rate)), None => l.x } }
/// the first mask that matches, from `i` on
pub open spec fn mask_of(ms: Seq<(Mask, Bounds)>, name: Seq<u8>, i: int) -> Option<int>
    decreases ms.len() - i
{
    if i < 0 || i >= ms.len() { None } else if ms[i].0.matches(name) { Some(i) } else { mask_of(ms, name, i + 1) }
}
pub open spec fn agg_of(l: Line, c: StatsdParseConfig) -> Agg {
    let v = scaled(l);
    match l.kind {
        Kind::Gauge => if l.signed { Agg::Sum(v) } else { Agg::Set(v) },
        Kind::Counter => Agg::Sum(v),
        Kind::Timer => match mask_of(c.histogram_masks@, l.name, 0) {
            Some(i) => Agg::Hist { data: Multiset::empty().insert(v), bounds: sorted(c.histogram_masks@[i].1@), sum: Some(v) },
            None => Agg::Quant { data: Multiset::empty().insert(v), sum: v },
        },
    }
}
/// whether t is the point the line states
pub open spec fn is_stated(t: Telemetry, l: Line, c: StatsdParseConfig) -> bool {
    &&& t.ok()
    &&& exists|n: &str| sb(n) == l.name && t.name == #[trigger] string_of::<&str>(n)
    &&& t.agg() == agg_of(l, c)
    &&& t.persist == (l.kind is Gauge)
    &&& t.tags is None
    &&& read_here(t.timestamp)
}
pub open spec fn line_ok(ls: Seq<Seq<u8>>, i: int) -> bool { read_line(ls[i]) is Some }
pub open spec fn valid(ls: Seq<Seq<u8>>) -> bool { ls.len() > 0 && forall|i: int| 0 <= i < ls.len() ==> #[trigger] line_ok(ls, i) }
pub open spec fn states(ls: Seq<Seq<u8>>, ts: Seq<Telemetry>, c: StatsdParseConfig) -> bool {
    ts.len() == ls.len() && forall|i: int| 0 <= i < ls.len() ==> is_stated(#[trigger] ts[i], read_line(ls[i])->0, c)
}

/*@ fn src/protocols/statsd.rs parse_statsd
ret: r
rw `source.lines()` => `lines_of(source)`
rw `src.len()` => `str_len(src)`
rw `name.is_empty()` => `str_empty(name)`
rw `sync::Arc::make_mut(&mut sync::Arc::clone($*a)).take().unwrap()` => `base_of($*a)`
rw `sync::Arc<Option<metric::Telemetry>>` => `Base`
rw `&sync::Arc<StatsdParseConfig>` => `&StatsdParseConfig`
rw `for &(ref $a, ref $b) in &config.histogram_masks {` => `for k in 0..config.histogram_masks.len() { let $a = &config.histogram_masks[k].0; let $b = &config.histogram_masks[k].1;`
rw `res.push($*e)` => `{ let m = $*e; proof { let x = read_line(l)->0; assert(x.name == sb(name)); assert(m.name == string_of::<&str>(name)); assert(seq![43u8][0] == 43 && seq![45u8][0] == 45 && forall|b: u8| (#[trigger] seq![b])[0] == b); assert(x.kind is Counter ==> m.agg() == agg_of(x, *config)); assert(x.kind is Gauge ==> m.agg() == agg_of(x, *config)); assert(x.kind is Timer ==> m.agg() == agg_of(x, *config)); assert(m.agg() == agg_of(x, *config)); assert(m.persist == (x.kind is Gauge)); assert(m.tags is None); assert(is_stated(m, x, *config)); } res.push(m) }`
rw `bounds.clone()` => `vec_copy(bounds)`
spec:
    requires like_plain(metric.base()), sound(*config)
    ensures
        final(res)@.len() >= old(res)@.len(),
        final(res)@.take(old(res)@.len() as int) == old(res)@,
        old(res)@.len() == 0 ==> r == valid(lines(sb(source))),
        old(res)@.len() == 0 && r ==> states(lines(sb(source)), final(res)@, *config),
at fn-start:
    broadcast use {texts, floats, strings};
    let ghost w = lines(sb(source));
    let ghost r0 = res@;
    proof { lits(); }
loop 1 for iter it:
    invariant
        like_plain(metric.base()), sound(*config), w == lines(sb(source)), r0 == old(res)@,
        it.seq().map_values(|x: &str| sb(x)) == w,
        res@.len() == r0.len() + it.index(), res@.take(r0.len() as int) == r0,
        forall|j: int| 0 <= j < it.index() ==> #[trigger] line_ok(w, j),
        forall|k: int| r0.len() <= k < res@.len() ==> is_stated(#[trigger] res@[k], read_line(w[k - r0.len()])->0, *config),
at loop 1 start:
    broadcast use {texts, floats, strings, ax_num, ax_small};
    let ghost l = sb(src);
    proof {
        lits();
        lemma_parts(l);
        assert(w[it.index() as int] == l);
        assert(line_ok(w, it.index() as int) == (read_line(l) is Some));
    }
loop 2 for iter k1:
    invariant_except_break
        metric == m2, mask_of(config.histogram_masks@, sb(name), 0) == mask_of(config.histogram_masks@, sb(name), k1.index() as int),
    invariant
        sound(*config), k1.seq().len() == config.histogram_masks@.len(),
    ensures
        masked(metric, m2, *config, sb(name)),
at loop 2 before:
    let ghost m2 = metric;
loop 3 for iter k2:
    invariant_except_break
        metric == m3, mask_of(config.histogram_masks@, sb(name), 0) == mask_of(config.histogram_masks@, sb(name), k2.index() as int),
    invariant
        sound(*config), k2.seq().len() == config.histogram_masks@.len(),
    ensures
        masked(metric, m3, *config, sb(name)),
at loop 3 before:
    let ghost m3 = metric;
@*/
pub open spec fn masked(m: SoftTelemetry, m0: SoftTelemetry, c: StatsdParseConfig, name: Seq<u8>) -> bool {
    match mask_of(c.histogram_masks@, name, 0) {
        None => m == m0,
        Some(i) => m == (SoftTelemetry { kind: Some(AggregationMethod::Histogram), error: None, bounds: m.bounds, ..m0 })
            && m.bounds is Some && m.bounds->0@ == sorted(c.histogram_masks@[i].1@) && m.bounds->0@.len() > 0 && ascending(m.bounds->0@),
    }
}
pub proof fn lits()
    ensures
        sb("+") == seq![43u8], sb("-") == seq![45u8],
        kind_named(Seq::empty()) is None,
{
    broadcast use texts;
    reveal_strlit("+"); reveal_strlit("-");
    reveal_strlit("g"); reveal_strlit("g|"); reveal_strlit("c"); reveal_strlit("c|");
    reveal_strlit("h"); reveal_strlit("h|"); reveal_strlit("ms"); reveal_strlit("ms|");
}
/// the parts of a line as the code cuts them out of the whole line
pub proof fn lemma_parts(l: Seq<u8>)
    ensures
        l.subrange(0, l.len() as int) == l,
        first(l, 58) matches Some(c) ==> 0 <= c < l.len() && l[c] == 58 && l.take(c) == l.subrange(0, c) && ({
            let r = l.subrange(c + 1, l.len() as int);
            first(r, 124) matches Some(p) ==> 0 <= p < r.len() && l[c + 1 + p] == 124 && r.take(p) == l.subrange(c + 1, c + 1 + p)
                && (p > 0 ==> r[0] == l[c + 1] && l.subrange(c + 1, c + 2) == seq![r[0]]) && ({
                let t = r.subrange(p + 1, r.len() as int);
                t == l.subrange(c + p + 2, l.len() as int) && (t.len() == 0 ==> t == Seq::<u8>::empty()) && (first(t, 64) matches Some(k) ==> 0 <= k < t.len() && l[c + p + 2 + k] == 64
                    && t.take(k) == l.subrange(c + p + 2, c + p + 2 + k) && t.subrange(k + 1, t.len() as int) == l.subrange(c + p + k + 3, l.len() as int))
            })
        })
{
    assert(l.subrange(0, l.len() as int) =~= l);
    lemma_first(l, 58);
    if let Some(c) = first(l, 58) {
        assert(l.take(c) =~= l.subrange(0, c));
        let r = l.subrange(c + 1, l.len() as int);
        lemma_first(r, 124);
        if let Some(p) = first(r, 124) {
            assert(r.take(p) =~= l.subrange(c + 1, c + 1 + p));
            let t = r.subrange(p + 1, r.len() as int);
            assert(t =~= l.subrange(c + p + 2, l.len() as int));
            if p > 0 { assert(l.subrange(c + 1, c + 2) =~= seq![r[0]]); }
            if t.len() == 0 { assert(t =~= Seq::<u8>::empty()); }
            lemma_first(t, 64);
            if let Some(k) = first(t, 64) {
                assert(t.take(k) =~= l.subrange(c + p + 2, c + p + 2 + k));
                assert(t.subrange(k + 1, t.len() as int) =~= l.subrange(c + p + k + 3, l.len() as int));
            }
        }
    }
}
// ---- the datagrams
pub mod io {
    #[derive(Clone, Copy)]
    pub enum ErrorKind { WouldBlock, Interrupted, Other }
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Error {
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() }
    }
}
pub use io::ErrorKind;
#[verifier::external_body]
pub struct From_ { _p: () }
#[verifier::external_body]
pub struct Socket { _p: () }
impl Socket {
    /// the datagrams handed out so far
    pub uninterp spec fn got(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn recv_from(&mut self, buf: &mut Vec<u8>) -> (r: Result<(usize, From_), io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(x) => x.0 <= final(buf)@.len() && final(self).got() == old(self).got().push(final(buf)@.take(x.0 as int)),
                Err(_) => final(self).got() == old(self).got(),
            }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn bytes_to(b: &Vec<u8>, n: usize) -> (r: &[u8]) requires n <= b@.len() ensures r@ == b@.take(n as int) { unimplemented!() }
/// the bytes of a text are the text
#[verifier::external_body]
pub fn text_in(b: &[u8]) -> (r: Result<&str, NotUtf8>)
    ensures r is Ok == utf8(b@) is Some, r matches Ok(s) ==> sb(s) == b@
{ unimplemented!() }
/// the lines of a datagram that count: all of a valid one, none of any other
pub open spec fn read_packet(p: Seq<u8>) -> Seq<Line> {
    if utf8(p) is Some && valid(lines(p)) { Seq::new(lines(p).len(), |i: int| read_line(lines(p)[i])->0) } else { Seq::empty() }
}
pub open spec fn read_all(ps: Seq<Seq<u8>>) -> Seq<Line>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else { read_all(ps.drop_last()) + read_packet(ps.last()) }
}
/// what was sent from s0 to s1 are the points of these lines, in order
pub open spec fn sent_for(s0: Seq<Event>, s1: Seq<Event>, ls: Seq<Line>, c: StatsdParseConfig) -> bool {
    &&& s0.is_prefix_of(s1)
    &&& s1.len() == s0.len() + ls.len()
    &&& forall|i: int| s0.len() <= i < s1.len() ==> #[trigger] s1[i] is Telemetry && is_stated(s1[i]->Telemetry_0, ls[i - s0.len()], c)
}
pub proof fn lemma_next(s0: Seq<Event>, s1: Seq<Event>, s2: Seq<Event>, ps: Seq<Seq<u8>>, p: Seq<u8>, c: StatsdParseConfig)
    requires sent_for(s0, s1, read_all(ps), c), sent_for(s1, s2, read_packet(p), c)
    ensures sent_for(s0, s2, read_all(ps.push(p)), c)
{
    assert(ps.push(p).drop_last() =~= ps);
    assert(s0.is_prefix_of(s2)) by { assert(s2.subrange(0, s0.len() as int) =~= s1.subrange(0, s0.len() as int)); }
    assert forall|i: int| s0.len() <= i < s2.len() implies #[trigger] s2[i] is Telemetry && is_stated(s2[i]->Telemetry_0, read_all(ps.push(p))[i - s0.len()], c) by {
        if i < s1.len() { assert(s2[i] == s1[i]); assert(read_all(ps.push(p))[i - s0.len()] == read_all(ps)[i - s0.len()]); }
        else { assert(read_all(ps.push(p))[i - s0.len()] == read_packet(p)[i - s1.len()]); }
    }
}
/*@ item src/source/statsd.rs enum StatsdHandlerErr
@*/
pub struct Statsd { pub parse_config: StatsdParseConfig }
impl Statsd {
/*@ fn src/source/statsd.rs Statsd.handle_datagrams
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    pub fn handle_datagrams(&self, chans: &mut util::Channel, socket: &mut Socket, buf: &mut Vec<u8>) -> (r: Result<(), StatsdHandlerErr>)
rw `socket.recv_from($*a)` => `{ let ghost g = socket.got(); let r = socket.recv_from(buf); proof { if r is Ok { assert(socket.got().skip(got0.len() as int) =~= g.skip(got0.len() as int).push(buf@.take(r->Ok_0.0 as int))); } } r }`
rw `sync::Arc::new($*a)` => `base_new($*a)`
rw `text_of($*a)` => `text_in($*a)`
rw `&mut chans` => `chans`
spec:
    requires sound(self.parse_config)
    ensures
        old(socket).got().is_prefix_of(final(socket).got()),
        sent_for(old(chans).sent(), final(chans).sent(), read_all(final(socket).got().skip(old(socket).got().len() as int)), self.parse_config)
at fn-start:
    let ghost got0 = socket.got();
    let ghost sent0 = chans.sent();
    assert(got0.skip(got0.len() as int) =~= Seq::empty());
loop 1 loop:
    invariant
        sound(self.parse_config), got0 == old(socket).got(), sent0 == old(chans).sent(), like_plain(basic_metric.base()), metrics@.len() == 0,
        got0.is_prefix_of(socket.got()),
        sent_for(sent0, chans.sent(), read_all(socket.got().skip(got0.len() as int)), self.parse_config),
at loop 1 start:
    let ghost sent1 = chans.sent();
    let ghost got1 = socket.got();
at loop 1 end:
    proof {
        lemma_next(sent0, sent1, chans.sent(), got1.skip(got0.len() as int), socket.got().last(), self.parse_config);
    }
loop 2 for iter jt:
    invariant
        jt.seq() == m1, sent_for(sent1, chans.sent(), read_packet(p).take(jt.index() as int), self.parse_config),
        states(lines(p), m1, self.parse_config), p == socket.got().last(), utf8(p) is Some, valid(lines(p)),
at loop 2 before:
    let ghost m1 = metrics@;
    let ghost p = socket.got().last();
    assert(read_packet(p).take(0) =~= Seq::<Line>::empty());
at loop 2 after:
    assert(read_packet(p).take(m1.len() as int) =~= read_packet(p));
@*/
}
fn main() {}
} // verus!
