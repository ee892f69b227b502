// C16: what the console sink holds, prints and lets go.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/shown.inc
//@include inc/points.inc
pub enum Valve { Open, Closed }
/*@ item src/metric/logline.rs struct LogLine
@*/
pub uninterp spec fn line_tags(l: LogLine, over: TagMap) -> Pairs;
impl LogLine {
    #[verifier::external_body]
    pub fn tags(&self, over: &TagMap) -> (r: Vec<(String, String)>) ensures pairs(r@) == line_tags(*self, *over) { unimplemented!() }
}
/*@ rewrites
rw `$x.to_string()` => `$x.shown()`
rw `$A.fetch_add($*a)` => `()`
rw `$A.store($*a);` => ``
rw `use crate::metric::AggregationMethod;` => ``
rw `use quantiles::histogram::Bound;` => ``
@*/

// ================================================================ console
pub mod console {
use super::*;
/// the aggregation (C01 proves what it does with the points it is given)
#[verifier::external_body]
pub struct Buckets { _p: () }
#[verifier::external_body]
pub struct BState { _p: () }
pub uninterp spec fn b_new(width: i64) -> BState;
pub uninterp spec fn b_add(b: BState, t: Telemetry) -> BState;
pub uninterp spec fn b_reset(b: BState) -> BState;
pub uninterp spec fn b_points(b: BState) -> Seq<Telemetry>;
impl Buckets {
    pub uninterp spec fn st(&self) -> BState;
    #[verifier::external_body]
    pub fn new(w: i64) -> (r: Buckets) ensures r.st() == b_new(w) { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, t: Telemetry) ensures final(self).st() == b_add(old(self).st(), t) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).st() == b_reset(old(self).st()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<&Telemetry>)
        ensures r@.len() == b_points(self.st()).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == b_points(self.st())[i]
    { unimplemented!() }
}
/// the standard output
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn out(&self) -> Text; }
#[verifier::external_body]
pub fn print(s: &str, w: &mut World) ensures final(w).out() == old(w).out() + s@ { unimplemented!() }
#[verifier::external_body]
pub fn println(s: &str, w: &mut World) ensures final(w).out() == old(w).out() + (s@ + seq!['\n']) { unimplemented!() }
/// println!("... {}", Utc::now().to_rfc3339()), where the text goes into the place of the {}
#[verifier::external_body]
pub fn println_now(s: &str, w: &mut World) -> (t: Ghost<Text>)
    ensures final(w).out() == old(w).out() + stamped(s@, t@)
{ unimplemented!() }
pub uninterp spec fn stamped(s: Text, t: Text) -> Text;
/// print!("{} {}: {}")
#[verifier::external_body]
pub fn print_head(t: String, p: &String, v: &String, w: &mut World)
    ensures final(w).out() == old(w).out() + (t@ + (" "@ + (p@ + (": "@ + v@))))
{ unimplemented!() }
/// print!(" {}={}")
#[verifier::external_body]
pub fn print_tag(k: String, v: String, w: &mut World)
    ensures final(w).out() == old(w).out() + (" "@ + (k@ + ("="@ + v@)))
{ unimplemented!() }
pub uninterp spec fn moment_text(time: i64) -> Text;
#[verifier::external_body]
pub fn format_time(time: i64) -> (r: String) ensures r@ == moment_text(time) { unimplemented!() }

pub open spec fn tag_text(p: Pairs) -> Text
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { tag_text(p.drop_last()) + (" "@ + (p.last().0 + ("="@ + p.last().1))) } }
pub open spec fn line_text(l: LogLine, over: TagMap) -> Text {
    (moment_text(l.time) + (" "@ + (l.path@ + (": "@ + l.value@)))) + (tag_text(line_tags(l, over)) + (""@ + seq!['\n']))
}
pub open spec fn lines_text(b: Seq<LogLine>, over: TagMap) -> Text
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { lines_text(b.drop_last(), over) + line_text(b.last(), over) } }
pub open spec fn single(t: Telemetry, v: Option<f64>) -> Text {
    match v { Some(x) => "    "@ + (t.name@ + ("("@ + (text_int(t.timestamp as int) + ("): "@ + (text_f64(x) + "\n"@))))), None => Seq::empty() }
}
pub open spec fn bin_name(b: Bound) -> Text { match b { Bound::Finite(x) => text_f64(x), Bound::PosInf => "pos_inf"@ } }
pub open spec fn bins_text(t: Telemetry, b: Seq<(Bound, usize)>) -> Text
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else {
        bins_text(t, b.drop_last()) + ("    "@ + (t.name@ + ("_"@ + (bin_name(b.last().0) + ("("@ + (text_int(t.timestamp as int)
            + ("): "@ + (text_int(b.last().1 as int) + "\n"@))))))))
    }
}
pub proof fn lemma_cat8(z: Text, a: Text, b: Text, c: Text, d: Text, e: Text, f: Text, g: Text, h: Text, i: Text)
    ensures z + a + b + c + d + e + f + g + h + i == z + (a + (b + (c + (d + (e + (f + (g + (h + i))))))))
{ assert(z + a + b + c + d + e + f + g + h + i =~= z + (a + (b + (c + (d + (e + (f + (g + (h + i))))))))); }
pub open spec fn stats() -> Seq<(Text, f64)> {
    seq![("min"@, 0.0f64), ("max"@, 1.0f64), ("50"@, 0.5f64), ("90"@, 0.90f64), ("99"@, 0.99f64), ("999"@, 0.999f64)]
}
pub open spec fn stat_text(t: Telemetry, s: (Text, f64)) -> Text {
    match t.query_of(s.1) { Some(x) => "    "@ + (t.name@ + (": "@ + (s.0 + (" "@ + (text_f64(x) + "\n"@))))), None => Seq::empty() }
}
pub open spec fn stats_text(t: Telemetry, s: Seq<(Text, f64)>) -> Text
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { stats_text(t, s.drop_last()) + stat_text(t, s.last()) } }
pub open spec fn point_text(t: Telemetry) -> Text {
    match t.kind_of() {
        AggregationMethod::Sum => single(t, t.sum_of()),
        AggregationMethod::Set => single(t, t.set_of()),
        AggregationMethod::Histogram => match t.bins_of() { Some(b) => bins_text(t, b), None => Seq::empty() },
        AggregationMethod::Summarize => stats_text(t, stats()),
    }
}
/// the points of one kind
pub open spec fn points_text(p: Seq<Telemetry>, k: AggregationMethod) -> Text
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { points_text(p.drop_last(), k) + if p.last().kind_of() == k { point_text(p.last()) } else { Seq::empty() } } }
pub open spec fn metrics_text(p: Seq<Telemetry>) -> Text {
    ("  sums:"@ + seq!['\n']) + (points_text(p, AggregationMethod::Sum)
    + (("  sets:"@ + seq!['\n']) + (points_text(p, AggregationMethod::Set)
    + (("  summaries:"@ + seq!['\n']) + (points_text(p, AggregationMethod::Summarize)
    + (("  histograms:"@ + seq!['\n']) + points_text(p, AggregationMethod::Histogram)))))))
}
/// every line once, then every point once
pub open spec fn printed(a: Text, b: Text, lines: Seq<LogLine>, over: TagMap, points: Seq<Telemetry>) -> bool {
    exists|t: Text, u: Text| b == a + #[trigger] stamped("Flushing lines: {}"@, t) + (lines_text(lines, over) + (#[trigger] stamped("Flushing metrics: {}"@, u) + metrics_text(points)))
}
pub open spec fn views(s: Seq<(&str, f64)>) -> Seq<(Text, f64)> { s.map_values(|p: (&str, f64)| (p.0@, p.1)) }
/*@ item src/sink/console.rs struct Console
@*/
/*@ item src/sink/console.rs struct ConsoleConfig
@*/
impl Console {
/*@ fn src/sink/console.rs Sink@Console.init
ret: r
rw `Vec::new()` => `Vec::new()`
spec:
    ensures r.aggrs.st() == b_new(config.bin_width), r.buffer@.len() == 0, r.flush_interval == config.flush_interval, r.tags == config.tags
@*/
/*@ fn src/sink/console.rs Sink@Console.valve_state
ret: r
spec:
    ensures r is Open
@*/
/*@ fn src/sink/console.rs Sink@Console.flush_interval
ret: r
spec:
    ensures r == Some(self.flush_interval)
@*/
/*@ fn src/sink/console.rs Sink@Console.deliver
spec:
    ensures *final(self) == (Console { aggrs: final(self).aggrs, ..*old(self) }), final(self).aggrs.st() == b_add(old(self).aggrs.st(), point)
@*/
/*@ fn src/sink/console.rs Sink@Console.deliver_line
spec:
    ensures *final(self) == (Console { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == old(self).buffer@.push(line)
at fn-end:
    assert(self.buffer@ =~= old(self).buffer@.push(line));
@*/
/*@ fn src/sink/console.rs Sink@Console.shutdown
sig:
    fn shutdown(self, w: &mut World)
rw `self.flush()` => `self.flush(w)`
spec:
    ensures printed(old(w).out(), final(w).out(), self.buffer@, self.tags, b_points(self.aggrs.st())),
@*/
/*@ fn src/sink/console.rs Sink@Console.flush
sig:
    fn flush(&mut self, w: &mut World)
rw `println!($s, Utc::now().to_rfc3339())` => `{ let g = println_now($s, w); proof { stamps = stamps.push(g@); } }`
rw `print!("{} {}: {}", $*t, $*p, $*v)` => `print_head($*t, &$*p, &$*v, w)`
rw `print!(" {}={}", $*k, $*v)` => `print_tag($*k, $*v, w)`
rw `println!()` => `println("", w)`
rw `println!($s)` => `println($s, w)`
rw `print!("{}", $s)` => `print($s.as_str(), w)`
rw `in &self.buffer` => `in self.buffer.iter()`
rw `for tup in &[$*a] {` => `for tup in vec![$*a] {`
spec:
    ensures
        *final(self) == (Console { aggrs: final(self).aggrs, buffer: final(self).buffer, ..*old(self) }),
        final(self).buffer@.len() == 0, final(self).aggrs.st() == b_reset(old(self).aggrs.st()),
        printed(old(w).out(), final(w).out(), old(self).buffer@, old(self).tags, b_points(old(self).aggrs.st())),
at fn-start:
    broadcast use cats;
    let ghost o = *self;
    let ghost pts = b_points(self.aggrs.st());
    let ghost mut stamps: Seq<Text> = Seq::empty();
at fn-end:
    proof { assert(w.out() == old(w).out() + stamped("Flushing lines: {}"@, stamps[0]) + (lines_text(o.buffer@, o.tags) + (stamped("Flushing metrics: {}"@, stamps[1]) + metrics_text(pts)))); }
loop 1 for iter it:
    invariant
        *self == o, it.seq().len() == o.buffer@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == o.buffer@[i],
        w.out() == w1 + lines_text(o.buffer@.take(it.index() as int), o.tags),
at loop 1 before:
    let ghost w1 = w.out();
at loop 1 start:
    broadcast use cats;
    let ghost w2 = w.out();
    proof { assert(o.buffer@.take(it.index() + 1).drop_last() =~= o.buffer@.take(it.index() as int)); }
at loop 1 end:
    assert(w.out() == w2 + line_text(*line, o.tags));
at loop 1 after:
    proof { assert(o.buffer@.take(o.buffer@.len() as int) =~= o.buffer@); }
loop 2 for iter ti:
    invariant
        pairs(ti.seq()) == line_tags(*line, o.tags),
        w.out() == w3 + tag_text(pairs(ti.seq()).take(ti.index() as int)),
at loop 2 before:
    let ghost w3 = w.out();
at loop 2 start:
    broadcast use cats;
    proof { let p = pairs(ti.seq()); assert(p.take(ti.index() + 1).drop_last() =~= p.take(ti.index() as int)); }
at loop 2 after:
    proof { let p = line_tags(*line, o.tags); assert(p.take(p.len() as int) =~= p); }
loop 3 for iter pi:
    invariant
        pi.seq().len() == pts.len(), forall|i: int| 0 <= i < pi.seq().len() ==> *(#[trigger] pi.seq()[i]) == pts[i],
        sums@ == points_text(pts.take(pi.index() as int), AggregationMethod::Sum),
        sets@ == points_text(pts.take(pi.index() as int), AggregationMethod::Set),
        summaries@ == points_text(pts.take(pi.index() as int), AggregationMethod::Summarize),
        histograms@ == points_text(pts.take(pi.index() as int), AggregationMethod::Histogram),
at loop 3 start:
    broadcast use cats;
    let ghost n = pi.index() as int;
    proof { assert(pts.take(n + 1).drop_last() =~= pts.take(n)); assert(*telem == pts[n]); }
at loop 3 after:
    proof { assert(pts.take(pts.len() as int) =~= pts); }
loop 4 for iter bi:
    invariant
        telem.bins_of() == Some(bi.seq()),
        tgt@ == h0 + bins_text(*telem, bi.seq().take(bi.index() as int)),
at loop 4 before:
    let ghost h0 = tgt@;
at loop 4 start:
    let ghost h1 = tgt@;
    proof { assert(bi.seq().take(bi.index() + 1).drop_last() =~= bi.seq().take(bi.index() as int)); }
at loop 4 end:
    proof {
        lemma_cat8(h1, "    "@, telem.name@, "_"@, bin_name(bound), "("@, text_int(telem.timestamp as int), "): "@, text_int(val as int), "\n"@);
        lemma_cat(h0, bins_text(*telem, bi.seq().take(bi.index() as int)), bins_text(*telem, bi.seq().take(bi.index() + 1)));
        let x = ("    "@ + (telem.name@ + ("_"@ + (bin_name(bound) + ("("@ + (text_int(telem.timestamp as int) + ("): "@ + (text_int(val as int) + "\n"@))))))));
        lemma_cat(h0, bins_text(*telem, bi.seq().take(bi.index() as int)), x);
    }
at loop 4 after:
    proof { let b = telem.bins_of()->0; assert(b.take(b.len() as int) =~= b); }
loop 5 for iter si:
    invariant
        views(si.seq()) == stats(),
        tgt@ == s0 + stats_text(*telem, stats().take(si.index() as int)),
at loop 5 before:
    let ghost s0 = tgt@;
at loop 5 start:
    broadcast use cats;
    proof { assert(stats().take(si.index() + 1).drop_last() =~= stats().take(si.index() as int)); assert(views(si.seq())[si.index() as int] == stats()[si.index() as int]); }
at loop 5 after:
    proof { assert(stats().take(stats().len() as int) =~= stats()); }
@*/
}
}

// ================================================================ null
pub mod null {
use super::*;
/*@ item src/sink/null.rs struct Null
@*/
impl Null {
/*@ fn src/sink/null.rs Sink@Null.valve_state
ret: r
spec:
    ensures r is Open
@*/
/*@ fn src/sink/null.rs Sink@Null.flush_interval
ret: r
spec:
    ensures r == Some(1u64)
@*/
/*@ fn src/sink/null.rs Sink@Null.flush
spec:
    ensures *final(self) == *old(self)
@*/
}
}
fn main() {}
}
