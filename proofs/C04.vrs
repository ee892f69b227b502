// C04: graphite.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
global size_of usize == 8;
//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc
//@include inc/build.inc
#[verifier::external_body]
pub struct LogLine { _p: () }
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct Uuid { _p: () }
#[verifier::external_body]
pub struct Encoding { _p: () }
/*@ item src/metric/event.rs enum Event
@*/
pub mod metric { pub use super::{Event, Telemetry}; }
//@include inc/source.inc

/// what white space separates
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn num(s: Seq<char>) -> Option<f64>;
pub uninterp spec fn int(s: Seq<char>) -> Option<i64>;
#[verifier::external_body]
pub struct Words<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> Words<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(w) => old(self).rest().len() > 0 && w@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn words_of<'a>(s: &'a str) -> (r: Words<'a>) ensures r.rest() == words(s@) { unimplemented!() }
pub struct BadNumber {}
#[verifier::external_body]
pub fn f64_from(s: &str) -> (r: Result<f64, BadNumber>)
    ensures match num(s@) { Some(x) => r == Ok::<f64, BadNumber>(x), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn i64_from(s: &str) -> (r: Result<i64, BadNumber>)
    ensures match int(s@) { Some(x) => r == Ok::<i64, BadNumber>(x), None => r is Err }
{ unimplemented!() }

//@include inc/pt.inc
/// the point stated by `name value timestamp`, with the tags and persistence of the source's own point
pub open spec fn stated(name: Seq<char>, x: f64, ts: i64, base: Telemetry) -> Pt {
    Pt { name, agg: Agg::Set(x), timestamp: ts, tags: base.tags, persist: base.persist }
}
pub open spec fn triple_ok(w: Seq<Seq<char>>, i: int) -> bool {
    3 * i + 2 < w.len() && num(w[3 * i + 1]) is Some && int(w[3 * i + 2]) is Some
}
pub open spec fn triple(w: Seq<Seq<char>>, i: int, base: Telemetry) -> Pt {
    stated(w[3 * i], num(w[3 * i + 1])->0, int(w[3 * i + 2])->0, base)
}
/// the words are a whole number of valid triples, and at least one
pub open spec fn valid(w: Seq<Seq<char>>) -> bool {
    w.len() > 0 && forall|i: int| 0 <= i && 3 * i < w.len() ==> #[trigger] triple_ok(w, i)
}
pub open spec fn points(w: Seq<Seq<char>>, base: Telemetry) -> Seq<Pt> {
    Seq::new((w.len() / 3) as nat, |i: int| triple(w, i, base))
}

/*@ fn src/protocols/graphite.rs parse_graphite
ret: r
attr: #[verifier::exec_allows_no_decreases_clause]
rw `source.split_whitespace()` => `words_of(source)`
rw `f64::from_str($*a)` => `f64_from($*a)`
rw `i64::from_str($*a)` => `i64_from($*a)`
rw `$a.parse::<f64>()` => `f64_from($a)`
rw `$a.parse::<i64>()` => `i64_from($a)`
rw `sync::Arc::make_mut(&mut sync::Arc::clone($*a)).take().unwrap()` => `base_of($*a)`
rw `sync::Arc<Option<Telemetry>>` => `Base`
rw `res.push($*e)` => `{ let ghost n = i; let m = $*e; proof { broadcast use strings; assert(i == n && pt(m) == triple(w, n, base)); } res.push(m) }`
spec:
    requires metric.base().ok()
    ensures
        final(res)@.len() >= old(res)@.len(),
        final(res)@.take(old(res)@.len() as int) == old(res)@,
        old(res)@.len() == 0 ==> r == valid(words(source@)),
        old(res)@.len() == 0 && r ==> pts(final(res)@) == points(words(source@), metric.base()),
at fn-start:
    let ghost w = words(source@);
    let ghost base = metric.base();
    let ghost r0 = res@;
    let ghost mut i: int = 0;
    assert(w.skip(0) =~= w);
loop 1 while:
    invariant
        w == words(source@), base == metric.base(), base.ok(), r0 == old(res)@,
        0 <= i, 3 * i <= w.len(), iter.rest() == w.skip(3 * i),
        res@.len() == r0.len() + i, res@.take(r0.len() as int) == r0,
        forall|j: int| 0 <= j < i ==> #[trigger] triple_ok(w, j),
        forall|k: int| r0.len() <= k < res@.len() ==> pt(#[trigger] res@[k]) == triple(w, k - r0.len(), base),
    ensures iter.rest().len() == 0,
at loop 1 start:
    let ghost here = triple_ok(w, i);
    assert(here == triple_ok(w, i));
    assert(w.skip(3 * i).skip(1) =~= w.skip(3 * i + 1));
    assert(3 * i + 2 <= w.len() ==> w.skip(3 * i + 1).skip(1) =~= w.skip(3 * i + 2));
    assert(3 * i + 3 <= w.len() ==> w.skip(3 * i + 2).skip(1) =~= w.skip(3 * i + 3));
at loop 1 end:
    proof { i = i + 1; }
at loop 1 after:
    assert(old(res)@.len() == 0 ==> pts(res@) =~= points(w, base));
@*/

// ---- the stream

/// A buffered reader: `taken` is every byte handed out so far, `ended` that there will be no more.
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { _p: std::marker::PhantomData<R> }
pub struct ReadError {}
pub open spec fn newline_free(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 10u8 }
pub open spec fn is_line(s: Seq<u8>) -> bool { s.len() > 0 && s.last() == 10u8 && newline_free(s.drop_last()) }
impl BufReader<mio::net::TcpStream> {
    pub uninterp spec fn taken(&self) -> Seq<u8>;
    pub uninterp spec fn all(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(s: mio::net::TcpStream) -> (r: BufReader<mio::net::TcpStream>)
        ensures r.taken().len() == 0, r.all() == s.all()
    { unimplemented!() }
    // reads up to and including the next newline; what came before a failure (there may be more to come)
    // or the end of the stream is in the buffer
    #[verifier::external_body]
    pub fn read_until(&mut self, b: u8, to: &mut Vec<u8>) -> (r: Result<usize, ReadError>)
        requires b == 10u8
        ensures
            final(self).all() == old(self).all(),
            final(self).taken().is_prefix_of(final(self).all()),
            exists|d: Seq<u8>| final(self).taken() == #[trigger] (old(self).taken() + d) && final(to)@ == old(to)@ + d && match r {
                Ok(n) => d.len() == n && (is_line(d) || (newline_free(d) && final(self).taken() == final(self).all())),
                Err(_) => newline_free(d),
            }
    { unimplemented!() }
}
pub open spec fn flat(ls: Seq<Seq<u8>>) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { flat(ls.drop_last()) + ls.last() }
}
/// what a line contributes: its points, if it is valid text stating valid points, and nothing otherwise
pub open spec fn line_points(l: Seq<u8>, base: Pt) -> Seq<Pt> {
    match utf8(l) {
        Some(s) => if valid(words(s)) { points_like(words(s), base) } else { Seq::empty() },
        None => Seq::empty(),
    }
}
pub open spec fn points_like(w: Seq<Seq<char>>, base: Pt) -> Seq<Pt> {
    Seq::new((w.len() / 3) as nat, |i: int| Pt { name: w[3 * i], agg: Agg::Set(num(w[3 * i + 1])->0), timestamp: int(w[3 * i + 2])->0, tags: base.tags, persist: base.persist })
}
pub open spec fn all_points(ls: Seq<Seq<u8>>, base: Pt) -> Seq<Pt>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { all_points(ls.drop_last(), base) + line_points(ls.last(), base) }
}
/// the lines of a stream: each ends at a newline, or at the end of the stream
pub open spec fn are_lines(ls: Seq<Seq<u8>>, all: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < ls.len() ==> is_line(#[trigger] ls[i]) || (newline_free(ls[i]) && i == ls.len() - 1 && flat(ls) == all)
}
/// every point stated by the lines taken so far, in order, was sent on; and nothing else
pub open spec fn forwarded(all: Seq<u8>, before: Seq<Event>, after: Seq<Event>) -> bool {
    exists|ls: Seq<Seq<u8>>, rest: Seq<u8>, new: Seq<Event>|
        (#[trigger] (flat(ls) + rest)).is_prefix_of(all) && newline_free(rest) && are_lines(ls, all)
        && after == #[trigger] (before + new)
        && (forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] is Telemetry)
        && sent_pts(new) == all_points(ls, plain())
}
pub struct GraphiteStreamHandler;
impl GraphiteStreamHandler {
/*@ fn src/source/graphite.rs TCPStreamHandler@GraphiteStreamHandler.handle_stream
attr: #[verifier::exec_allows_no_decreases_clause]
sig:
    fn handle_stream(&mut self, chans: &mut util::Channel, poller: &mio::Poll, stream: mio::net::TcpStream)
rw `sync::Arc::new($*a)` => `base_new($*a)`
rw `&mut chans` => `chans`
rw `line_reader.read_until($*a)` => `{ let ghost l0 = line@; let ghost t0 = line_reader.taken(); let r = line_reader.read_until($*a); proof { let d = choose|d: Seq<u8>| line_reader.taken() == #[trigger] (t0 + d) && line@ == l0 + d && match r { Ok(n) => d.len() == n && (is_line(d) || (newline_free(d) && line_reader.taken() == line_reader.all())), Err(_) => newline_free(d) }; assert(flat(ls) + l0 + d =~= flat(ls) + (l0 + d)); if is_line(d) { assert((l0 + d).drop_last() =~= l0 + d.drop_last()); } } r }`
spec:
    ensures forwarded(stream.all(), old(chans).sent(), final(chans).sent())
at fn-start:
    let ghost all = stream.all();
    let ghost sent0 = chans.sent();
    let ghost mut ls: Seq<Seq<u8>> = Seq::empty();
    proof {
        assert(flat(ls) + Seq::<u8>::empty() =~= Seq::<u8>::empty());
        assert(sent_pts(chans.sent().skip(sent0.len() as int)) =~= all_points(ls, plain()));
        assert(chans.sent().take(sent0.len() as int) =~= sent0);
    }
loop 1 loop:
    invariant
        all == stream.all(), sent0 == old(chans).sent(), like_plain(basic_metric.base()),
        line_reader.all() == all, line_reader.taken().is_prefix_of(all), line_reader.taken() == flat(ls) + line@, newline_free(line@),
        are_lines(ls, all), res@.len() == 0, so_far(sent0, chans.sent(), ls),
loop 2 for iter it:
    invariant
        all == stream.all(), sent0 == old(chans).sent(), like_plain(basic_metric.base()),
        line_reader.all() == all, line_reader.taken().is_prefix_of(all), line_reader.taken() == flat(ls) + line@, newline_free(line@),
        are_lines(ls, all), res@.len() == 0, so_far(sent0, chans.sent(), ls),
at loop 2 start:
    proof { lemma_forwarded(all, sent0, chans.sent(), ls, line@); }
loop 3 while:
    invariant
        all == stream.all(), sent0 == old(chans).sent(), like_plain(basic_metric.base()),
        line_reader.all() == all, line_reader.taken().is_prefix_of(all), line_reader.taken() == flat(ls) + line@, newline_free(line@),
        are_lines(ls, all), res@.len() == 0, so_far(sent0, chans.sent(), ls),
at loop 3 start:
    let ghost l1 = line@;
    let ghost sent1 = chans.sent();
    proof {
        lemma_like(words(utf8(l1)->0), basic_metric.base());
        if l1.len() > 0 { lemma_line(ls, l1, all, line_reader.taken()); }
        assert(sent_pts(sent1.skip(sent1.len() as int)) =~= Seq::<Pt>::empty());
    }
at loop 3 end:
    proof {
        lemma_more(sent0, sent1, chans.sent(), ls, l1);
        ls = ls.push(l1);
        assert(flat(ls) + Seq::<u8>::empty() =~= flat(ls));
    }
at loop 4 before:
    let ghost r1 = res@;
    assert(pts(r1.take(0)) =~= Seq::<Pt>::empty());
loop 4 for iter jt:
    invariant
        jt.seq() == r1, sent_more(sent1, chans.sent(), pts(r1.take(jt.index() as int))),
at loop 4 start:
    proof { assert(r1.take(jt.index() + 1) =~= r1.take(jt.index() as int).push(m)); lemma_push(sent1, chans.sent(), r1.take(jt.index() as int), m); }
at loop 4 after:
    assert(r1.take(r1.len() as int) =~= r1);
@*/
}
pub open spec fn so_far(s0: Seq<Event>, s1: Seq<Event>, ls: Seq<Seq<u8>>) -> bool { sent_more(s0, s1, all_points(ls, plain())) }
pub proof fn lemma_like(w: Seq<Seq<char>>, t: Telemetry)
    requires like_plain(t)
    ensures points(w, t) == points_like(w, plain()), valid(w) ==> points(w, t).len() > 0
{
    if valid(w) { assert(3 * 0 < w.len()); assert(triple_ok(w, 0)); assert(w.len() >= 3); } assert(points(w, t) =~= points_like(w, plain())); }
pub proof fn lemma_line(ls: Seq<Seq<u8>>, l: Seq<u8>, all: Seq<u8>, taken: Seq<u8>)
    requires are_lines(ls, all), taken == flat(ls) + l, taken.is_prefix_of(all), l.len() > 0, is_line(l) || (newline_free(l) && taken == all)
    ensures are_lines(ls.push(l), all), flat(ls.push(l)) == taken
{
    assert(ls.push(l).drop_last() =~= ls);
    assert forall|i: int| 0 <= i < ls.push(l).len() implies is_line(#[trigger] ls.push(l)[i]) || (newline_free(ls.push(l)[i]) && i == ls.push(l).len() - 1 && flat(ls.push(l)) == all) by {
        if i < ls.len() {
            assert(ls.push(l)[i] == ls[i]);
            // had the stream ended before, there would be no further line
            if !is_line(ls[i]) { assert(flat(ls) == all); assert(taken.len() <= all.len()); }
        }
    }
}
pub proof fn lemma_more(s0: Seq<Event>, s1: Seq<Event>, s2: Seq<Event>, ls: Seq<Seq<u8>>, l: Seq<u8>)
    requires so_far(s0, s1, ls), sent_more(s1, s2, line_points(l, plain()))
    ensures so_far(s0, s2, ls.push(l))
{
    assert(ls.push(l).drop_last() =~= ls);
    assert(s2.skip(s0.len() as int) =~= s1.skip(s0.len() as int) + s2.skip(s1.len() as int)) by { assert(s1 =~= s2.take(s1.len() as int)); }
    assert(sent_pts(s2.skip(s0.len() as int)) =~= sent_pts(s1.skip(s0.len() as int)) + sent_pts(s2.skip(s1.len() as int)));
    assert(s0.is_prefix_of(s2)) by { assert(s2.subrange(0, s0.len() as int) =~= s1.subrange(0, s0.len() as int)); }
    assert forall|i: int| s0.len() <= i < s2.len() implies #[trigger] s2[i] is Telemetry by { if i < s1.len() { assert(s2[i] == s1[i]); } }
}
pub proof fn lemma_forwarded(all: Seq<u8>, s0: Seq<Event>, s1: Seq<Event>, ls: Seq<Seq<u8>>, rest: Seq<u8>)
    requires so_far(s0, s1, ls), (flat(ls) + rest).is_prefix_of(all), newline_free(rest), are_lines(ls, all)
    ensures forwarded(all, s0, s1)
{
    let new = s1.skip(s0.len() as int);
    assert(s1 =~= s0 + new);
    assert(forall|i: int| 0 <= i < new.len() ==> #[trigger] new[i] == s1[s0.len() + i]);
}
fn main() {}
} // verus!
