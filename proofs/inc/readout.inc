// what can be read out of a point
/// how many samples a point holds, or says it holds
pub open spec fn n_of(t: Telemetry) -> usize {
    match t.override_count { Some(n) => n as usize, None => match t.agg() { Agg::Hist { data, .. } => data.len() as usize, Agg::Quant { data, .. } => data.len() as usize, _ => 1 } }
}
#[derive(Clone, Copy)]
pub enum Bound { Finite(f64), PosInf }
pub uninterp spec fn hist_bins(h: Histogram<f64>) -> Seq<(Bound, usize)>;
pub open spec fn tally(b: Seq<(Bound, usize)>) -> int
    decreases b.len()
{ if b.len() == 0 { 0 } else { tally(b.drop_last()) + b.last().1 } }
pub proof fn lemma_tally(b: Seq<(Bound, usize)>, n: int)
    requires 0 <= n <= b.len()
    ensures 0 <= tally(b.take(n)) <= tally(b)
    decreases b.len()
{
    if n < b.len() { lemma_tally(b.drop_last(), n); assert(b.drop_last().take(n) =~= b.take(n)); }
    else { assert(b.take(n) =~= b); if n > 0 { lemma_tally(b.drop_last(), n - 1); assert(b.drop_last().take(n - 1) =~= b.drop_last()); } }
}
/// a sketch with a sample in it answers
pub broadcast axiom fn ax_query(c: CKMS<f64>, q: f64)
    ensures c.data().len() > 0 ==> (#[trigger] c.query_spec(q)) is Some;
pub open spec fn queried(t: Telemetry, q: f64) -> f64 {
    match t.value->0 { Value::Quantiles { ckms, sum } => (ckms.query_spec(q)->0).1, _ => arbitrary() }
}
impl Telemetry {
/*@ fn src/metric/telemetry.rs Telemetry.count
ret: r
spec:
    requires self.ok()
    ensures r == n_of(*self)
@*/
/*@ fn src/metric/telemetry.rs Telemetry.sum
ret: r
spec:
    requires self.ok()
    ensures r == (match self.agg() { Agg::Sum(x) => Some(x), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.set
ret: r
spec:
    requires self.ok()
    ensures r == (match self.agg() { Agg::Set(x) => Some(x), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.query
ret: r
spec:
    requires self.ok()
    ensures r == (match self.value->0 { Value::Quantiles { ckms, sum } => (match ckms.query_spec(prcnt) { Some(q) => Some(q.1), None => None }), _ => None })
@*/
    /// the bins of a histogram, whose counts add up to the number of its samples
    #[verifier::external_body]
    pub fn bins(&self) -> (r: Option<Vec<(Bound, usize)>>)
        requires self.ok()
        ensures match self.value->0 { Value::Histogram(h) => r is Some && r->0@ == hist_bins(h) && tally(r->0@) <= usize::MAX, _ => r is None }
    { unimplemented!() }
}
