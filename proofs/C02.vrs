// C02: what a point's value stands for.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {

//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc

/// What inserting one more sample does to a point.
pub open spec fn with_sample(a: Agg, x: f64) -> Agg {
    match a {
        Agg::Set(_) => Agg::Set(x),
        Agg::Sum(s) => Agg::Sum(fadd(s, x)),
        Agg::Hist { data, bounds, sum } => Agg::Hist { data: data.insert(x), bounds, sum: sum_with(sum, x) },
        Agg::Quant { data, sum } => Agg::Quant { data: data.insert(x), sum: fadd(sum, x) },
    }
}
impl Telemetry {
/*@ fn src/metric/telemetry.rs Telemetry.insert
ret: r
spec:
    requires self.ok(), self.override_sample_sum is None, self.override_count is None,
    ensures
        r.ok(), r.agg() == with_sample(self.agg(), value),
        r.name == self.name, r.tags == self.tags, r.timestamp == self.timestamp, r.persist == self.persist,
        r.override_sample_sum is None, r.override_count is None,
at fn-start:
    broadcast use floats;
@*/
/*@ fn src/metric/telemetry.rs Telemetry.sum
ret: r
spec:
    requires self.ok()
    ensures r == (match self.agg() { Agg::Sum(x) => Some(x), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.set
ret: r
spec:
    requires self.ok()
    ensures r == (match self.agg() { Agg::Set(x) => Some(x), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.count
ret: r
spec:
    requires self.ok()
    ensures self.override_count is None ==> r == (match self.agg() { Agg::Set(_) | Agg::Sum(_) => 1, Agg::Hist { data, .. } => data.len(), Agg::Quant { data, .. } => data.len() })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.samples_sum
ret: r
spec:
    requires self.ok()
    ensures r == (match self.agg() { Agg::Set(_) | Agg::Sum(_) => None, Agg::Hist { sum, .. } => sum,
                                     Agg::Quant { sum, .. } => if self.override_sample_sum is Some { self.override_sample_sum } else { Some(sum) } })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.mean
ret: r
spec:
    requires self.ok()
    ensures match self.value->0 {
        Value::Histogram(h) => r == (match h.sum_spec() { Some(s) => fdiv(s, fof(h.data().len() as int)), None => 0.0f64 }),
        Value::Quantiles { ckms, sum } => r == (match ckms.cma_spec() { Some(m) => m, None => 0.0f64 }),
        _ => true }
@*/
/*@ fn src/metric/telemetry.rs Telemetry.query
ret: r
spec:
    requires self.ok()
    ensures r == (match self.value->0 { Value::Quantiles { ckms, sum } => (match ckms.query_spec(prcnt) { Some(q) => Some(q.1), None => None }), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.is_zeroed
ret: r
spec:
    requires self.ok()
    ensures r == (match self.agg() { Agg::Set(x) | Agg::Sum(x) => feq(x, 0.0), Agg::Hist { data, .. } => data.len() == 0, Agg::Quant { data, .. } => data.len() == 0 })
at fn-start:
    broadcast use floats;
@*/
/*@ fn src/metric/telemetry.rs Telemetry.is_set
ret: r
spec:
    requires self.ok()
    ensures r == (self.agg() is Set)
@*/
/*@ fn src/metric/telemetry.rs Telemetry.is_sum
ret: r
spec:
    requires self.ok()
    ensures r == (self.agg() is Sum)
@*/
/*@ fn src/metric/telemetry.rs Telemetry.is_histogram
ret: r
spec:
    requires self.ok()
    ensures r == (self.agg() is Hist)
@*/
/*@ fn src/metric/telemetry.rs Telemetry.is_summarize
ret: r
spec:
    requires self.ok()
    ensures r == (self.agg() is Quant)
@*/
}

/// Sampling is independent of the split into points: adding two points of one kind holds the samples of both.
pub proof fn lemma_plus_counts(a: Agg, b: Agg)
    requires compatible(a, b), kind_of(a) == kind_of(b)
    ensures match (a, b) {
        (Agg::Hist { data: d, .. }, Agg::Hist { data: e, .. }) => plus(a, b)->Hist_data.len() == d.len() + e.len(),
        (Agg::Quant { data: d, .. }, Agg::Quant { data: e, .. }) => plus(a, b)->Quant_data.len() == d.len() + e.len(),
        _ => true }
{
    broadcast use vstd::multiset::group_multiset_axioms;
}
/// The result of an addition is of the right operand's kind.
pub proof fn lemma_plus_kind(a: Agg, b: Agg)
    ensures kind_of(plus(a, b)) == kind_of(b)
{}

fn main() {}
} // verus!
