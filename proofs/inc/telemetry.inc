// ---- the quantiles crate, by its documented interface: what a sketch has been given

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CKMS<T> { _p: std::marker::PhantomData<T> }
pub uninterp spec fn ckms_stored(m: Multiset<f64>) -> Seq<f64>;
impl CKMS<f64> {
    /// every value ever inserted
    pub uninterp spec fn data(&self) -> Multiset<f64>;
    pub uninterp spec fn cma_spec(&self) -> Option<f64>;
    pub uninterp spec fn query_spec(&self, q: f64) -> Option<(usize, f64)>;
    // the constructor's own precondition, which panics otherwise
    #[verifier::external_body]
    pub fn new(error: f64) -> (r: CKMS<f64>)
        requires !fge(error, 1.0)
        ensures r.data() == Multiset::<f64>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: f64)
        ensures final(self).data() == old(self).data().insert(v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn merge(&mut self, rhs: CKMS<f64>)
        ensures final(self).data() == old(self).data().add(rhs.data())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize)
        ensures r == self.data().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cma(&self) -> (r: Option<f64>) ensures r == self.cma_spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self, q: f64) -> (r: Option<(usize, f64)>) ensures r == self.query_spec(q) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<f64>) ensures r@ == ckms_stored(self.data()) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Histogram<T> { _p: std::marker::PhantomData<T> }
#[derive(Debug)]
#[verifier::external_body]
pub struct HistError { _p: () }
pub open spec fn sum_with(s: Option<f64>, v: f64) -> Option<f64> {
    match s { None => Some(v), Some(x) => Some(fadd(x, v)) }
}
pub open spec fn sum_merge(s: Option<f64>, t: Option<f64>) -> Option<f64> {
    match (s, t) { (None, y) => y, (x, None) => x, (Some(x), Some(y)) => Some(fadd(x, y)) }
}
impl Histogram<f64> {
    pub uninterp spec fn data(&self) -> Multiset<f64>;
    pub uninterp spec fn bounds(&self) -> Seq<f64>;
    pub uninterp spec fn sum_spec(&self) -> Option<f64>;
    #[verifier::external_body]
    pub fn new(bounds: Vec<f64>) -> (r: Result<Histogram<f64>, HistError>)
        ensures
            bounds@.len() > 0 && ascending(bounds@) ==> r is Ok,
            r is Ok ==> r->Ok_0.data() == Multiset::<f64>::empty() && r->Ok_0.sum_spec() is None && r->Ok_0.bounds() == bounds@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: f64)
        ensures
            final(self).data() == old(self).data().insert(v), final(self).bounds() == old(self).bounds(),
            final(self).sum_spec() == sum_with(old(self).sum_spec(), v),
    { unimplemented!() }
    // the crate asserts that both sides have the same bins
    #[verifier::external_body]
    pub fn merge(&mut self, rhs: Histogram<f64>)
        requires old(self).bounds() == rhs.bounds()
        ensures
            final(self).data() == old(self).data().add(rhs.data()), final(self).bounds() == old(self).bounds(),
            final(self).sum_spec() == sum_merge(old(self).sum_spec(), rhs.sum_spec()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(&self) -> (r: Option<f64>)
        ensures r == self.sum_spec(), r is Some ==> self.data().len() > 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize) ensures r == self.data().len() { unimplemented!() }
}
pub open spec fn ascending(s: Seq<f64>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> fle(#[trigger] s[i], #[trigger] s[j])
}

// ---- points

/*@ item src/metric/telemetry.rs enum AggregationMethod
@*/
impl Copy for AggregationMethod {}
impl Clone for AggregationMethod {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl AggregationMethod {
    // derive(PartialEq) on an enum without fields
    #[verifier::external_body]
    pub fn same(&self, other: &AggregationMethod) -> (r: bool) ensures r == (*self == *other) { unimplemented!() }
}
/*@ item src/metric/telemetry.rs enum Value
@*/
/*@ item src/metric/telemetry.rs struct SoftTelemetry
@*/
/*@ item src/metric/telemetry.rs struct Telemetry
@*/
/*@ item src/metric/telemetry.rs enum Error
attr: #[derive(Debug)]
@*/

/// `r` is a value the global clock may return now.
pub uninterp spec fn clock_reads(r: i64) -> bool;
pub mod time {
    use super::*;
    #[verifier::external_body]
    pub fn now() -> (r: i64) ensures clock_reads(r), r >= 0 { unimplemented!() }
}

/// What a value stands for: the samples that went into it.
#[allow(inconsistent_fields)]
pub enum Agg {
    Set(f64),
    Sum(f64),
    Hist { data: Multiset<f64>, bounds: Seq<f64>, sum: Option<f64> },
    Quant { data: Multiset<f64>, sum: f64 },
}
pub open spec fn agg(v: Value) -> Agg {
    match v {
        Value::Set(x) => Agg::Set(x),
        Value::Sum(x) => Agg::Sum(x),
        Value::Histogram(h) => Agg::Hist { data: h.data(), bounds: h.bounds(), sum: h.sum_spec() },
        Value::Quantiles { ckms, sum } => Agg::Quant { data: ckms.data(), sum },
    }
}
pub open spec fn kind_of(a: Agg) -> AggregationMethod {
    match a {
        Agg::Set(_) => AggregationMethod::Set,
        Agg::Sum(_) => AggregationMethod::Sum,
        Agg::Hist { .. } => AggregationMethod::Histogram,
        Agg::Quant { .. } => AggregationMethod::Summarize,
    }
}
/// every value of s put into a histogram with the given content
pub open spec fn hist_all(data: Multiset<f64>, sum: Option<f64>, s: Seq<f64>) -> (Multiset<f64>, Option<f64>)
    decreases s.len()
{
    if s.len() == 0 { (data, sum) } else {
        let r = hist_all(data, sum, s.drop_last());
        (r.0.insert(s.last()), sum_with(r.1, s.last()))
    }
}
/// Adding b to a: the result is of b's kind.
pub open spec fn plus(a: Agg, b: Agg) -> Agg {
    match b {
        Agg::Set(y) => Agg::Set(y),
        Agg::Sum(y) => match a {
            Agg::Set(x) | Agg::Sum(x) => Agg::Sum(fadd(x, y)),
            Agg::Hist { sum, .. } => Agg::Sum(fadd(match sum { Some(s) => s, None => 0.0f64 }, y)),
            Agg::Quant { sum, .. } => Agg::Sum(fadd(sum, y)),
        },
        Agg::Hist { data, bounds, sum } => match a {
            Agg::Set(x) | Agg::Sum(x) => Agg::Hist { data: data.insert(x), bounds, sum: sum_with(sum, x) },
            Agg::Hist { data: d, bounds: bb, sum: s } => Agg::Hist { data: d.add(data), bounds: bb, sum: sum_merge(s, sum) },
            Agg::Quant { data: d, .. } => {
                let r = hist_all(data, sum, ckms_stored(d));
                Agg::Hist { data: r.0, bounds, sum: r.1 }
            }
        },
        Agg::Quant { data, sum } => match a {
            Agg::Set(x) | Agg::Sum(x) => Agg::Quant { data: data.insert(x), sum: fadd(sum, x) },
            Agg::Hist { .. } => b,
            Agg::Quant { data: d, sum: s } => Agg::Quant { data: d.add(data), sum: fadd(s, sum) },
        },
    }
}
/// two histograms can be added only if they have the same bins
pub open spec fn compatible(a: Agg, b: Agg) -> bool {
    a is Hist && b is Hist ==> a->bounds == b->bounds
}

/*@ rewrites
rw `ckms += rhs;` => `ckms.merge(rhs);`
rw `x += y;` => `x.merge(y);`
rw `*sum += $*e;` => `*sum = *sum + $*e;`
rw `sum += $*e;` => `sum = sum + $*e;`
rw `mem::replace` => `std::mem::replace`
rw `($a as f64)` => `(f64_of($a))`
rw `self.kind() == AggregationMethod::Set` => `self.kind().same(&AggregationMethod::Set)`
rw `self.kind() == AggregationMethod::Histogram` => `self.kind().same(&AggregationMethod::Histogram)`
rw `self.kind() == AggregationMethod::Sum` => `self.kind().same(&AggregationMethod::Sum)`
rw `self.kind() == AggregationMethod::Summarize` => `self.kind().same(&AggregationMethod::Summarize)`
@*/

pub assume_specification<T> [ std::mem::replace ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

impl Value {
/*@ fn src/metric/telemetry.rs Add@Value.add
ret: r
spec:
    requires compatible(agg(self), agg(rhs))
    ensures agg(r) == plus(agg(self), agg(rhs))
at fn-start:
    broadcast use {floats, vstd::multiset::group_multiset_axioms};
loop 1 for iter it:
    invariant
        it.seq() == ckms_stored(ckms.data()),
        y.bounds() == y0.bounds(),
        (y.data(), y.sum_spec()) == hist_all(y0.data(), y0.sum_spec(), it.seq().take(it.index() as int)),
at loop 1 before:
    let ghost y0 = y;
    assert(ckms_stored(ckms.data()).take(0) =~= Seq::<f64>::empty());
at loop 1 start:
    assert(it.seq().take(it.index() + 1).drop_last() =~= it.seq().take(it.index() as int));
at loop 1 after:
    assert(ckms_stored(ckms.data()).take(ckms_stored(ckms.data()).len() as int) =~= ckms_stored(ckms.data()));
@*/
/*@ fn src/metric/telemetry.rs Value.sum
ret: r
spec:
    ensures r == (match agg(*self) { Agg::Sum(x) => Some(x), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Value.set
ret: r
spec:
    ensures r == (match agg(*self) { Agg::Set(x) => Some(x), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Value.count
ret: r
spec:
    ensures r == (match agg(*self) { Agg::Set(_) | Agg::Sum(_) => 1, Agg::Hist { data, .. } => data.len(), Agg::Quant { data, .. } => data.len() })
@*/
/*@ fn src/metric/telemetry.rs Value.kind
ret: r
spec:
    ensures r == kind_of(agg(*self))
@*/
/*@ fn src/metric/telemetry.rs Value.query
ret: r
rw `ckms.query(prcnt).map(|$x| $x.1)` => `(match ckms.query(prcnt) { Some(q) => Some(q.1), None => None })`
spec:
    ensures r == (match *self { Value::Quantiles { ckms, sum } => (match ckms.query_spec(prcnt) { Some(q) => Some(q.1), None => None }), _ => None })
@*/
/*@ fn src/metric/telemetry.rs Value.mean
ret: r
spec:
    ensures match *self {
        Value::Histogram(h) => r == (match h.sum_spec() { Some(s) => fdiv(s, fof(h.data().len() as int)), None => 0.0f64 }),
        Value::Quantiles { ckms, sum } => r == (match ckms.cma_spec() { Some(m) => m, None => 0.0f64 }),
        _ => true }
at fn-start:
    broadcast use floats;
@*/
}

impl SoftTelemetry {
    /// the value the point will have, if it can be made at all
    pub open spec fn kind_due(&self) -> AggregationMethod { match self.kind { Some(k) => k, None => AggregationMethod::Set } }
    pub open spec fn value_due(&self) -> Agg {
        match self.thawed_value {
            Some(v) => agg(v),
            None => {
                let x = self.initial_value->0;
                match self.kind_due() {
                    AggregationMethod::Set => Agg::Set(x),
                    AggregationMethod::Sum => Agg::Sum(x),
                    AggregationMethod::Summarize => Agg::Quant { data: Multiset::empty().insert(x), sum: x },
                    AggregationMethod::Histogram => Agg::Hist { data: Multiset::empty().insert(x), bounds: self.bounds_due(), sum: Some(x) },
                }
            }
        }
    }
    pub open spec fn bounds_due(&self) -> Seq<f64> {
        match self.bounds { Some(b) => b@, None => seq![1.0f64, 10.0f64, 100.0f64, 1000.0f64] }
    }
    /// exactly the builders that can be made into a point
    pub open spec fn sound(&self) -> bool {
        &&& self.initial_value is Some != self.thawed_value is Some
        &&& self.name is Some
        &&& match self.kind_due() {
            AggregationMethod::Set | AggregationMethod::Sum => self.error is None && self.bounds is None,
            AggregationMethod::Histogram => self.error is None,
            AggregationMethod::Summarize => self.bounds is None && (self.error is Some ==> !fge(self.error->0, 1.0)),
        }
    }
/*@ fn src/metric/telemetry.rs SoftTelemetry.sample_sum
ret: r
spec:
    ensures r == (SoftTelemetry { override_sample_sum: Some(sum), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.count
ret: r
spec:
    ensures r == (SoftTelemetry { override_count: Some(count), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.value
ret: r
spec:
    ensures r == (SoftTelemetry { initial_value: Some(val), thawed_value: None, ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.kind
ret: r
spec:
    ensures r == (SoftTelemetry { kind: Some(aggr), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.error
ret: r
spec:
    ensures r == (SoftTelemetry { error: Some(error), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.clear_error
ret: r
spec:
    ensures r == (SoftTelemetry { error: None, ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.timestamp
ret: r
spec:
    ensures r == (SoftTelemetry { timestamp: Some(ts), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.tags
ret: r
spec:
    ensures r == (SoftTelemetry { tags: Some(tags), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.persist
ret: r
spec:
    ensures r == (SoftTelemetry { persist: Some(persist), ..self })
@*/
/*@ fn src/metric/telemetry.rs SoftTelemetry.harden
ret: r
spec:
    requires
        // the histogram's own demand on its bounds, which it panics over
        self.kind_due() is Histogram && self.thawed_value is None ==> self.bounds_due().len() > 0 && ascending(self.bounds_due()),
    ensures
        (r is Ok) == self.sound(),
        r matches Ok(t) ==> {
            &&& t.name == self.name->0
            &&& t.value is Some
            &&& agg(t.value->0) == self.value_due()
            &&& t.persist == (self.persist == Some(true))
            &&& t.tags == self.tags
            &&& self.timestamp is Some ==> t.timestamp == self.timestamp->0
            &&& self.timestamp is None ==> t.timestamp >= 0
            &&& self.kind_due() is Summarize ==> t.override_count == self.override_count && t.override_sample_sum == self.override_sample_sum
            &&& !(self.kind_due() is Summarize) ==> t.override_count is None && t.override_sample_sum is None
        },
        r matches Err(e) ==> match e {
            Error::NoName => self.name is None,
            Error::NoValue => self.initial_value is None && self.thawed_value is None,
            Error::CannotHaveTwoValues => self.initial_value is Some && self.thawed_value is Some,
            Error::CannotSetBounds => self.bounds is Some,
            Error::CannotSetError => self.error is Some,
            Error::SummarizeErrorTooLarge => self.error is Some && fge(self.error->0, 1.0),
            Error::NoInitialValue => false,
        },
at fn-start:
    broadcast use {floats, ax_small};
    proof { assert(self.persist == Some(true) || self.persist == Some(false) || self.persist is None); }
@*/
}
/// 0.001 < 1
pub broadcast axiom fn ax_small() ensures !(#[trigger] fge(0.001f64, 1.0f64));

impl Telemetry {
    /// a point always has a value
    pub open spec fn ok(&self) -> bool { self.value is Some }
    pub open spec fn agg(&self) -> Agg { agg(self.value->0) }
/*@ fn src/metric/telemetry.rs Telemetry.new
ret: r
spec:
    ensures r == (SoftTelemetry { name: None, initial_value: None, thawed_value: None, kind: None, error: None, bounds: None,
                                  timestamp: None, tags: None, persist: None, override_count: None, override_sample_sum: None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.kind
ret: r
spec:
    requires self.ok()
    ensures r == kind_of(self.agg())
@*/
/*@ fn src/metric/telemetry.rs Telemetry.thaw
ret: r
spec:
    requires self.ok()
    ensures r == (SoftTelemetry { name: Some(self.name), initial_value: None, thawed_value: self.value, kind: Some(kind_of(self.agg())),
                                  error: None, bounds: None, timestamp: Some(self.timestamp), tags: self.tags, persist: Some(self.persist),
                                  override_count: None, override_sample_sum: None })
@*/
/*@ fn src/metric/telemetry.rs Telemetry.timestamp
ret: r
spec:
    ensures r == (Telemetry { timestamp: time, ..self })
@*/
/*@ fn src/metric/telemetry.rs AddAssign@Telemetry.add_assign
spec:
    requires old(self).ok(), rhs.ok(), compatible(old(self).agg(), rhs.agg())
    ensures
        final(self).ok(),
        final(self).agg() == plus(old(self).agg(), rhs.agg()),
        final(self).persist == rhs.persist,
        final(self).name == old(self).name, final(self).tags == old(self).tags, final(self).timestamp == old(self).timestamp,
@*/
}
