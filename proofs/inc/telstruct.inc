// points as a data structure, with the sketches opaque
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CKMS<T> { _p: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Histogram<T> { _p: std::marker::PhantomData<T> }
/*@ item src/metric/telemetry.rs enum AggregationMethod
@*/
/*@ item src/metric/telemetry.rs enum Value
@*/
/*@ item src/metric/telemetry.rs struct SoftTelemetry
@*/
/*@ item src/metric/telemetry.rs struct Telemetry
@*/
