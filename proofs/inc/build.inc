// building points from a source's own base point
pub uninterp spec fn string_of<S>(s: S) -> String;
#[verifier::external_body]
pub fn to_string_of<S>(s: S) -> (r: String) ensures r == string_of(s) { unimplemented!() }
pub broadcast axiom fn ax_string_of_str(s: &str) ensures (#[trigger] string_of::<&str>(s))@ == s@;
pub broadcast axiom fn ax_string_of_string(s: String) ensures #[trigger] string_of::<String>(s) == s;
pub broadcast group strings { ax_string_of_str, ax_string_of_string }
/// `Arc<Option<Telemetry>>`: the point a source starts from
#[verifier::external_body]
pub struct Base { _p: () }
impl Base { pub uninterp spec fn base(&self) -> Telemetry; }
/// `Arc::make_mut(&mut Arc::clone(b)).take().unwrap()`: a copy of it
#[verifier::external_body]
pub fn base_of(b: &Base) -> (r: Telemetry) ensures r == b.base() { unimplemented!() }
/// `Arc::new(Some(t))`
#[verifier::external_body]
pub fn base_new(t: Option<Telemetry>) -> (r: Base) requires t is Some ensures r.base() == t->0 { unimplemented!() }
#[verifier::external_body]
pub fn empty_string() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
impl SoftTelemetry {
/*@ fn src/metric/telemetry.rs SoftTelemetry.name
ret: r
sig:
    pub fn name<S>(self, name: S) -> (r: SoftTelemetry)
rw `name.into()` => `to_string_of(name)`
rw `name.to_string()` => `to_string_of(name)`
spec:
    ensures r == (SoftTelemetry { name: Some(string_of(name)), ..self })
@*/
}
impl Telemetry {
/*@ fn src/metric/telemetry.rs Default@Telemetry.default
ret: r
rw `String::from("")` => `empty_string()`
spec:
    ensures r.ok(), r.agg() == Agg::Set(0.0f64), !r.persist, r.tags is None, r.override_count is None, r.override_sample_sum is None,
@*/
}
