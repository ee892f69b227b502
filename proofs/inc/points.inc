// points and lines as the sinks see them (C02, C03 prove what the accessors answer)
#[verifier::external_body]
pub struct TagMap { _p: () }
pub type Pairs = Seq<(Text, Text)>;
pub open spec fn pairs(v: Seq<(String, String)>) -> Pairs { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub uninterp spec fn map_pairs(m: TagMap) -> Pairs;
/// the entries of a map, in any fixed order
#[verifier::external_body]
pub fn entries(m: &TagMap) -> (r: Vec<(String, String)>) ensures pairs(r@) == map_pairs(*m) { unimplemented!() }
#[derive(Clone, Copy)]
pub enum Bound { Finite(f64), PosInf }
/*@ item src/metric/telemetry.rs enum AggregationMethod
@*/
#[verifier::external_body]
pub struct Rest { _p: () }
pub struct Telemetry { pub name: String, pub timestamp: i64, pub persist: bool, pub rest: Rest }
pub uninterp spec fn tel_tags(t: Telemetry, over: TagMap) -> Pairs;
impl Telemetry {
    pub uninterp spec fn kind_of(&self) -> AggregationMethod;
    pub uninterp spec fn sum_of(&self) -> Option<f64>;
    pub uninterp spec fn set_of(&self) -> Option<f64>;
    pub uninterp spec fn count_of(&self) -> usize;
    pub uninterp spec fn query_of(&self, q: f64) -> Option<f64>;
    pub uninterp spec fn bins_of(&self) -> Option<Seq<(Bound, usize)>>;
    pub uninterp spec fn samples_sum_of(&self) -> Option<f64>;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: AggregationMethod) ensures r == self.kind_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn sum(&self) -> (r: Option<f64>) ensures r == self.sum_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self) -> (r: Option<f64>) ensures r == self.set_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize) ensures r == self.count_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self, q: f64) -> (r: Option<f64>) ensures r == self.query_of(q) { unimplemented!() }
    #[verifier::external_body]
    pub fn samples_sum(&self) -> (r: Option<f64>) ensures r == self.samples_sum_of() { unimplemented!() }
    #[verifier::external_body]
    pub fn bins(&self) -> (r: Option<Vec<(Bound, usize)>>)
        ensures (match r { Some(v) => Some(v@), None => None }) == self.bins_of()
    { unimplemented!() }
    /// the point's tags, with others laid over them
    #[verifier::external_body]
    pub fn tags(&self, over: &TagMap) -> (r: Vec<(String, String)>) ensures pairs(r@) == tel_tags(*self, *over) { unimplemented!() }
}
/*@ rewrites
rw `for &($a, $b) in $c {` => `for ($a, $b) in $c {`
@*/
