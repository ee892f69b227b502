// Random points and lines.
use crate::wit::Rng;
use cernan::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
pub fn tags(r: &mut Rng) -> TagMap {
    let mut m = TagMap::default();
    for _ in 0..r.size(2, 20) { m.insert(if r.chance(1, 8) { r.text("klmz", 1, 3, plain) } else { r.pick(&["k", "l", "m"]).to_string() }, if r.chance(1, 10) { r.text("xyz \t\r\n\u{e9}\"\\=,.", 1, 5, |_| true) } else { r.text("xyz", 0, 2, plain) }); }
    m
}
fn plain(w: &str) -> bool { !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || "._-".contains(c)) }
pub fn point(r: &mut Rng, times: &[i64]) -> Telemetry {
    let name = if r.chance(1, 8) { r.text("abc._-", 1, 6, plain) } else { r.pick(&["a", "b.c", "d"]).to_string() };
    let t = Telemetry::new().name(name).timestamp(*r.pick(times));
    let odd = [0.0, -0.0, 1.5, -2.25, 1e300, 0.1, 3.0, 100.0, r.num() as f64, r.range(-2000, 2000) as f64 / 8.0];
    let t = match r.below(5) {
        0 | 1 => {
            let v = if r.chance(1, 6) { *r.pick(&[std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY]) } else { *r.pick(&odd) };
            t.kind(if r.chance(1, 2) { AggregationMethod::Sum } else { AggregationMethod::Set }).value(v)
        }
        2 => t.kind(AggregationMethod::Histogram).bounds(vec![-1.0, 2.0, 50.0]).value(*r.pick(&odd)),
        _ => t.kind(AggregationMethod::Summarize).error(0.01).value(*r.pick(&odd)),
    };
    let mut t = t.harden().unwrap();
    if t.kind() == AggregationMethod::Summarize && r.chance(1, 8) { for _ in 0..r.size(20, 3000) { t = t.insert(r.range(-400, 400) as f64 / 2.0); } }
    for (k, v) in tags(r) { t = t.overlay_tag(k, v); }
    t
}
/// the value of a point in words
pub fn value(t: &Telemetry) -> String {
    match t.kind() {
        AggregationMethod::Sum => format!("{:?}", t.sum()), AggregationMethod::Set => format!("{:?}", t.set()),
        AggregationMethod::Histogram => format!("{:?}", t.bins().map(|b| b.map(|x| x.1).collect::<Vec<_>>())),
        AggregationMethod::Summarize => format!("{:?}", t.query(1.0)),
    }
}
pub fn line(r: &mut Rng, times: &[i64]) -> LogLine {
    let mut l = LogLine::new(r.text("pq/", 0, 3, plain), if r.chance(1, 8) { let k = r.size(20, 20_000); r.string("vw e", 0, k) } else { r.text("vw \"\\\n\té", 0, 6, |_| true) }).time(*r.pick(times));
    for (k, v) in tags(r) { l = l.overlay_tag(k, v); }
    for _ in 0..r.below(3) { l = l.insert_field(*r.pick(&["f", "k", "path"]), &r.string("12", 0, 2)); }
    l
}
