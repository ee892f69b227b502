use cernan::metric::{AggregationMethod, Telemetry};
/// exact values, kept independently of the code under test
#[derive(Clone, Debug)]
pub enum V { Set(f64), Sum(f64), Hist(Vec<f64>), Quant(Vec<f64>) }
pub fn plus(a: &V, b: &V) -> V {
    match (a, b) {
        (_, V::Set(y)) => V::Set(*y),
        (V::Set(x), V::Sum(y)) | (V::Sum(x), V::Sum(y)) => V::Sum(x + y),
        (V::Set(x), V::Hist(y)) | (V::Sum(x), V::Hist(y)) => { let mut y = y.clone(); y.push(*x); V::Hist(y) }
        (V::Set(x), V::Quant(y)) | (V::Sum(x), V::Quant(y)) => { let mut y = y.clone(); y.push(*x); V::Quant(y) }
        (V::Hist(x), V::Sum(y)) | (V::Quant(x), V::Sum(y)) => V::Sum(x.iter().sum::<f64>() + y),
        (V::Hist(x), V::Hist(y)) | (V::Quant(x), V::Hist(y)) => V::Hist(x.iter().chain(y).cloned().collect()),
        (V::Hist(_), V::Quant(y)) => V::Quant(y.clone()),
        (V::Quant(x), V::Quant(y)) => V::Quant(x.iter().chain(y).cloned().collect()),
    }
}
pub fn kind(v: &V) -> AggregationMethod {
    match v { V::Set(_) => AggregationMethod::Set, V::Sum(_) => AggregationMethod::Sum, V::Hist(_) => AggregationMethod::Histogram, V::Quant(_) => AggregationMethod::Summarize }
}
pub const BOUNDS: [f64; 3] = [1.0, 10.0, 100.0];

/// does the point hold this value
fn alike(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }
pub fn holds(t: &Telemetry, v: &V) -> bool {
    t.kind() == kind(v) && match v {
        V::Set(x) => t.set().map_or(false, |y| alike(y, *x)),
        V::Sum(x) => t.sum().map_or(false, |y| alike(y, *x)),
        V::Hist(xs) => {
            let want: Vec<usize> = (0..4).map(|i| xs.iter().filter(|x| (i == 0 || **x > BOUNDS[i - 1]) && (i == 3 || **x <= BOUNDS[i])).count()).collect();
            let got: Vec<usize> = t.bins().unwrap().map(|(_, c)| *c).collect();
            want == got && t.count() == xs.len() && t.samples_sum() == Some(xs.iter().sum())
        }
        V::Quant(xs) => {
            let mut s = t.samples();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut w = xs.clone();
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
            // below the sketch's compression threshold every sample is kept
            (xs.len() > 200 || s == w) && t.count() == xs.len() && t.samples_sum() == Some(xs.iter().sum())
        }
    }
}
