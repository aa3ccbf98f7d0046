//! Dense sampling and bisection of a curve in time: the oracle of the event searches.
use siderust::time::{Interval, ModifiedJulianDate};
pub fn mjd(t: f64) -> ModifiedJulianDate { ModifiedJulianDate::new(t) }
pub fn day(t: ModifiedJulianDate) -> f64 { t.raw().value() }

/// A sampled curve: sampled values, crossing times, extrema.
pub struct Curve { pub t: Vec<f64>, pub g: Vec<f64> }
impl Curve {
    pub fn of(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64) -> Curve {
        let n = (((b - a) / step).ceil() as usize).max(4);
        let t: Vec<f64> = (0..=n).map(|i| if i == n { b } else { a + (b - a) * i as f64 / n as f64 }).collect();
        let g = t.iter().map(|t| f(*t)).collect();
        Curve { t, g }
    }
    /// (value, time) of every interior extremum, by parabola, and whether it is a maximum.
    pub fn extrema(&self) -> Vec<(f64, f64, bool)> {
        let mut out = vec![];
        for i in 1..self.t.len() - 1 {
            let (p, q, r) = (self.g[i - 1], self.g[i], self.g[i + 1]);
            if (q > p && q >= r) || (q < p && q <= r) {
                let h = self.t[i + 1] - self.t[i];
                let den = p - 2.0 * q + r;
                let x = if den == 0.0 { 0.0 } else { 0.5 * (p - r) / den };
                out.push((q - 0.25 * (p - r) * x, self.t[i] + x * h, q > p));
            }
        }
        out
    }
    /// Crossings of `thr`: bracketing samples and direction. None: too close to a tangency or an end to call.
    pub fn crossings(&self, f: &dyn Fn(f64) -> f64, thr: f64, graze: f64, res: f64) -> Option<Vec<(f64, bool)>> {
        if self.extrema().iter().any(|e| (e.0 - thr).abs() < graze) { return None; }
        let n = self.t.len() - 1;
        if (self.g[0] - thr).abs() < graze || (self.g[n] - thr).abs() < graze { return None; }
        let mut out = vec![];
        for i in 0..n {
            if (self.g[i] > thr) != (self.g[i + 1] > thr) {
                let up = self.g[i + 1] > thr;
                let (mut lo, mut hi) = (self.t[i], self.t[i + 1]);
                for _ in 0..40 { let m = 0.5 * (lo + hi); if (f(m) > thr) == up { hi = m } else { lo = m } }
                out.push((hi, up));
            }
        }
        let mut e: Vec<f64> = vec![self.t[0]]; e.extend(out.iter().map(|x| x.0)); e.push(self.t[n]);
        if out.windows(2).any(|w| w[1].0 - w[0].0 < res) { return None; }
        if !out.is_empty() && (out[0].0 - self.t[0] < 2e-7 || self.t[n] - out[out.len() - 1].0 < 2e-7) { return None; }
        Some(out)
    }
}
/// Intervals above the threshold between known crossings.
pub fn above(c: &[(f64, bool)], start: bool, a: f64, b: f64) -> Vec<(f64, f64)> {
    let mut out = vec![]; let mut open = if start { Some(a) } else { None };
    for (t, up) in c { if *up { open = Some(*t) } else if let Some(s) = open.take() { out.push((s, *t)) } }
    if let Some(s) = open { out.push((s, b)) }
    out
}
pub fn complement(p: &[(f64, f64)], a: f64, b: f64) -> Vec<(f64, f64)> {
    let mut out = vec![]; let mut s = a;
    for (x, y) in p { if *x > s { out.push((s, *x)) } s = *y; }
    if s < b { out.push((s, b)) }
    out
}
pub fn intersect(p: &[(f64, f64)], q: &[(f64, f64)]) -> Vec<(f64, f64)> {
    let mut out = vec![];
    for x in p { for y in q { let (s, e) = (x.0.max(y.0), x.1.min(y.1)); if e > s { out.push((s, e)) } } }
    out
}
pub fn ivs(v: &[Interval<ModifiedJulianDate>]) -> Vec<(f64, f64)> { v.iter().map(|i| (day(i.start), day(i.end))).collect() }
pub fn same(got: &[(f64, f64)], want: &[(f64, f64)], tol: f64) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| (g.0 - w.0).abs() < tol && (g.1 - w.1).abs() < tol)
}

