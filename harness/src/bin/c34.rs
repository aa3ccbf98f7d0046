//! C34: process-noise covariances are the integrals they stand for.
use proptest::prelude::*;
use qtty::{KmPerSecondsSquared, Second};
use siderust::pod::process::{GaussMarkovParams, PiecewiseSegment, ProcessNoise, ProcessNoiseModel, WhiteAccelPsd};
use vharness::*;

fn gm() -> impl Strategy<Value = GaussMarkovParams> { (prop_oneof![4 => 1e-6f64..10.0, 1 => Just(0.0)], prop_oneof![1.0f64..1e6, 1e-3f64..1.0]).prop_map(|(sigma, tau)| GaussMarkovParams { sigma, tau: Second::new(tau) }) }
fn mag() -> impl Strategy<Value = f64> { prop_oneof![6 => (-14.0f64..-2.0).prop_map(|e| 10f64.powf(e)), 1 => Just(0.0)] }
fn model() -> impl Strategy<Value = ProcessNoiseModel> {
    ([mag(), mag(), mag()], proptest::option::of(gm()), proptest::option::of(gm()), proptest::option::of([mag(), mag(), mag()])).prop_map(|(q, d, s, e)| ProcessNoiseModel { position_velocity: WhiteAccelPsd(q), drag_scale: d, srp_scale: s, empirical_white: e.map(|e| e.map(KmPerSecondsSquared::new)) })
}
/// Transition over `dt` of the state the matrix is laid out for.
fn phi(m: &ProcessNoiseModel, dt: f64) -> Vec<Vec<f64>> {
    let n = 6 + m.drag_scale.iter().count() + m.srp_scale.iter().count() + 3 * m.empirical_white.iter().count();
    let mut f = vec![vec![0.0; n]; n]; for (i, r) in f.iter_mut().enumerate() { r[i] = 1.0 } for i in 0..3 { f[i][i + 3] = dt }
    for (k, g) in m.drag_scale.iter().chain(m.srp_scale.iter()).enumerate() { f[6 + k][6 + k] = (-dt / g.tau.value()).exp() }
    f
}
/// Simpson integration of Phi(t) G Phi(t)^T over the interval: each diffusion enters the state it drives.
fn integral(m: &ProcessNoiseModel, dt: f64) -> Vec<Vec<f64>> {
    let n = phi(m, 0.0).len(); let mut g = vec![0.0; n]; let mut k = 6;
    for i in 0..3 { g[3 + i] = m.position_velocity.0[i] }
    for x in m.drag_scale.iter().chain(m.srp_scale.iter()) { g[k] = 2.0 * x.sigma * x.sigma / x.tau.value(); k += 1 }
    if let Some(e) = m.empirical_white { for i in 0..3 { g[k + i] = e[i].value() * e[i].value() } }
    let mut out = vec![vec![0.0; n]; n]; let steps = 64;
    // Only the transient of the shortest time constant needs resolving.
    let add = |t: f64, w: f64, out: &mut Vec<Vec<f64>>| { let f = phi(m, t); for i in 0..n { for j in 0..n { for l in 0..n { if f[i][l] != 0.0 && f[j][l] != 0.0 { out[i][j] += w * f[i][l] * g[l] * f[j][l] } } } } };
    let h = dt / steps as f64;
    for s in 0..=steps { let w = if s == 0 || s == steps { 1.0 } else if s % 2 == 1 { 4.0 } else { 2.0 }; add(s as f64 * h, w * h / 3.0, &mut out) }
    out
}
fn flat(q: &[Vec<f64>]) -> f64 { q.iter().flatten().fold(0.0, |a: f64, v| a.max(v.abs())) }

fn main() {
    let mut c = Check::new("C34", "positive intervals, some noise present");
    c.prop("covariances over an interval", 80_000, || (model(), prop_oneof![6 => 1e-3f64..1e5, 1 => Just(0.0)], 1e-3f64..1e5, [-1.0f64..1.0, -1.0..1.0, -1.0..1.0, -1.0..1.0, -1.0..1.0, -1.0..1.0]), |(m, a, b, u)| {
        let q = |t: f64| np("q_matrix", || m.q_matrix(Second::new(t)))?.map_err(|e| format!("{e:?}"));
        let (qa, qb, qc) = (q(*a)?, q(*b)?, q(a + b)?); let n = m.dim();
        ensure!(n == phi(m, 0.0).len() && qa.len() == n && qa.iter().all(|r| r.len() == n), "dimension {n} against {}", qa.len());
        ensure!(q(0.0)?.iter().flatten().all(|v| *v == 0.0), "a zero interval gives noise");
        let fb = phi(m, *b);
        for i in 0..n { for j in 0..n {
            ensure!(qa[i][j] == qa[j][i], "not symmetric at {i},{j}");
            let tol = 1e-12 * (qc[i][i] * qc[j][j]).sqrt() + match i { 6.. => 4e-16 * m.drag_scale.iter().chain(m.srp_scale.iter()).map(|g| g.sigma * g.sigma).fold(0.0, f64::max), _ => 0.0 };
            // The noise of two intervals in a row: the first carried over, plus the second.
            let mut w = qb[i][j]; for k in 0..n { for l in 0..n { w += fb[i][k] * qa[k][l] * fb[j][l] } }
            ensure!((w - qc[i][j]).abs() <= tol, "{a} s and then {b} s: entry {i},{j} is {} instead of {w}", qc[i][j]);
        } }
        // Against the integral, where the quadrature resolves it.
        let short = m.drag_scale.iter().chain(m.srp_scale.iter()).map(|g| g.tau.value()).fold(1e9, f64::min); let t = b.min(2.0 * short);
        let (x, y) = (q(t)?, integral(m, t));
        for i in 0..n { for j in 0..n { ensure!((x[i][j] - y[i][j]).abs() <= 1e-6 * (y[i][i] * y[j][j]).sqrt() + 1e-14 * if i < 6 { 0.0 } else { 1.0 } * flat(&y), "{t} s: entry {i},{j} is {} instead of {}", x[i][j], y[i][j]) } }
        // No direction has negative variance.
        for (k, s) in [(a, &qa), (b, &qb)] { let v: Vec<f64> = (0..n).map(|i| u[i % 6] / if i < 3 { k.max(1e-3) } else { 1.0 }).collect(); let mut z = 0.0; let mut scale = 0.0; for i in 0..n { for j in 0..n { z += v[i] * s[i][j] * v[j]; scale += (v[i] * s[i][j] * v[j]).abs() } } ensure!(z >= -1e-14 * scale, "negative variance {z}") }
        ensure!(m.is_psd(Second::new(*a)).map_err(|e| format!("{e:?}"))?, "a valid covariance is declared indefinite");
        for (g, k) in m.drag_scale.iter().chain(m.srp_scale.iter()).zip(6..) { let v = g.variance_after(Second::new(*b)).map_err(|e| format!("{e:?}"))?; ensure!(v == qb[k][k] && v <= g.sigma * g.sigma * (1.0 + 1e-15), "variance {v} of a steady state {}", g.sigma) }
        Ok(if *a == 0.0 || flat(&qc) == 0.0 { "-no noise" } else if m.empirical_white.is_some() { "with empirical terms" } else if n > 6 { "with scale factors" } else { "position and velocity" })
    });

    c.prop("impossible parameters are refused", 20_000, || (model(), 0u8..10, prop_oneof![Just(f64::NAN), Just(f64::INFINITY), Just(-1e-9), -10.0f64..-1e-6], 0usize..3, 0.0f64..1e4), |(m, k, bad, ax, t)| {
        let mut m = *m; let mut t = *t; let inf = bad.is_nan() || *bad > 0.0; let good = GaussMarkovParams { sigma: 0.1, tau: Second::new(100.0) };
        match k { 0 => t = *bad, 1 => m.position_velocity.0[*ax] = *bad, 2 => m.drag_scale = Some(GaussMarkovParams { sigma: *bad, ..good }), 3 => m.drag_scale = Some(GaussMarkovParams { tau: Second::new(*bad), ..good }), 4 => m.srp_scale = Some(GaussMarkovParams { sigma: *bad, ..good }), 5 => m.srp_scale = Some(GaussMarkovParams { tau: Second::new(*bad), ..good }),
            6 => { let mut e = [KmPerSecondsSquared::new(1e-9); 3]; e[*ax] = KmPerSecondsSquared::new(*bad); m.empirical_white = Some(e) } 7 => m.srp_scale = Some(GaussMarkovParams { tau: Second::new(0.0), ..good }), 8 => { let p = WhiteAccelPsd::isotropic(KmPerSecondsSquared::new(t)); ensure!(p.0 == [t * t; 3], "isotropic {p:?}"); return Ok("isotropic density") } _ => { ensure!(m.q_matrix(Second::new(t)).is_ok(), "refused"); return Ok("-good") } }
        let r = np("q_matrix", || m.q_matrix(Second::new(t)))?; ensure!(r.is_err() && m.is_psd(Second::new(t)).is_err(), "case {k} with {bad} accepted: {r:?}");
        Ok(if inf { "not finite" } else { "negative" })
    });

    c.prop("schedules of noise levels", 40_000, || (proptest::collection::vec((prop_oneof![5 => 0.5f64..1000.0, 1 => Just(0.0)], 0.0f64..100.0, 0.0f64..1.0), 0..8), 0u8..6, -0.1f64..1.3, any::<proptest::sample::Index>()), |(iv, kind, x, at)| {
        let iv: Vec<PiecewiseSegment> = iv.iter().map(|s| PiecewiseSegment { duration: Second::new((s.0 * 8.0).round() / 8.0), sigma_pos_m: s.1, sigma_vel_mps: s.2 }).collect();
        let total: f64 = iv.iter().map(|s| s.duration.value()).sum();
        // Also exactly at the boundaries, where the next level starts.
        let t = if *kind % 2 == 0 && !iv.is_empty() { iv[..at.index(iv.len()) + 1].iter().map(|s| s.duration.value()).sum() } else { x * total };
        if *kind == 5 { ensure!(ProcessNoise::None.sigma_at(Second::new(t)) == (0.0, 0.0) && !ProcessNoise::None.is_active(), "no noise"); return Ok("-none") }
        if *kind == 4 && !iv.is_empty() { let w = ProcessNoise::WhiteNoise { sigma_pos_m: iv[0].sigma_pos_m, sigma_vel_mps: iv[0].sigma_vel_mps }; ensure!(w.is_active() && w.sigma_at(Second::new(t)) == (iv[0].sigma_pos_m, iv[0].sigma_vel_mps), "white noise"); return Ok("-white") }
        let got = np("sigma_at", || ProcessNoise::PiecewiseConstant { intervals: iv.clone() }.sigma_at(Second::new(t)))?;
        let mut end = 0.0; let mut want = iv.last(); for s in &iv { end += s.duration.value(); if t < end { want = Some(s); break } }
        ensure!(got == want.map_or((0.0, 0.0), |s| (s.sigma_pos_m, s.sigma_vel_mps)), "at {t} of {iv:?}: {got:?}");
        Ok(if iv.is_empty() { "-empty" } else if *kind % 2 == 0 { "at a boundary" } else if t > total { "after the schedule" } else { "inside" })
    });
    c.finish()
}
