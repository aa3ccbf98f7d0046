//! C33: least-squares and Kalman estimators.
use principia::covariance::StateCovariance;
use proptest::prelude::*;
use siderust::astro::dynamics::{OrbitState, Position, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::nonlinear::*;
use siderust::pod::estimation::sequential::*;
use siderust::pod::estimation::wls::*;
use siderust::pod::problem::covariance::*;
use siderust::pod::problem::parameter::*;
use siderust::time::JulianDate;
use vharness::gen::*;
use vharness::*;

type M = Vec<Vec<f64>>;
fn zeros(n: usize) -> M { vec![vec![0.0; n]; n] }
/// Gaussian elimination with scaled partial pivoting.
fn lu_solve(a: &M, b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let (mut a, mut b) = (a.clone(), b.to_vec());
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| (a[i][k].abs()).total_cmp(&a[j][k].abs()))?;
        if a[p][k] == 0.0 || !a[p][k].is_finite() { return None }
        a.swap(k, p); b.swap(k, p);
        for i in k + 1..n { let f = a[i][k] / a[k][k]; for j in k..n { a[i][j] -= f * a[k][j] } b[i] -= f * b[k] }
    }
    for k in (0..n).rev() { for j in k + 1..n { b[k] -= a[k][j] * b[j] } b[k] /= a[k][k] }
    Some(b)
}
/// Eigenvalues of a symmetric matrix scaled to unit diagonal (Jacobi).
fn min_eigen(m: &[[f64; 6]; 6]) -> f64 {
    let d: Vec<f64> = (0..6).map(|i| if m[i][i] > 0.0 { m[i][i].sqrt() } else { 1.0 }).collect();
    let mut a = [[0.0; 6]; 6];
    for i in 0..6 { for j in 0..6 { a[i][j] = m[i][j] / d[i] / d[j] } }
    for _ in 0..60 { for p in 0..6 { for q in p + 1..6 {
        if a[p][q] == 0.0 { continue }
        let th = 0.5 * (2.0 * a[p][q]).atan2(a[q][q] - a[p][p]);
        let (c, s) = (th.cos(), th.sin());
        for k in 0..6 { let (x, y) = (a[k][p], a[k][q]); a[k][p] = c * x - s * y; a[k][q] = s * x + c * y }
        for k in 0..6 { let (x, y) = (a[p][k], a[q][k]); a[p][k] = c * x - s * y; a[q][k] = s * x + c * y }
    } } }
    (0..6).map(|i| a[i][i]).fold(f64::INFINITY, f64::min)
}
/// One observation: partials in some order, residual, sigma.
type Row = (Vec<(usize, f64)>, f64, f64);
fn assemble(n: usize, rows: &[Row]) -> Result<NormalEquations, String> { let mut e = NormalEquations::new(n); for (h, r, s) in rows { np("add_row", || e.add_row(h, *r, *s))?.map_err(|x| x.to_string())? } Ok(e) }
fn dense(n: usize, rows: &[Row]) -> (M, Vec<f64>, f64) {
    let (mut a, mut b, mut chi) = (zeros(n), vec![0.0; n], 0.0);
    for (h, r, s) in rows {
        let mut full = vec![0.0; n];
        for (i, x) in h { full[*i] += x }
        for i in 0..n { b[i] += full[i] * r / s / s; for j in 0..n { a[i][j] += full[i] * full[j] / s / s } }
        chi += r / s * (r / s);
    }
    (a, b, chi)
}
/// `m` observations of `n` parameters, each seeing a subset of them.
fn rows(nmax: usize) -> impl Strategy<Value = (usize, Vec<Row>)> {
    (1usize..nmax).prop_flat_map(|n| {
        let row = (proptest::collection::vec((0..n, -1.0f64..1.0), 1..(2 * n + 2)), -10.0f64..10.0, logu(-3.0, 3.0));
        (Just(n), proptest::collection::vec(-3.0f64..3.0, n), proptest::collection::vec(row, 0..(5 * n + 3)), any::<bool>(), proptest::collection::vec((-1.0f64..1.0, -10.0f64..10.0, logu(-3.0, 3.0)), n))
    }).prop_map(|(n, scale, mut rows, prior, pr)| {
        // A priori information on every parameter makes the problem well posed.
        if prior { for (i, (v, r, s)) in pr.iter().enumerate() { rows.push((vec![(i, 1.0 + v.abs())], *r, *s)) } }
        // Repeated partials of one parameter add up; they do not cancel.
        for (h, _, _) in rows.iter_mut() { for k in 0..h.len() { if let Some(f) = (0..k).find(|&f| h[f].0 == h[k].0) { h[k].1 = h[k].1.abs().copysign(h[f].1) } } }
        for (h, _, _) in rows.iter_mut() { for (i, x) in h.iter_mut() { *x *= 10f64.powf(scale[*i]) } }
        (n, rows)
    })
}
/// Every state has its own epoch, so that a mixed-up one shows.
fn state(y: &[f64; 6]) -> OrbitState { OrbitState::new(JulianDate::new(2_451_545.0 + (7.0 * y[0]).rem_euclid(3000.0)).to_j2000s(), Position::<GCRS>::new(y[0], y[1], y[2]), Velocity::<GCRS>::new(y[3], y[4], y[5])) }
fn comps(s: &OrbitState) -> [f64; 6] { [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()] }
type M6 = [[f64; 6]; 6];
/// Covariances from a random factor.
fn cov() -> impl Strategy<Value = M6> { (proptest::collection::vec(-1.0f64..1.0, 36), proptest::array::uniform6(-3.0f64..2.0)).prop_map(|(f, s)| { let mut m = [[0.0; 6]; 6]; for i in 0..6 { for j in 0..6 { for k in 0..6 { m[i][j] += f[6 * i + k] * f[6 * j + k] } m[i][j] += if i == j { 0.05 } else { 0.0 }; } } for i in 0..6 { for j in 0..6 { m[i][j] *= 10f64.powf(s[i] + s[j]) } } m }) }

fn main() {
    let mut c = Check::new("C33", "cases with an estimate, or a refusal that was due");
    c.assume("solutions are judged by the residual of the normal equations, as accurate as a stable solver makes it whatever the conditioning");

    c.prop("weighted least squares solves the normal equations of its rows", 30000, || (rows(9), logu(-2.0, 2.0), any::<bool>()), |((n, rows), k, rev)| {
        let n = *n;
        let (mut a, mut b, chi) = dense(n, rows);
        let e = assemble(n, rows)?;
        ensure!(e.n_params() == n && e.n_obs == rows.len(), "{} rows of {} parameters", e.n_obs, e.n_params());
        ensure!(close(e.chi2, chi, 1e-300, 1e-12), "chi2 {} instead of {chi}", e.chi2);
        for i in 0..n { let s: f64 = rows.iter().map(|(h, r, sg)| h.iter().filter(|x| x.0 == i).map(|x| (x.1 * r).abs()).sum::<f64>() / sg / sg).sum(); ensure!((e.b[(i, 0)] - b[i]).abs() <= 1e-13 * s, "right-hand side {i}: {} instead of {}", e.b[(i, 0)], b[i]); b[i] = e.b[(i, 0)] }
        // Cancellation between repeated entries is the caller's: compare with the size of the terms, then go on with the sums as formed.
        for i in 0..n { for j in i..n {
            let s: f64 = rows.iter().map(|(h, _, sg)| { let t = |q: usize| h.iter().filter(|x| x.0 == q).map(|x| x.1.abs()).sum::<f64>(); t(i) * t(j) / sg / sg }).sum();
            ensure!((e.n_matrix[(i, j)] - a[i][j]).abs() <= 1e-13 * s, "normal matrix {i},{j} is {} instead of {}", e.n_matrix[(i, j)], a[i][j]);
            a[i][j] = e.n_matrix[(i, j)]; a[j][i] = a[i][j];
        } }
        let g = np("solve", || e.clone().solve())?;
        // Unobserved parameters, or fewer rows than parameters, leave the matrix singular.
        let unseen = (0..n).any(|i| a[i][i] == 0.0);
        if unseen { ensure!(g.is_err(), "solved although a parameter is unobserved: {:?}", g.map(|x| x.update)); return Ok("unobserved parameter") }
        let Ok(g) = g else {
            // Refusal is only due near singularity of the scaled matrix: some direction is all but unobserved.
            let s: M = (0..n).map(|i| (0..n).map(|j| a[i][j] / (a[i][i] * a[j][j]).sqrt()).collect()).collect();
            let mut worst = f64::INFINITY;
            let mut f = s.clone();
            for p in 0..n { worst = worst.min(f[p][p]); if f[p][p] <= 0.0 { break } for i in p + 1..n { for j in p + 1..n { f[i][j] -= f[i][p] * f[p][j] / f[p][p] } } }
            ensure!(worst < 1e-7, "refused a problem whose smallest scaled pivot is {worst:e}");
            return Ok("-nearly singular");
        };
        ensure!(g.update.len() == n && g.covariance.len() == n && g.n_params == n && g.n_obs == rows.len() && g.chi2 == e.chi2, "result shape");
        let dof = rows.len().saturating_sub(n).max(1) as f64;
        ensure!(close(g.reduced_chi2(), chi / dof, 1e-300, 1e-12), "reduced chi2 {}", g.reduced_chi2());
        // Work in scaled variables.
        let d: Vec<f64> = (0..n).map(|i| a[i][i].sqrt()).collect();
        let x: Vec<f64> = (0..n).map(|i| g.update[i] * d[i]).collect();
        let nx = x.iter().map(|v| v.abs()).fold(0.0, f64::max);
        for i in 0..n { let r: f64 = (0..n).map(|j| a[i][j] / d[i] / d[j] * x[j]).sum::<f64>() - b[i] / d[i]; ensure!(r.abs() <= 1e-11 * (nx * n as f64 + b[i].abs() / d[i]), "normal equation {i} is off by {r:e} (update {:?})", g.update) }
        for i in 0..n { for j in 0..n {
            let cmax = (0..n).map(|k| (g.covariance[k][j] * d[k] * d[j]).abs()).fold(0.0, f64::max);
            let v: f64 = (0..n).map(|k| a[i][k] / d[i] / d[k] * (g.covariance[k][j] * d[k] * d[j])).sum();
            ensure!((v - if i == j { 1.0 } else { 0.0 }).abs() <= 1e-11 * cmax * n as f64, "covariance is not the inverse at {i},{j}: {v}");
        } }
        // Metamorphic: row order and a common factor on the sigmas.
        let mut other: Vec<Row> = rows.iter().map(|(h, r, s)| { let mut h = h.clone(); h.reverse(); (h, *r, s * k) }).collect();
        if *rev { other.reverse() }
        let cmax = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| (g.covariance[i][j] * d[i] * d[j]).abs()).fold(0.0, f64::max);
        for i in 0..n { for j in 0..i { ensure!((g.covariance[i][j] - g.covariance[j][i]).abs() * d[i] * d[j] <= 1e-13 * cmax.max(1.0) * cmax.max(1.0) * n as f64, "asymmetric covariance: {} and {}", g.covariance[i][j], g.covariance[j][i]) } }
        if cmax < 1e6 {
            let o = np("solve", || assemble(n, &other).unwrap().solve())?.map_err(|e| e.to_string())?;
            for i in 0..n { ensure!((o.update[i] - g.update[i]).abs() * d[i] <= 1e-9 * nx * cmax, "update {i} depends on row order or a common sigma factor: {} and {}", o.update[i], g.update[i]); for j in 0..n { ensure!((o.covariance[i][j] - k * k * g.covariance[i][j]).abs() * d[i] * d[j] <= 1e-9 * cmax * cmax * k * k, "covariance does not scale with sigma squared") } }
        }
        let sc = g.to_state_covariance();
        ensure!(sc.is_some() == (n == 6), "state covariance from {n} parameters: {}", sc.is_some());
        if let Some(s) = sc { let m = s.to_row_major(); for i in 0..6 { for j in 0..6 { let want = g.covariance[i][j]; ensure!((m[i][j] - want).abs() * d[i] * d[j] <= 1e-9 * cmax, "state covariance {i},{j} is {} instead of {want}", m[i][j]) } } }
        Ok(if cmax < 1e6 { "solved" } else { "ill-conditioned" })
    });
    c.prop("six-parameter solutions become state covariances", 1500, || proptest::collection::vec((proptest::collection::vec(-1.0f64..1.0, 6), logu(-1.0, 1.0)), 12..30), |obs| {
        let rows: Vec<Row> = obs.iter().map(|(h, s)| (h.iter().copied().enumerate().collect(), 1.0, *s)).collect();
        let Ok(g) = np("solve", || assemble(6, &rows).unwrap().solve())? else { return Ok("-singular") };
        let m = g.to_state_covariance().ok_or("no state covariance")?.to_row_major();
        let big = g.covariance.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        for i in 0..6 { for j in 0..6 { ensure!((m[i][j] - g.covariance[i][j]).abs() <= 1e-9 * big, "element {i},{j}: {} instead of {}", m[i][j], g.covariance[i][j]) } }
        Ok("converted")
    });
    c.prop("bad rows are refused and leave no trace", 15000, || (rows(6), 0usize..6, proptest::collection::vec((0usize..6, -1.0f64..1.0), 0..4), any::<proptest::sample::Index>()), |((n, rows), bad, pre, at)| {
        let n = *n;
        let mut e = assemble(n, rows)?;
        let before = e.clone();
        let mut h: Vec<(usize, f64)> = pre.iter().map(|(i, x)| (i % n, *x)).collect();
        let at = at.index(h.len() + 1);
        let (mut r, mut s) = (1.0, 1.0);
        match bad { 0 => s = 0.0, 1 => s = f64::NAN, 2 => s = -1.0, 3 => r = f64::NAN, 4 => h.insert(at, (n + at, 1.0)), _ => h.insert(at, (0, f64::INFINITY)) }
        ensure!(np("add_row", || e.add_row(&h, r, s))?.is_err(), "row {h:?}, residual {r}, sigma {s} accepted");
        ensure!(e.n_obs == before.n_obs && e.chi2 == before.chi2, "a refused row was counted");
        for i in 0..n { ensure!(e.b[(i, 0)] == before.b[(i, 0)], "refused row {h:?} changed the right-hand side"); for j in 0..n { ensure!(e.n_matrix[(i, j)] == before.n_matrix[(i, j)], "refused row {h:?} changed the normal matrix") } }
        Ok(["sigma", "sigma", "sigma", "residual", "index", "partial"][*bad])
    });
    c.prop("Gauss-Newton ends where the gradient vanishes", 20000, || ([-50.0f64..50.0, -50.0f64..50.0, -50.0f64..50.0], proptest::collection::vec((unit_vec(), logu(2.0, 4.0), logu(-2.0, 0.0), -3.0f64..3.0), 6..16), [-5.0f64..5.0, -5.0f64..5.0, -5.0f64..5.0], -20.0f64..20.0, prop_oneof![2 => Just(0.0), 3 => Just(1.0)], logu(-9.0, -4.0), any::<bool>()), |(truth, beacons, off, bias, noise, tol, linear)| {
        // Position and clock bias from ranges (or from direction cosines when linear).
        let n = 4;
        let place: Vec<[f64; 3]> = beacons.iter().map(|(u, d, _, _)| u.map(|x| x * d)).collect();
        let range = |k: usize, p: &[f64]| -> (f64, [f64; 3]) { if *linear { let u = beacons[k].0; (u[0] * p[0] + u[1] * p[1] + u[2] * p[2] + p[3], u) } else { let v = [p[0] - place[k][0], p[1] - place[k][1], p[2] - place[k][2]]; let d = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt(); (d + p[3], v.map(|x| x / d)) } };
        let t = [truth[0], truth[1], truth[2], *bias];
        let obs: Vec<f64> = beacons.iter().enumerate().map(|(k, (_, _, s, z))| range(k, &t).0 + noise * s * z).collect();
        let make = |p: &[f64]| -> Vec<Row> { beacons.iter().enumerate().map(|(k, (_, _, s, _))| { let (c, u) = range(k, p); (vec![(0, u[0]), (1, u[1]), (2, u[2]), (3, 1.0)], obs[k] - c, *s) }).collect() };
        let step = |p: &[f64]| { let (a, b, chi) = dense(n, &make(p)); (lu_solve(&a, &b), a, chi) };
        // Geometry good enough for the normal matrix to be trusted.
        let (_, a, _) = step(&t);
        let Some(inv) = (0..n).map(|i| { let mut e = vec![0.0; n]; e[i] = 1.0; lu_solve(&a, &e) }).collect::<Option<M>>() else { return Ok("-singular") };
        let dop: f64 = (0..n).map(|i| inv[i][i] * a[i][i]).fold(0.0, f64::max);
        if !(dop < 1e3) { return Ok("-poor geometry") }
        let start = vec![t[0] + off[0], t[1] + off[1], t[2] + off[2], 0.0];
        let seen = std::cell::RefCell::new(Vec::<Vec<f64>>::new());
        let opts = NonlinearOptions { max_iter: 60, tol_rel: *tol, tol_chi2_rel: 1e-6 };
        let g = np("gauss_newton", || gauss_newton(start.clone(), opts, |p| { seen.borrow_mut().push(p.to_vec()); let mut e = NormalEquations::new(n); for (h, r, s) in make(p) { e.add_row(&h, r, s)? } Ok(e) }))?;
        let seen = seen.into_inner();
        // The reference iteration.
        let mut p = start.clone();
        let mut hist = vec![p.clone()];
        for _ in 0..60 { let Some(d) = step(&p).0 else { break }; for i in 0..n { p[i] += d[i] } hist.push(p.clone()); if !p.iter().all(|x| x.is_finite()) { break } }
        let settled = hist.len() == 61 && (50..60).all(|k| (0..n).all(|i| (hist[60][i] - hist[k][i]).abs() < 1e-9));
        if !settled { return Ok("-reference iteration does not settle") }
        let g = g.map_err(|e| format!("{e} although the iteration settles at {:?} (noise {noise}, tolerance {tol:e})", hist[60]))?;
        ensure!(seen.len() == g.iterations && seen[0] == start, "{} linearisations in {} iterations", seen.len(), g.iterations);
        for (k, s) in seen.iter().enumerate() { ensure!((0..n).all(|i| (s[i] - hist[k][i]).abs() <= 1e-8 * (1.0 + s[i].abs())), "iteration {k} linearised about {s:?} instead of {:?}", hist[k]) }
        let scale = |i: usize| hist[60][i].abs().max(1.0);
        // Converged: the remaining steps of a linearly convergent iteration stay of the order of the tolerance.
        let rate = if hist.len() > g.iterations + 1 { let d = |k: usize| (0..n).map(|i| (hist[k + 1][i] - hist[k][i]).abs()).fold(0.0, f64::max); if g.iterations >= 2 { (d(g.iterations - 1) / d(g.iterations - 2).max(1e-300)).min(0.95) } else { 0.5 } } else { 0.5 };
        for i in 0..n { ensure!((g.parameters[i] - hist[60][i]).abs() <= (20.0 * tol / (1.0 - rate) + 1e-9) * scale(i), "parameter {i} is {} after {} iterations, the minimum is at {}", g.parameters[i], g.iterations, hist[60][i]) }
        ensure!((0..n).all(|i| (g.parameters[i] - seen.last().unwrap()[i] - g.last.update[i]).abs() <= 1e-12 * (1.0 + g.parameters[i].abs())), "the last update is not the last step");
        if *noise == 0.0 { ensure!((0..n).all(|i| (g.parameters[i] - t[i]).abs() <= 1e-6 * dop.sqrt() + 40.0 * tol * scale(i)), "noise-free observations give {:?} instead of {t:?}", g.parameters) }
        let chi = step(&g.parameters).2;
        ensure!(close(g.last.chi2, chi, 1e-3 + 1e-9 * g.last.n_obs as f64, 1e-2), "reported chi2 {} at a point of chi2 {chi}", g.last.chi2);
        Ok(if *noise == 0.0 { "exact data" } else if *linear { "linear" } else { "noisy ranges" })
    });
    c.prop("bad nonlinear problems are errors", 2500, || (0usize..8, 1usize..5, -1e3f64..1e3), |(bad, n, x)| {
        let d = NonlinearOptions::default();
        let opts = match bad { 0 => NonlinearOptions { max_iter: 0, ..d }, 1 => NonlinearOptions { tol_rel: f64::NAN, ..d }, 2 => NonlinearOptions { tol_rel: -1.0, ..d }, 3 => NonlinearOptions { tol_chi2_rel: f64::INFINITY, ..d }, _ => d };
        let mut start = vec![*x; *n];
        if *bad == 4 { start[n - 1] = f64::NAN }
        let calls = std::cell::Cell::new(0usize);
        let r = np("gauss_newton", || gauss_newton(start, opts, |p| {
            calls.set(calls.get() + 1);
            let size = if *bad == 5 { p.len() + 1 } else { p.len() };
            let mut e = NormalEquations::new(size);
            for i in 0..size { if *bad == 6 && i == 0 { continue } e.add_row(&[(i, 1.0)], if *bad == 7 { 1e3 * (1.0 + calls.get() as f64) } else { 1.0 }, 1.0)? }
            Ok(e)
        }))?;
        match bad { 7 => ensure!(matches!(r, Err(NonlinearError::DidNotConverge(12))) && calls.get() == 12, "a diverging iteration: {r:?} after {} calls", calls.get()), 5 | 6 => ensure!(matches!(r, Err(NonlinearError::Solver(_))) && calls.get() == 1, "wrong size or singular: {r:?}"), _ => ensure!(matches!(r, Err(NonlinearError::Solver(_))) && calls.get() == 0, "bad options accepted: {r:?}") }
        Ok("refused")
    });
    c.prop("the filter is the Kalman filter and agrees with the batch", 15000, || (proptest::array::uniform6(-1e4f64..1e4), cov(), proptest::collection::vec((proptest::array::uniform6(-1.0f64..1.0), -10.0f64..10.0, logu(-6.0, 2.0), prop_oneof![3 => Just(None), 1 => (proptest::collection::vec(-0.3f64..0.3, 36), prop_oneof![Just(None), cov().prop_map(Some)], proptest::array::uniform6(-1e4f64..1e4)).prop_map(Some)]), 1..10)), |(y0, p0, steps)| {
        let mut f = OrbitEkf::new(state(y0), StateCovariance::<GCRS>::from_row_major(*p0));
        let (mut x, mut p) = (*y0, *p0);
        let mut epoch = state(y0).epoch;
        // Information accumulated since the last time update, for the batch comparison.
        let (mut base_p, mut info): (M6, Vec<([f64; 6], f64)>) = (p, vec![]);
        for (h, inn, r, pred) in steps {
            if let Some((phi, q, y)) = pred {
                let mut ph = [[0.0; 6]; 6];
                for i in 0..6 { for j in 0..6 { ph[i][j] = phi[6 * i + j] + if i == j { 1.0 } else { 0.0 } } }
                np("predict", || f.predict(state(y), ph, q.map(StateCovariance::<GCRS>::from_row_major)))?;
                let mut t = [[0.0; 6]; 6];
                let mut size = t;
                for i in 0..6 { for j in 0..6 { for k in 0..6 { for l in 0..6 { let v: f64 = ph[i][k] * p[k][l] * ph[j][l]; t[i][j] += v; size[i][j] += v.abs() } } if let Some(q) = q { t[i][j] += q[i][j] } } }
                x = *y;
                p = t;
                epoch = state(y).epoch;
                ensure!(comps(f.state()) == x && f.state().epoch == epoch, "predict did not replace the state");
                let gp = f.covariance().to_row_major();
                for i in 0..6 { for j in 0..6 { ensure!((gp[i][j] - p[i][j]).abs() <= 1e-12 * (size[i][j] + p[i][j].abs()), "predicted covariance {i},{j} is {} instead of {}", gp[i][j], p[i][j]) } }
                p = gp;
                base_p = p;
                info.clear();
            }
            let scaled: [f64; 6] = std::array::from_fn(|i| h[i] / p[i][i].sqrt());
            let g = np("update_scalar", || f.update_scalar(scaled, *inn, *r))?.map_err(|e| e.to_string())?;
            ensure!(f.state().epoch == epoch, "a measurement moved the epoch from {epoch:?} to {:?}", f.state().epoch);
            let ph: [f64; 6] = std::array::from_fn(|i| (0..6).map(|j| p[i][j] * scaled[j]).sum());
            let s = (0..6).map(|i| scaled[i] * ph[i]).sum::<f64>() + r;
            let sd: Vec<f64> = (0..6).map(|i| p[i][i].sqrt()).collect();
            ensure!((g.variance - s).abs() <= 1e-13 * (36.0 + r) && g.innovation == *inn && close(g.nis, inn * inn / g.variance, 1e-12, 1e-9), "innovation record {g:?}, expected variance {s}");
            for i in 0..6 { x[i] += ph[i] / s * inn }
            for i in 0..6 { for j in 0..6 { p[i][j] -= ph[i] * ph[j] / s } }
            info.push((scaled, *r));
            let (gx, gp) = (comps(f.state()), f.covariance().to_row_major());
            for i in 0..6 { ensure!((gx[i] - x[i]).abs() <= 1e-9 * (x[i].abs() + sd[i] * inn.abs() / s.sqrt()), "component {i} is {} instead of {}", gx[i], x[i]); for j in 0..6 { ensure!((gp[i][j] - p[i][j]).abs() <= 1e-10 * sd[i] * sd[j], "covariance {i},{j} is {} instead of {}", gp[i][j], p[i][j]); ensure!(gp[i][j] == gp[j][i], "asymmetric covariance") } }
            // Each step is judged from where the filter itself stands.
            (x, p) = (gx, gp);
            ensure!(gp.iter().flatten().all(|v| v.is_finite()) && (0..6).all(|i| gp[i][i] >= 0.0) && min_eigen(&gp) > -1e-6, "covariance is not positive semi-definite: {}", min_eigen(&gp));
        }
        // Batch: inverse covariance plus information, in scaled variables.
        let d: Vec<f64> = (0..6).map(|i| base_p[i][i].sqrt()).collect();
        let sc: M = (0..6).map(|i| (0..6).map(|j| base_p[i][j] / d[i] / d[j]).collect()).collect();
        let Some(inv) = (0..6).map(|i| { let mut e = vec![0.0; 6]; e[i] = 1.0; lu_solve(&sc, &e) }).collect::<Option<M>>() else { return Ok("-singular prior") };
        let mut a = inv.clone();
        for (h, r) in &info { for i in 0..6 { for j in 0..6 { a[i][j] += h[i] * d[i] * h[j] * d[j] / r } } }
        let Some(post) = (0..6).map(|i| { let mut e = vec![0.0; 6]; e[i] = 1.0; lu_solve(&a, &e) }).collect::<Option<M>>() else { return Ok("-singular information") };
        let cond = inv.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs())) + a.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
        let gp = f.covariance().to_row_major();
        for i in 0..6 { for j in 0..6 { ensure!((gp[i][j] / d[i] / d[j] - post[i][j]).abs() <= 1e-9 + 1e-13 * cond, "after {} updates the covariance {i},{j} is {}, the batch gives {}", info.len(), gp[i][j], post[i][j] * d[i] * d[j]) } }
        Ok("filtered")
    });
    c.prop("standard deviations, perfect and impossible measurements", 7500, || (proptest::array::uniform6(-1e4f64..1e4), proptest::array::uniform6(logu(-4.0, 2.0)), proptest::array::uniform6(-1.0f64..1.0), -5.0f64..5.0, 0usize..8), |(y, s, h, inn, kind)| {
        let mut f = np("from_stddevs", || OrbitEkf::from_stddevs(state(y), [s[0], s[1], s[2]], [s[3], s[4], s[5]]))?;
        let p = f.covariance().to_row_major();
        for i in 0..6 { for j in 0..6 { ensure!(close(p[i][j], if i == j { s[i] * s[i] } else { 0.0 }, 0.0, 1e-14), "covariance {i},{j} is {} from sigmas {s:?}", p[i][j]) } }
        let bad = |f: &mut OrbitEkf, h: [f64; 6], inn: f64, r: f64| -> Result<(), String> { let r = np("update_scalar", || f.update_scalar(h, inn, r))?; ensure!(r.is_err(), "accepted: {r:?}"); Ok(()) };
        let mut hn = *h; hn[kind % 6] = f64::NAN;
        match kind { 0 => bad(&mut f, *h, *inn, -1e-9)?, 1 => bad(&mut f, *h, *inn, f64::NAN)?, 2 => bad(&mut f, *h, f64::INFINITY, 1.0)?, 3 => bad(&mut f, hn, *inn, 1.0)?, 4 => bad(&mut f, [0.0; 6], *inn, 0.0)?,
            _ => { // A perfect measurement removes all uncertainty along it.
                if h.iter().zip(s).all(|(a, b)| (a * b).abs() < 1e-6) { return Ok("-insensitive") }
                np("update_scalar", || f.update_scalar(*h, *inn, 0.0))?.map_err(|e| e.to_string())?;
                let (g, x) = (f.covariance().to_row_major(), comps(f.state()));
                let v: f64 = (0..6).map(|i| (0..6).map(|j| h[i] * g[i][j] * h[j]).sum::<f64>()).sum();
                let v0: f64 = (0..6).map(|i| h[i] * h[i] * s[i] * s[i]).sum();
                ensure!(v.abs() <= 1e-9 * v0, "variance {v:e} left along a perfect measurement (from {v0:e})");
                let moved: f64 = (0..6).map(|i| h[i] * (x[i] - y[i])).sum();
                ensure!((moved - inn).abs() <= 1e-9 * (1.0 + y.iter().fold(0.0f64, |m, v| m.max(v.abs()))), "prediction moved by {moved} for an innovation of {inn}");
                return Ok("perfect measurement");
            } }
        ensure!(comps(f.state()) == *y && f.covariance().to_row_major() == p, "a refused measurement changed the filter");
        Ok("refused")
    });
    c.prop("parameter orderings and covariance validation", 10000, || (proptest::collection::vec((0u8..13, "[A-C]", "[1-2]"), 0..8), proptest::collection::vec(-1.0f64..1.0, 64), 0usize..7, any::<proptest::sample::Index>(), any::<proptest::sample::Index>(), logu(-12.0, -1.0)), |(kinds, raw, damage, ia, ib, tol)| {
        let kind = |(k, a, b): &(u8, String, String)| match k { 0 => ParameterKind::StatePositionX, 1 => ParameterKind::StatePositionY, 2 => ParameterKind::StatePositionZ, 3 => ParameterKind::StateVelocityX, 4 => ParameterKind::StateVelocityY, 5 => ParameterKind::StateVelocityZ, 6 => ParameterKind::ReceiverClockBias { receiver_id: a.clone() }, 7 => ParameterKind::DragScale, 8 => ParameterKind::SrpScale, 9 => ParameterKind::CarrierAmbiguity { receiver_id: a.clone(), satellite_id: b.clone(), signal: a.clone() }, 10 => ParameterKind::SlrRangeBias { station_id: a.clone() }, 11 => ParameterKind::EmpiricalAcceleration { frame: b.clone(), component: a.chars().next().unwrap() }, _ => ParameterKind::Custom(b.clone()) };
        let n = kinds.len();
        let ord = ParameterOrdering { params: kinds.iter().map(|k| Parameter { kind: kind(k), initial_value: 1.0, apriori_sigma: None }).collect() };
        ensure!(ord.len() == n && ord.is_empty() == (n == 0), "length {}", ord.len());
        for k in kinds.iter() { let w = kinds.iter().position(|x| kind(x) == kind(k)); ensure!(ord.index_of(&kind(k)) == w, "{:?} at {:?}, expected {w:?}", kind(k), ord.index_of(&kind(k))) }
        let absent = ParameterKind::Custom("absent".into());
        ensure!(ord.index_of(&absent).is_none(), "an absent parameter was found");
        let mut data = vec![0.0; n * n];
        for i in 0..n { for j in 0..n { data[i * n + j] = raw[(i.min(j) * 8 + i.max(j)) % 64] } data[i * n + i] = data[i * n + i].abs() }
        let mut dim = true; let mut sym = true; let mut diag = true;
        if n >= 2 {
            let (i, j) = (ia.index(n), ib.index(n));
            match damage { 1 => { data.pop(); (dim, sym, diag) = (false, false, false) } 2 => { data.push(0.0); (dim, sym, diag) = (false, false, false) }
                3 if i != j => { data[i * n + j] += 2.0 * tol; sym = false } 4 if i != j => data[i * n + j] += 0.25 * tol,
                5 => { data[i * n + i] = -1e-9; diag = false } 6 => { data[i * n + j] = f64::NAN; sym = i == j; diag = i != j; if i == j { return Ok("-NaN on the diagonal") } } _ => {} }
        }
        let c = ParameterCovariance { params: ord, data };
        ensure!(c.n() == n, "size {}", c.n());
        let (d, s, g) = (np("validate_dim", || c.validate_dim())?, np("validate_symmetric", || c.validate_symmetric(*tol))?, np("validate_diagonal_nonneg", || c.validate_diagonal_nonneg())?);
        ensure!(d.is_ok() == dim && s.is_ok() == sym && g.is_ok() == diag, "n {n}, damage {damage}: {d:?} {s:?} {g:?}");
        Ok(if n < 2 { "-too small" } else { "validated" })
    });
    c.finish();
}
