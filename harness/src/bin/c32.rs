//! C32: propagation solves the equations of motion; transition matrices are derivatives of the final state.
use principia::{AccelerationModel, AccelerationPartials, CompositeModel, Dop853, Dopri5, EventDirection, IntegratorTolerances, PrincipiaError, RadialThresholdEvent, StateTransitionMatrix, TwoBody, J2};
use proptest::prelude::*;
use siderust::astro::dynamics::context::DynamicsContext;
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::propagation::*;
use siderust::astro::dynamics::units::GravitationalParameter;
use siderust::astro::dynamics::{Acceleration, OrbitState, Position, SpacecraftProperties, SpacecraftState, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::pod::propagation::validation::max_rel_stm_predict_error;
use siderust::pod::propagation::*;
use siderust::qtty::{AreaToMass, DragCoefficient, Kilometers, Second};
use siderust::time::JulianDate;
use tempoch::TT;
use vharness::gen::*;
use vharness::*;

type V = [f64; 3];
type Y = [f64; 6];
const MU: f64 = 398_600.441_8;
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn norm(a: V) -> f64 { dot(a, a).sqrt() }
fn r_of(y: &Y) -> V { [y[0], y[1], y[2]] }
fn v_of(y: &Y) -> V { [y[3], y[4], y[5]] }
fn state(jd: f64, y: &Y) -> OrbitState { OrbitState::new(JulianDate::new(jd).to_j2000s(), Position::<GCRS>::new(y[0], y[1], y[2]), Velocity::<GCRS>::new(y[3], y[4], y[5])) }
fn comps(s: &OrbitState) -> Y { [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()] }

// ------------------------------------------------------------------ reference dynamics
/// Two-body motion with optional J2 about the z axis and an oscillating push.
#[derive(Clone, Copy, Debug)]
struct Ref { mu: f64, j2: f64, re: f64, push: V, w: f64 }
impl Ref {
    fn deriv(&self, t: f64, y: &Y) -> Y {
        let r = r_of(y);
        let d = norm(r);
        let k = -self.mu / d.powi(3);
        let z2 = (r[2] / d).powi(2);
        let q = 1.5 * self.j2 * (self.re / d).powi(2);
        let f = [k * r[0] * (1.0 + q * (1.0 - 5.0 * z2)), k * r[1] * (1.0 + q * (1.0 - 5.0 * z2)), k * r[2] * (1.0 + q * (3.0 - 5.0 * z2))];
        let c = (self.w * t).cos();
        [y[3], y[4], y[5], f[0] + self.push[0] * c, f[1] + self.push[1] * c, f[2] + self.push[2] * c]
    }
    /// Gragg-Bulirsch-Stoer extrapolation over steps of about 1/40 of the local orbital time.
    fn go(&self, y0: &Y, dt: f64) -> Y {
        let (mut y, mut t) = (*y0, 0.0);
        while (dt - t).abs() > 0.0 {
            let d = norm(r_of(&y));
            let vel = norm(v_of(&y)).max((2.0 * self.mu / d).sqrt());
            let mut h = 0.15 * d / vel * dt.signum();
            if self.w > 0.0 { h = h.abs().min(0.5 / self.w) * dt.signum() }
            if (t + h - dt) * dt.signum() >= 0.0 { h = dt - t; }
            let ns = [2usize, 4, 6, 8, 10, 12, 14, 16];
            let mut tab: Vec<Vec<Y>> = Vec::new();
            for (i, &n) in ns.iter().enumerate() {
                let hs = h / n as f64;
                let mut a = y;
                let f = self.deriv(t, &a);
                let mut b: Y = std::array::from_fn(|k| a[k] + hs * f[k]);
                for s in 1..n { let f = self.deriv(t + s as f64 * hs, &b); let nx: Y = std::array::from_fn(|k| a[k] + 2.0 * hs * f[k]); a = b; b = nx }
                let f = self.deriv(t + h, &b);
                let s: Y = std::array::from_fn(|k| 0.5 * (a[k] + b[k] + hs * f[k]));
                let mut row = vec![s];
                for j in 1..=i { let q = (n as f64 / ns[i - j] as f64).powi(2) - 1.0; let p = row[j - 1]; let u = tab[i - 1][j - 1]; row.push(std::array::from_fn(|k| p[k] + (p[k] - u[k]) / q)) }
                tab.push(row);
            }
            y = *tab[ns.len() - 1].last().unwrap();
            if h == dt - t { break }
            t += h;
        }
        y
    }
    fn rk4(&self, y0: &Y, dt: f64, n: usize) -> Y {
        let h = dt / n as f64;
        let mut y = *y0;
        for s in 0..n {
            let t = s as f64 * h;
            let k1 = self.deriv(t, &y);
            let k2 = self.deriv(t + h / 2.0, &std::array::from_fn(|k| y[k] + h / 2.0 * k1[k]));
            let k3 = self.deriv(t + h / 2.0, &std::array::from_fn(|k| y[k] + h / 2.0 * k2[k]));
            let k4 = self.deriv(t + h, &std::array::from_fn(|k| y[k] + h * k3[k]));
            y = std::array::from_fn(|k| y[k] + h / 6.0 * (k1[k] + 2.0 * k2[k] + 2.0 * k3[k] + k4[k]));
        }
        y
    }
    /// Position and velocity error of RK4 with steps of at least `h` (or one step).
    fn rk4_error(&self, y0: &Y, dt: f64, h: f64, truth: &Y) -> (f64, f64) {
        let e = self.rk4(y0, dt, (dt.abs() / h).floor().max(1.0) as usize);
        (dist(&e, truth), norm([e[3] - truth[3], e[4] - truth[4], e[5] - truth[5]]))
    }
    /// Derivative of the final state with respect to the initial one (fourth-order differences).
    fn stm(&self, y0: &Y, dt: f64) -> [[f64; 6]; 6] {
        let mut m = [[0.0; 6]; 6];
        for j in 0..6 {
            let d = if j < 3 { 1e-4 * norm(r_of(y0)) } else { 1e-4 * norm(v_of(y0)) };
            let at = |k: f64| { let mut y = *y0; y[j] += k * d; self.go(&y, dt) };
            let (a, b, c, e) = (at(1.0), at(-1.0), at(2.0), at(-2.0));
            for i in 0..6 { m[i][j] = (8.0 * (a[i] - b[i]) - (c[i] - e[i])) / (12.0 * d) }
        }
        m
    }
}
/// Universal-variable two-body motion.
fn kepler(mu: f64, y: &Y, dt: f64) -> Y {
    let (r0, v0) = (r_of(y), v_of(y));
    let (d0, rv) = (norm(r0), dot(r0, v0));
    let alpha = 2.0 / d0 - dot(v0, v0) / mu;
    let sm = mu.sqrt();
    let stumpff = |z: f64| -> (f64, f64) {
        if z.abs() < 0.1 { let (mut c, mut s, mut tc, mut ts) = (0.0, 0.0, 0.5, 1.0 / 6.0); for k in 0..12 { c += tc; s += ts; tc *= -z / ((2 * k + 3) as f64 * (2 * k + 4) as f64); ts *= -z / ((2 * k + 4) as f64 * (2 * k + 5) as f64) } (c, s) }
        else if z > 0.0 { let q = z.sqrt(); ((1.0 - q.cos()) / z, (q - q.sin()) / (q * z)) } else { let q = (-z).sqrt(); ((q.cosh() - 1.0) / -z, (q.sinh() - q) / (q * -z)) }
    };
    let f = |x: f64| { let z = alpha * x * x; let (c, s) = stumpff(z); (rv / sm * x * x * c + (1.0 - alpha * d0) * x.powi(3) * s + d0 * x - sm * dt, rv / sm * x * (1.0 - z * s) + (1.0 - alpha * d0) * x * x * c + d0) };
    // The equation is monotone: bracket and bisect with Newton steps.
    let (mut lo, mut hi) = (0.0, sm * dt / d0);
    while f(hi).0 * dt.signum() < 0.0 { hi *= 2.0 }
    if hi < lo { std::mem::swap(&mut lo, &mut hi) }
    let mut x = 0.5 * (lo + hi);
    for _ in 0..200 { let (g, dg) = f(x); if g > 0.0 { hi = x } else { lo = x } let n = x - g / dg; let nx = if n > lo && n < hi { n } else { 0.5 * (lo + hi) }; if (nx - x).abs() <= 1e-16 * x.abs() { x = nx; break } x = nx }
    let z = alpha * x * x;
    let (c, s) = stumpff(z);
    let (ff, gg) = (1.0 - x * x / d0 * c, dt - x.powi(3) / sm * s);
    let r: V = std::array::from_fn(|k| ff * r0[k] + gg * v0[k]);
    let d = norm(r);
    let (fd, gd) = (sm / (d * d0) * x * (z * s - 1.0), 1.0 - x * x / d * c);
    let v: V = std::array::from_fn(|k| fd * r0[k] + gd * v0[k]);
    [r[0], r[1], r[2], v[0], v[1], v[2]]
}
/// The library's view of `Ref`, with exact partials unless a push is present.
#[derive(Clone, Copy, Debug)]
struct Push { push: V, w: f64, t0: f64 }
impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Push {
    fn name(&self) -> &'static str { "push" }
    fn acceleration(&self, s: &OrbitState, _: &DynamicsContext) -> Result<Acceleration, PrincipiaError> { let c = (self.w * (s.epoch - JulianDate::new(self.t0).to_j2000s()).value()).cos(); Ok(Acceleration::new(self.push[0] * c, self.push[1] * c, self.push[2] * c)) }
}
/// A spring: acceleration -k r, with partials off by a factor.
#[derive(Clone, Copy, Debug)]
struct Spring { k: f64, wrong: f64 }
impl AccelerationModel<DynamicsContext, TT, Geocentric, GCRS> for Spring {
    fn name(&self) -> &'static str { "spring" }
    fn acceleration(&self, s: &OrbitState, _: &DynamicsContext) -> Result<Acceleration, PrincipiaError> { let y = comps(s); Ok(Acceleration::new(-self.k * y[0], -self.k * y[1], -self.k * y[2])) }
    fn partials(&self, _: &OrbitState, _: &DynamicsContext) -> Result<AccelerationPartials<GCRS>, PrincipiaError> {
        let d = -self.k * self.wrong;
        Ok(AccelerationPartials { d_acc_d_pos: affn::matrix3::FrameMatrix3::from_array([[d, 0.0, 0.0], [0.0, d, 0.0], [0.0, 0.0, d]]), d_acc_d_vel: affn::matrix3::FrameMatrix3::from_array([[0.0; 3]; 3]) })
    }
}
type Composite = CompositeModel<DynamicsContext, TT, Geocentric, GCRS>;
fn composite(m: &Ref, t0: f64) -> Composite {
    let mut c = Composite::empty().push(Box::new(TwoBody::new(GravitationalParameter::new(m.mu))));
    if m.j2 != 0.0 { c = c.push(Box::new(J2::new(GravitationalParameter::new(m.mu), Kilometers::new(m.re), m.j2))) }
    if m.push != [0.0; 3] { c = c.push(Box::new(Push { push: m.push, w: m.w, t0 })) }
    c
}

// ------------------------------------------------------------------ generators
/// Orbits by perigee, eccentricity, orientation and place: (state, eccentricity, mean motion at perigee).
fn orbit(emax: f64) -> impl Strategy<Value = (Y, f64, f64)> {
    (prop_oneof![4 => 6_600.0f64..9_000.0, 2 => 9_000.0f64..45_000.0], prop_oneof![1 => Just(0.0), 3 => 0.0f64..0.05, 4 => 0.0f64..emax], unit_vec(), unit_vec(), 0.0f64..std::f64::consts::TAU).prop_filter_map("plane", |(q, e, u, w, th)| {
        let p = dot(u, w);
        let b: V = std::array::from_fn(|k| w[k] - p * u[k]);
        let nb = norm(b);
        if nb < 1e-3 { return None }
        let th = if e < 1.0 { th } else { (th - 3.14) * 0.5 };
        let (sl, mu_h) = (q * (1.0 + e), (MU / (q * (1.0 + e))).sqrt());
        let r = sl / (1.0 + e * th.cos());
        let pos: V = std::array::from_fn(|k| r * (th.cos() * u[k] + th.sin() * b[k] / nb));
        let vel: V = std::array::from_fn(|k| mu_h * (-th.sin() * u[k] + (e + th.cos()) * b[k] / nb));
        Some(([pos[0], pos[1], pos[2], vel[0], vel[1], vel[2]], e, (MU * (1.0 + e) / q.powi(3)).sqrt()))
    })
}
fn arc() -> impl Strategy<Value = f64> { (prop_oneof![1 => Just(0.0), 3 => logu(-2.0, 2.0), 6 => logu(2.0, 4.3)], any::<bool>()).prop_map(|(d, b)| if b { d } else { -d }) }
fn tol(k: f64) -> IntegratorTolerances { IntegratorTolerances::uniform(k, k * 1e3, k) }

#[derive(Clone, Copy, Debug)]
enum Which { Rk4(f64), Dopri5(f64), Dop853(f64) }
fn which() -> impl Strategy<Value = Which> { prop_oneof![2 => (1.0f64..30.0).prop_map(Which::Rk4), 3 => logu(-12.0, -8.0).prop_map(Which::Dopri5), 3 => logu(-12.5, -8.0).prop_map(Which::Dop853)] }
type R = Result<OrbitState, String>;
/// Through the POD integrators.
fn pod(w: Which, m: &Composite, s: OrbitState, dt: f64, ctx: &DynamicsContext) -> Result<R, String> {
    let dt = Second::new(dt);
    np("Integrator::propagate", || match w { Which::Rk4(h) => Rk4Integrator { step: Second::new(h) }.propagate(m, s, dt, ctx), Which::Dopri5(k) => Dopri5Integrator { tolerances: tol(k) }.propagate(m, s, dt, ctx), Which::Dop853(k) => Dop853Integrator { tolerances: tol(k) }.propagate(m, s, dt, ctx) }.map_err(|e| e.to_string()))
}
/// Through the astronomy facade.
fn facade(w: Which, m: Composite, s: OrbitState, dt: f64, steps: usize) -> Result<R, String> {
    let dt = Second::new(dt);
    let cfg = |k| PropagatorConfig { tolerances: tol(k), max_steps: steps, event_dt: None };
    np("Propagator::propagate", || match w {
        Which::Rk4(h) => Rk4Propagator::new(FixedRk4Adapter::new(Second::new(h)), m, cfg(1e-9), DynamicsContext::empty()).propagate(s, dt),
        Which::Dopri5(k) => Dopri5Propagator::new(Dopri5::new(tol(k)), m, cfg(k), DynamicsContext::empty()).propagate(s, dt),
        Which::Dop853(k) => Dop853Propagator::new(Dop853::new(tol(k)), m, cfg(k), DynamicsContext::empty()).propagate(s, dt),
    }.map_err(|e| e.to_string()))
}
/// Position error allowed after `dt`: local error per step grown by the dynamics.
fn bound(m: &Ref, w: Which, y0: &Y, truth: &Y, n: f64, dt: f64) -> (f64, f64) {
    let size = norm(r_of(y0)).max(norm(r_of(truth)));
    let turns = 1.0 + n * dt.abs();
    let floor = 1e-13 * size * turns * turns;
    match w {
        // Classical Runge-Kutta with no smaller a step is the yardstick.
        Which::Rk4(h) => { let (p, v) = m.rk4_error(y0, dt, h, truth); (floor + 3.0 * p, floor * 2.0 * n + 3.0 * v) }
        Which::Dopri5(k) | Which::Dop853(k) => { let p = floor + 30.0 * k * (size + 1e3) * turns * turns; (p, 2.0 * n * p) }
    }
}
fn times(k: f64, b: (f64, f64)) -> (f64, f64) { (k * b.0, k * b.1) }
fn add(a: (f64, f64), b: (f64, f64)) -> (f64, f64) { (a.0 + b.0, a.1 + b.1) }
fn dist(a: &Y, b: &Y) -> f64 { norm([a[0] - b[0], a[1] - b[1], a[2] - b[2]]) }
fn same(what: &str, s: &OrbitState, truth: &Y, t: f64, t0: f64, (pos, vel): (f64, f64)) -> Result<(), String> {
    let y = comps(s);
    let dv = norm([y[3] - truth[3], y[4] - truth[4], y[5] - truth[5]]);
    ensure!(dist(&y, truth) <= pos && dv <= vel, "{what}: {y:?}, expected {truth:?}: off by {:e} km, {dv:e} km/s of {pos:e} km, {vel:e} km/s", dist(&y, truth));
    let e = (s.epoch - JulianDate::new(t0).to_j2000s()).value();
    ensure!((e - t).abs() <= 1e-6, "{what}: epoch {e} s after the start instead of {t}");
    Ok(())
}

fn main() {
    let mut c = Check::new("C32", "cases propagated over a non-empty arc, or refused");
    c.assume("errors of adaptive integration are allowed thirty times the local tolerance, grown quadratically with the orbital phase covered");
    c.assume("transition matrices are integrated by classical Runge-Kutta at steps of at most 30 s inside the principia crate; the same method's own error is the yardstick");

    c.prop("two-body motion is reproduced forwards and backwards by every integrator", 50000, || (orbit(1.4), jd_modern(), arc(), which(), any::<bool>()), |((y, e, n), jd, dt, w, via)| {
        let m = Ref { mu: MU, j2: 0.0, re: 0.0, push: [0.0; 3], w: 0.0 };
        let truth = if *dt == 0.0 { *y } else { kepler(MU, y, *dt) };
        let s = state(*jd, y);
        let g = if *via { facade(*w, composite(&m, *jd), s, *dt, 10_000_000)? } else { pod(*w, &composite(&m, *jd), s, *dt, &DynamicsContext::empty())? }.map_err(|x| format!("{w:?} over {dt} s: {x}"))?;
        same(&format!("{w:?}{} over {dt} s", if *via { " (facade)" } else { "" }), &g, &truth, *dt, *jd, bound(&m, *w, y, &truth, *n, *dt))?;
        count_oracle(1);
        if *dt == 0.0 { ensure!(comps(&g) == *y, "zero interval moved the state"); return Ok("zero interval") }
        Ok(match w { Which::Rk4(_) => "RK4", Which::Dopri5(_) => "DOPRI5", Which::Dop853(_) => if *e >= 1.0 { "DOP853 hyperbolic" } else { "DOP853" } })
    });
    c.prop("perturbed motion solves the equations and legs join", 15000, || (orbit(0.7), jd_modern(), arc(), which(), (0.0f64..3e-3, [-1e-5f64..1e-5, -1e-5f64..1e-5, -1e-5f64..1e-5], logu(-5.0, -2.0)), 0.0f64..1.0, any::<bool>()), |((y, _, n), jd, dt, w, (j2, push, f), cut, via)| {
        let m = Ref { mu: MU, j2: *j2, re: 6378.137, push: *push, w: *f };
        let truth = m.go(y, *dt);
        let s = state(*jd, y);
        let ctx = DynamicsContext::empty();
        let allowed = bound(&m, *w, y, &truth, *n, *dt);
        let run = |s: OrbitState, dt: f64| -> R { if *via { facade(*w, composite(&m, *jd), s, dt, 10_000_000)? } else { pod(*w, &composite(&m, *jd), s, dt, &ctx)? } };
        let g = run(s, *dt)?;
        same(&format!("{w:?} over {dt} s"), &g, &truth, *dt, *jd, allowed)?;
        let mid = run(s, dt * cut)?;
        let turns = 1.0 + n * dt.abs();
        let leg = bound(&m, *w, y, &m.go(y, dt * cut), *n, dt * cut);
        let two_legs = add(times(3.0, allowed), times(3.0 * turns, add(leg, (leg.1 / n, leg.0 * n))));
        let two = run(mid, dt - dt * cut)?;
        same(&format!("{w:?} over {} + {} s", dt * cut, dt - dt * cut), &two, &truth, *dt, *jd, two_legs)?;
        let back = run(g, -dt)?;
        same(&format!("{w:?} over {dt} s and back"), &back, y, 0.0, *jd, times(3.0 * turns, add(allowed, (allowed.1 / n, allowed.0 * n))))?;
        let props = SpacecraftProperties::demo_leo();
        let i = Dop853Integrator { tolerances: tol(1e-10) };
        let a = np("propagate_orbit", || propagate_orbit(&i, &composite(&m, *jd), s, Second::new(*dt), &ctx))?.map_err(|e| e.to_string())?;
        let b = np("propagate_spacecraft", || propagate_spacecraft(&i, &composite(&m, *jd), SpacecraftState { orbit: s, properties: props }, Second::new(*dt), &ctx))?.map_err(|e| e.to_string())?;
        ensure!(comps(&a) == comps(&b.orbit) && a.epoch == b.orbit.epoch && b.properties == props, "propagate_spacecraft differs from propagate_orbit");
        same("propagate_orbit", &a, &truth, *dt, *jd, bound(&m, Which::Dop853(1e-10), y, &truth, *n, *dt))?;
        Ok(if *dt == 0.0 { "-zero interval" } else { "arc" })
    });
    c.prop("transition matrices are the derivatives of the final state", 5000, || (orbit(0.6), jd_modern(), arc(), 0.0f64..3e-3, 1usize..8), |((y, _, n), jd, dt, j2, k)| {
        let dt = if *dt == 0.0 { 0.0 } else { dt.signum() * dt.abs().clamp(1.0, 8000.0) };
        let m = Ref { mu: MU, j2: *j2, re: 6378.137, push: [0.0; 3], w: 0.0 };
        let s = state(*jd, y);
        let ctx = DynamicsContext::empty();
        let p = Dop853Propagator::new(Dop853::new(tol(1e-11)), composite(&m, *jd), PropagatorConfig::default(), DynamicsContext::empty());
        let (end, phi) = np("propagate_with_stm", || p.propagate_with_stm(s, Second::new(dt)))?.map_err(|e| e.to_string())?;
        let truth = m.go(y, dt);
        let turns = 1.0 + n * dt.abs();
        let floor = 1e-12 * norm(r_of(y)) * turns * turns;
        let err = |t: f64, truth: &Y| add(times(5.0, m.rk4_error(y, t, 30.0, truth)), (floor, floor * 2.0 * n));
        let worst = err(dt, &truth);
        same(&format!("propagate_with_stm over {dt} s"), &end, &truth, dt, *jd, worst)?;
        let want = m.stm(y, dt);
        // Rounding of the differences the reference matrix is made of.
        let noise = |i: usize, j: usize| 2e-9 * turns * if i < 3 { norm(r_of(y)) } else { norm(v_of(y)) } / if j < 3 { norm(r_of(y)) } else { norm(v_of(y)) };
        // Relative size of the truncation error of the matrix, from that of the state.
        let check = |what: &str, phi: &StateTransitionMatrix<GCRS>, rel: f64| -> Result<(), String> {
            let g = phi.as_array();
            for (bi, bj) in [(0, 0), (0, 3), (3, 0), (3, 3)] {
                let size = (0..9).map(|k| want[bi + k / 3][bj + k % 3].abs()).fold(0.0, f64::max);
                for k in 0..9 { let (i, j) = (bi + k / 3, bj + k % 3); ensure!((g[i][j] - want[i][j]).abs() <= (rel + 1e-7) * size + noise(i, j), "{what}: element {i},{j} is {} instead of {} (block size {size:e}, rel {rel:e})", g[i][j], want[i][j]) }
            }
            Ok(())
        };
        let rel = 100.0 * turns * (worst.0 + worst.1 / n) / norm(r_of(y));
        if rel > 0.01 { return Ok("-too coarse a step for this orbit") }
        check("propagate_with_stm", &phi, rel)?;
        let step = dt / *k as f64;
        let v = VariationalPropagator { step: Second::new(step) };
        let arc = np("VariationalPropagator", || v.propagate(&composite(&m, *jd), s, *k, &ctx))?.map_err(|e| e.to_string())?;
        ensure!(arc.len() == *k && !arc.is_empty() && arc.steps.len() == *k, "{} steps instead of {k}", arc.len());
        for (i, (st, ph)) in arc.steps.iter().enumerate() {
            let t = step * (i + 1) as f64;
            same(&format!("variational step {i}"), st, &m.go(y, t), t, *jd, add(err(t, &m.go(y, t)), worst))?;
            if i + 1 == *k { check("cumulative matrix", ph, rel)?; ensure!(arc.final_stm().map(|x| x.as_array() == ph.as_array()) == Some(true) && arc.final_state().map(comps) == Some(comps(st)), "final state or matrix is not the last") }
            else if i == 0 { let w1 = m.stm(y, t); let g = ph.as_array(); for a in 0..6 { for b in 0..6 { let size = (0..9).map(|q| w1[a / 3 * 3 + q / 3][b / 3 * 3 + q % 3].abs()).fold(0.0, f64::max); ensure!((g[a][b] - w1[a][b]).abs() <= (rel + 1e-7) * size + noise(a, b), "matrix after the first step: element {a},{b} is {} instead of {}", g[a][b], w1[a][b]) } } }
            // Conservative motion is symplectic.
            let g = ph.as_array();
            for a in 0..6 { for b in 0..6 {
                let jm = |i: usize, j: usize| if j == i + 3 { 1.0 } else if i == j + 3 { -1.0 } else { 0.0 };
                let (mut sum, mut size) = (0.0, 1.0);
                for i in 0..3 { sum += g[i][a] * g[i + 3][b] - g[i + 3][a] * g[i][b]; size += (g[i][a] * g[i + 3][b]).abs() + (g[i + 3][a] * g[i][b]).abs() }
                ensure!((sum - jm(a, b)).abs() <= (rel + 1e-9) * size, "matrix is not symplectic at {a},{b}: {sum} against {}", jm(a, b));
            } }
        }
        let none = np("VariationalPropagator", || v.propagate(&composite(&m, *jd), s, 0, &ctx))?.map_err(|e| e.to_string())?;
        ensure!(none.is_empty() && none.len() == 0 && none.final_state().is_none() && none.final_stm().is_none(), "an arc of no steps is not empty");
        count_oracle(1);
        Ok(if dt == 0.0 { "zero interval" } else { "arc" })
    });
    c.prop("parameter columns are derivatives with respect to the parameter", 8000, || (orbit(0.6), jd_modern(), arc(), which(), prop_oneof![0 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], 0.5f64..2.0, logu(-4.0, -2.0), unit_vec()), |((y, _, n), jd, dt, w, kind, p, eps, u)| {
        let dt = dt.clamp(-6000.0, 6000.0);
        let w = match w { Which::Rk4(h) => Which::Rk4(*h), Which::Dopri5(_) => Which::Dopri5(1e-12), Which::Dop853(_) => Which::Dop853(1e-12) };
        let (u, n) = (*u, *n);
        let model = |p: f64| if *kind == 1 { Ref { mu: MU, j2: 1.08e-3 * p, re: 6378.137, push: [0.0; 3], w: 0.0 } } else { Ref { mu: MU, j2: 0.0, re: 0.0, push: u.map(|x| 1e-6 * p * x), w: 1e-4 } };
        let (s, ctx, jd) = (state(*jd, y), DynamicsContext::empty(), *jd);
        let f = |p: f64| composite(&model(p), jd);
        let g = np("param_partials_central_diff", || match w {
            Which::Rk4(h) => param_partials_central_diff(&Rk4Integrator { step: Second::new(h) }, s, Second::new(dt), &ctx, *p, *eps, f),
            Which::Dopri5(k) => param_partials_central_diff(&Dopri5Integrator { tolerances: tol(k) }, s, Second::new(dt), &ctx, *p, *eps, f),
            Which::Dop853(k) => param_partials_central_diff(&Dop853Integrator { tolerances: tol(k) }, s, Second::new(dt), &ctx, *p, *eps, f),
        })?.map_err(|e| e.to_string())?.0;
        let at = |d: f64| model(p + d).go(y, dt);
        let d = 0.05;
        let (a, b, a2, b2) = (at(d), at(-d), at(2.0 * d), at(-2.0 * d));
        let want: Y = std::array::from_fn(|i| (8.0 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12.0 * d));
        let truth = at(0.0);
        // Integration noise is divided by the step in the parameter; the method error largely cancels.
        let noise = match w { Which::Rk4(_) => 1e-12 * norm(r_of(y)) * (1.0 + n * dt.abs()).powi(2), _ => bound(&model(*p), w, y, &truth, n, dt).0 } / eps;
        let method = match w { Which::Rk4(h) => { let steps = (dt.abs() / h).ceil().max(1.0) as usize; let (ra, rb) = (model(p + d).rk4(y, dt, steps), model(p - d).rk4(y, dt, steps)); (0..6).map(|i| ((ra[i] - rb[i]) / (2.0 * d) - (a[i] - b[i]) / (2.0 * d)).abs() * if i < 3 { 1.0 } else { 1.0 / n }).fold(0.0, f64::max) * 3.0 } _ => 0.0 };
        let size = norm(r_of(&want)).max(norm(v_of(&want)) / n);
        for i in 0..6 { let t = (noise + method + 1e-5 * size) * if i < 3 { 1.0 } else { 2.0 * n }; ensure!((g[i] - want[i]).abs() <= t, "parameter kind {kind}, {w:?} over {dt} s: component {i} is {} instead of {} (tolerance {t:e})", g[i], want[i]) }
        for bad in [0.0, -1e-3, f64::NAN, f64::INFINITY] { let r = np("param_partials_central_diff", || param_partials_central_diff(&Rk4Integrator { step: Second::new(10.0) }, s, Second::new(1.0), &ctx, *p, bad, |_| TwoBody::new(GravitationalParameter::new(MU))))?; ensure!(r.is_err(), "parameter step {bad} accepted") }
        count_oracle(1);
        Ok(if dt == 0.0 { "-zero interval" } else { "arc" })
    });
    c.prop("sensitivity comparison and matrix validation measure what they say", 4000, || (proptest::array::uniform6(-10.0f64..10.0), proptest::array::uniform6(-10.0f64..10.0), logu(-6.0, 6.0), orbit(0.3), 10.0f64..600.0, logu(-8.0, -5.0), prop_oneof![1 => Just(1.0), 1 => 0.5f64..1.5], unit_vec(), unit_vec(), any::<bool>()), |(a, b, k, (y, _, _), dt, sk, wrong, u, w, back)| {
        let (pa, pb) = (a.map(|x| x * k), b.map(|x| x * k));
        let g = np("max_relative_difference", || ParamColumn(pa).max_relative_difference(&ParamColumn(pb)))?;
        let (num, den) = ((0..6).map(|i| (pa[i] - pb[i]).abs()).fold(0.0, f64::max), pb.iter().fold(0.0f64, |m, x| m.max(x.abs())));
        ensure!(den == 0.0 || close(g, num / den, 1e-300, 1e-12), "relative difference {g}, expected {}", num / den);
        ensure!(ParamColumn(pa).max_relative_difference(&ParamColumn([0.0; 6])) >= 0.0 && ParamColumn([0.0; 6]).max_relative_difference(&ParamColumn([0.0; 6])) == 0.0, "difference from a zero column");
        let mut pn = pa; pn[(dt.to_bits() % 6) as usize] = f64::NAN;
        ensure!(!(ParamColumn(pn).max_relative_difference(&ParamColumn(pb)) < 1e-6), "a column with a NaN agrees");
        let s = state(2_451_545.0, y);
        let d: Y = [1e-3 * u[0], 1e-3 * u[1], 1e-3 * u[2], 1e-6 * w[0], 1e-6 * w[1], 1e-6 * w[2]];
        let dt = if *back { -*dt } else { *dt };
        let g = np("max_rel_stm_predict_error", || max_rel_stm_predict_error(&Spring { k: *sk, wrong: *wrong }, s, Second::new(dt), Second::new(1.0), d, &DynamicsContext::empty()))?.map_err(|e| e.to_string())?;
        let lin = |k: f64| -> Y { let f = k.sqrt(); std::array::from_fn(|i| { let (r, v) = (d[i % 3], d[i % 3 + 3]); if i < 3 { r * (f * dt).cos() + v * (f * dt).sin() / f } else { -r * f * (f * dt).sin() + v * (f * dt).cos() } }) };
        let (act, pred) = (lin(*sk), lin(sk * wrong));
        let scale = act.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let want = (0..6).map(|i| (act[i] - pred[i]).abs()).fold(0.0, f64::max) / scale;
        ensure!((g - want).abs() <= 1e-3 * want + 1e-8 + 2e-14 * norm(r_of(y)) / scale, "validation error {g:e}, expected {want:e} (partials off by {wrong})");
        Ok(if *wrong == 1.0 { "consistent partials" } else { "wrong partials" })
    });
    c.prop("radius crossings are recorded in order and in the right sense", 4000, || (orbit(0.5), jd_modern(), logu(3.0, 4.5), 0.02f64..0.98, 0u8..3, logu(0.0, 1.5), 0u8..3, any::<bool>()), |((y, e, n), jd, dt, f, dir, every, which, terminal)| {
        if *e < 0.01 { return Ok("-nearly circular") }
        // Threshold between perigee and apogee.
        let (rv, vv) = (norm(r_of(y)), dot(v_of(y), v_of(y)));
        let a = 1.0 / (2.0 / rv - vv / MU);
        let th = a * (1.0 - e) + f * 2.0 * a * e;
        if (th - a * (1.0 - e)).min(a * (1.0 + e) - th) < 5.0 + 0.01 * every * every { return Ok("-grazing") }
        // Adaptive steps may outgrow the output cadence: crossings are then placed by interpolation within a long step.
        let slack = if *which == 2 { 2.0 * every + 20.0 } else { 0.12 * std::f64::consts::TAU * (a.powi(3) / MU).sqrt() };
        if *which != 2 && !(0.2..0.8).contains(f) { return Ok("-near an apsis") }
        let d = [EventDirection::Rising, EventDirection::Falling, EventDirection::Either][*dir as usize];
        let ev = RadialThresholdEvent::new(Kilometers::new(th)).direction(d).terminal(*terminal);
        let m = Ref { mu: MU, j2: 0.0, re: 0.0, push: [0.0; 3], w: 0.0 };
        let cfg = PropagatorConfig { tolerances: tol(1e-11), max_steps: 1_000_000, event_dt: Some(Second::new(*every)) };
        let (s, ctx) = (state(*jd, y), DynamicsContext::empty());
        let g = np("propagate_with_events", || match which { 0 => Dop853Propagator::new(Dop853::new(tol(1e-11)), composite(&m, *jd), cfg.clone(), ctx).propagate_with_events(s, Second::new(*dt), ev), 1 => Dopri5Propagator::new(Dopri5::new(tol(1e-11)), composite(&m, *jd), cfg.clone(), ctx).propagate_with_events(s, Second::new(*dt), ev), _ => Rk4Propagator::new(FixedRk4Adapter::new(Second::new(7.3)), composite(&m, *jd), cfg.clone(), ctx).propagate_with_events(s, Second::new(*dt), ev) })?.map_err(|e| format!("integrator {which}, output every {every} s over {dt} s: {e}"))?;
        // Reference crossings by sampling.
        let mut want = Vec::new();
        let h = every.min(5.0);
        let mut prev = rv - th;
        let mut y0 = *y;
        let count = (dt / h).ceil() as usize;
        for k in 0..count { let step = (dt / count as f64).abs(); y0 = kepler(MU, &y0, step); let cur = norm(r_of(&y0)) - th; if prev * cur < 0.0 && (*dir == 2 || (*dir == 0) == (cur > 0.0)) { want.push((k as f64 + 0.5) * step) } prev = cur }
        if *terminal { want.truncate(1) }
        let got: Vec<f64> = g.events.iter().map(|e| (e.state.epoch - s.epoch).value()).collect();
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a - b).abs() <= slack), "{d:?} crossings of {th} km at {got:?}, expected near {want:?}");
        let end = (g.samples.last().unwrap().epoch - s.epoch).value();
        if *terminal && !want.is_empty() { ensure!((end - want[0]).abs() <= slack, "terminal event at {:?} ended at {end}", want[0]) } else {
            ensure!((end - dt).abs() < 1e-6, "ended at {end} instead of {dt}");
        }
        ensure!((g.samples[0].epoch - s.epoch).value() == 0.0 && g.samples.windows(2).all(|w| (w[1].epoch - w[0].epoch).value() > 0.0), "samples out of order");
        for x in g.samples.iter().step_by(1 + g.samples.len() / 12).chain(g.samples.last()) { let t = (x.epoch - s.epoch).value(); let truth = kepler(MU, y, t); same(&format!("sample at {t} s"), x, &truth, t, *jd, if *which == 2 { let b = bound(&m, Which::Rk4(7.3), y, &truth, *n, t); times(2.0, add(b, (0.0, b.0 * n))) } else { bound(&m, Which::Dop853(1e-11), y, &truth, *n, t) })? }
        Ok(if want.is_empty() { "-no crossing" } else if *terminal { "terminal" } else { "crossings" })
    });
    c.prop("impossible requests are refused", 600, || (orbit(0.3), jd_modern(), 0usize..9, logu(1.0, 4.0), 0u8..3), |((y, _, _), jd, bad, dt, i)| {
        let m = Ref { mu: MU, j2: 0.0, re: 0.0, push: [0.0; 3], w: 0.0 };
        let (s, ctx) = (state(*jd, y), DynamicsContext::empty());
        let go = |w: Which, dt: f64| -> Result<[R; 2], String> { Ok([pod(w, &composite(&m, *jd), s, dt, &ctx)?, facade(w, composite(&m, *jd), s, dt, 10_000)?]) };
        let refused = |what: &str, r: [R; 2]| -> Result<(), String> { for (k, x) in r.iter().enumerate() { ensure!(x.is_err(), "{what} accepted by {}: {x:?}", ["Integrator", "Propagator"][k]) } Ok(()) };
        match bad {
            0..=3 => { let x = [0.0, f64::NAN, f64::INFINITY, -1.0][*bad]; match i { 0 => if *bad < 2 { refused("RK4 step", go(Which::Rk4(x), *dt)?)? }, 1 => refused("DOPRI5 tolerance", go(Which::Dopri5(x), *dt)?)?, _ => refused("DOP853 tolerance", go(Which::Dop853(x), *dt)?)? } }
            4 | 5 => { let x = [f64::NAN, f64::INFINITY][bad - 4]; let w = [Which::Rk4(10.0), Which::Dopri5(1e-9), Which::Dop853(1e-9)][*i as usize]; refused("non-finite interval", go(w, x)?)?; let p = Dop853Propagator::new(Dop853::new(tol(1e-9)), TwoBody::new(GravitationalParameter::new(MU)), PropagatorConfig::default(), DynamicsContext::empty()); ensure!(np("propagate_with_stm", || p.propagate_with_stm(s, Second::new(x)))?.is_err(), "matrix over {x} s") }
            6 => { let w = [Which::Rk4(1.0), Which::Dopri5(1e-13), Which::Dop853(1e-13)][*i as usize]; let r = facade(w, composite(&m, *jd), s, 1e5, 3)?; ensure!(r.is_err(), "a budget of three steps covered 100000 s: {r:?}") }
            7 => { // Drag without a density model cannot be computed, whichever way it is asked for.
                let f = || composite(&m, *jd).push(Box::new(DragForce::new(DragCoefficient::new(2.2), AreaToMass::new(0.01))));
                let w = [Which::Rk4(10.0), Which::Dopri5(1e-9), Which::Dop853(1e-9)][*i as usize];
                refused("drag without density", [pod(w, &f(), s, *dt, &ctx)?, facade(w, f(), s, *dt, 10_000)?])?;
            }
            _ => { // No partials, no matrix.
                let f = composite(&Ref { push: [1e-6, 0.0, 0.0], w: 1e-4, ..m }, *jd);
                let r = np("VariationalPropagator", || VariationalPropagator { step: Second::new(60.0) }.propagate(&f, s, 2, &ctx))?;
                ensure!(r.is_err(), "a matrix from a model without partials: {:?}", r.map(|a| *a.final_stm().unwrap().as_array()));
            }
        }
        Ok(["step or tolerance", "step or tolerance", "step or tolerance", "step or tolerance", "interval", "interval", "step budget", "missing context", "missing partials"][*bad])
    });
    c.finish();
}
