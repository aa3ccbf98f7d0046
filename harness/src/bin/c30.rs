//! C30: Sun-Earth Lagrange points against the equations of equilibrium that define them.
use proptest::prelude::*;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::EclipticMeanJ2000;
use siderust::ephemeris::lagrange::{fit::*, solver::*, *};
use siderust::ephemeris::*;
use siderust::qtty::{AstronomicalUnit, Kilometer, Kilometers, Meters, Seconds};
use siderust::time::JulianDate;
use vharness::refs::*;
use vharness::*;

const AU: f64 = 149_597_870.7;
const DAY: f64 = 86_400.0;
const GM: [f64; 3] = [132_712_440_041.279_4, 398_600.435_507, 4_902.800_118];
const POINTS: [SunEarthLagrangePoint; 5] = [SunEarthLagrangePoint::L1, SunEarthLagrangePoint::L2, SunEarthLagrangePoint::L3, SunEarthLagrangePoint::L4, SunEarthLagrangePoint::L5];

/// A Kepler orbit of the Earth about a drifting Sun, with a Moon on a circle.
#[derive(Debug, Clone)]
struct Toy { a: f64, e: f64, inc: f64, node: f64, peri: f64, m0: f64, sun: [f64; 3], moon: [f64; 4], retro: bool, span: (f64, f64) }
impl Toy {
    fn rel(&self, jd: f64) -> [f64; 3] {
        let n = (GM[0] / (self.a * AU).powi(3)).sqrt() * DAY * if self.retro { -1.0 } else { 1.0 };
        let m = self.m0 + n * (jd - 2_451_545.0);
        let mut x = m; for _ in 0..60 { x -= (x - self.e * x.sin() - m) / (1.0 - self.e * x.cos()) }
        let p = [self.a * AU * (x.cos() - self.e), self.a * AU * (1.0 - self.e * self.e).sqrt() * x.sin(), 0.0];
        mv(&mm(&r3(-self.node), &mm(&r1(-self.inc), &r3(-self.peri))), p)
    }
    fn sun(&self, jd: f64) -> [f64; 3] { let t = (jd - 2_451_545.0) * 1e-4; [self.sun[0] * AU * 0.01 + t * 1e4, self.sun[1] * AU * 0.01, self.sun[2] * AU * 0.001] }
    fn moon(&self, jd: f64) -> [f64; 3] { let a = self.moon[1] + (jd - 2_451_545.0) * TAU / 27.32; mv(&r1(-self.moon[2]), [self.moon[0] * a.cos(), self.moon[0] * a.sin(), 0.0]) }
}
type Res<T> = Result<T, EphemerisError>;
impl Toy {
    fn check(&self, jd: JulianDate) -> Res<f64> { let t = jd.raw().value(); if t < self.span.0 || t > self.span.1 { return Err(EphemerisError::OutOfRange { jd: t, start_jd: self.span.0, end_jd: self.span.1 }) } Ok(t) }
}
fn au<C: siderust::coordinates::centers::ReferenceCenter<Params = ()>>(v: [f64; 3]) -> Position<C, EclipticMeanJ2000, AstronomicalUnit> { Position::<C, EclipticMeanJ2000, Kilometer>::new(Kilometers::new(v[0]), Kilometers::new(v[1]), Kilometers::new(v[2])).to_unit() }
type AuPerDay = siderust::qtty::Per<AstronomicalUnit, siderust::qtty::Day>;
impl DynEphemeris for Toy {
    fn try_sun_barycentric(&self, jd: JulianDate) -> Res<Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>> { let t = self.check(jd)?; Ok(au(self.sun(t))) }
    fn sun_barycentric(&self, jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> { self.try_sun_barycentric(jd).unwrap() }
    fn try_earth_barycentric(&self, jd: JulianDate) -> Res<Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit>> { let t = self.check(jd)?; Ok(au(add(self.sun(t), self.rel(t)))) }
    fn earth_barycentric(&self, jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AstronomicalUnit> { self.try_earth_barycentric(jd).unwrap() }
    fn try_earth_heliocentric(&self, jd: JulianDate) -> Res<Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>> { let t = self.check(jd)?; Ok(au(self.rel(t))) }
    fn earth_heliocentric(&self, jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AstronomicalUnit> { self.try_earth_heliocentric(jd).unwrap() }
    fn try_earth_barycentric_velocity(&self, jd: JulianDate) -> Res<Velocity<EclipticMeanJ2000, AuPerDay>> { Ok(self.earth_barycentric_velocity(jd)) }
    fn earth_barycentric_velocity(&self, jd: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> { let t = jd.raw().value(); let v = scale(sub(add(self.sun(t + 0.01), self.rel(t + 0.01)), add(self.sun(t - 0.01), self.rel(t - 0.01))), 50.0 / AU); Velocity::new(siderust::qtty::Quantity::new(v[0]), siderust::qtty::Quantity::new(v[1]), siderust::qtty::Quantity::new(v[2])) }
    fn try_moon_geocentric(&self, jd: JulianDate) -> Res<Position<Geocentric, EclipticMeanJ2000, Kilometer>> { let t = self.check(jd)?; let m = self.moon(t); Ok(Position::new(Kilometers::new(m[0]), Kilometers::new(m[1]), Kilometers::new(m[2]))) }
    fn moon_geocentric(&self, jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> { self.try_moon_geocentric(jd).unwrap() }
}
fn toy() -> impl Strategy<Value = Toy> {
    ((0.95f64..1.05, prop_oneof![2 => 0.0f64..0.03, 1 => Just(0.0)], 0.0f64..0.2, 0.0f64..TAU, 0.0f64..TAU, 0.0f64..TAU), ([-1.0f64..1.0, -1.0f64..1.0, -1.0f64..1.0], [360_000.0f64..410_000.0, 0.0..TAU, -0.1..0.1, 0.0..1.0]), any::<bool>())
        .prop_map(|((a, e, inc, node, peri, m0), (sun, moon), retro)| Toy { a, e, inc, node, peri, m0, sun, moon, retro, span: (2_300_000.0, 2_600_000.0) })
}
fn km<C: siderust::coordinates::centers::ReferenceCenter>(p: Position<C, EclipticMeanJ2000, Kilometer>) -> [f64; 3] { [p.x().value(), p.y().value(), p.z().value()] }
struct At { s: [f64; 3], e: [f64; 3], m: [f64; 3], w: [f64; 3] }
impl At {
    fn of(d: &dyn DynEphemeris, jd: f64) -> At {
        let t = JulianDate::new(jd);
        let s = km(d.sun_barycentric(t).to_unit::<Kilometer>()); let e = km(d.earth_barycentric(t).to_unit::<Kilometer>());
        let rel = |x: f64| { let t = JulianDate::new(x); sub(km(d.earth_barycentric(t).to_unit::<Kilometer>()), km(d.sun_barycentric(t).to_unit::<Kilometer>())) };
        // Exact binary steps, so that the epochs carry no rounding of their own.
        let jd = (jd * 1024.0).round() / 1024.0;
        let h = 1.0 / 64.0;
        let d1 = |h: f64| scale(sub(rel(jd + h), rel(jd - h)), 0.5 / h / DAY);
        let v = scale(sub(scale(d1(h), 4.0), d1(2.0 * h)), 1.0 / 3.0);
        let r = sub(e, s);
        At { s, e, m: add(e, km(d.moon_geocentric(t))), w: scale(cross(r, v), 1.0 / dot(r, r)) }
    }
    fn residual(&self, p: [f64; 3]) -> f64 {
        let g = |p: [f64; 3], b: [f64; 3], mu: f64| { let r = sub(b, p); scale(r, mu / norm(r).powi(3)) };
        let o = scale(add(scale(self.s, GM[0]), scale(self.e, GM[1])), 1.0 / (GM[0] + GM[1]));
        let a = scale(add(scale(g(self.s, self.m, GM[2]), GM[0]), scale(g(self.e, self.m, GM[2]), GM[1])), 1.0 / (GM[0] + GM[1]));
        let grav = add(add(g(p, self.s, GM[0]), g(p, self.e, GM[1])), g(p, self.m, GM[2]));
        norm(sub(sub(grav, a), cross(self.w, cross(self.w, sub(p, o)))))
    }
    /// Distance from the Sun over that of the Earth; angle ahead of the Earth; height over the orbit.
    fn polar(&self, p: [f64; 3]) -> (f64, f64, f64) {
        let r = sub(self.e, self.s); let d = norm(r); let x = unit(r); let z = unit(self.w); let y = cross(z, x); let q = sub(p, self.s);
        (norm(q) / d, dot(q, y).atan2(dot(q, x)), dot(q, z) / d)
    }
}
/// What the point must satisfy at an epoch.
fn placed(at: &At, point: SunEarthLagrangePoint, p: [f64; 3]) -> Result<(), String> {
    let (r, lon, z) = at.polar(p);
    let res = at.residual(p);
    let d = norm(sub(at.e, at.s));
    // Sun-only equilibrium: r^3 w^2 = GM.
    let w2 = dot(at.w, at.w);
    let r0 = (GM[0] / w2).cbrt() / d;
    use SunEarthLagrangePoint::*;
    let stiff = matches!(point, L1 | L2);
    ensure!(res < 3e-12, "{}: {res} km/s2 away from equilibrium", point.label());
    ensure!(z.abs() < 1e-3, "{}: {z} of the distance off the orbital plane", point.label());
    let want = match point { L1 | L2 => 0.0, L3 => PI, L4 => PI / 3.0, L5 => -PI / 3.0 };
    ensure!(adiff(lon, want) < if stiff { 2e-4 } else { 1.5e-2 }, "{}: {lon} rad ahead of the Earth instead of {want}", point.label());
    match point {
        L1 => ensure!(r < 1.0 && dist(p, at.e) / d > 0.007 && dist(p, at.e) / d < 0.016, "L1 at {r} of the Earth's distance"),
        L2 => ensure!(r > 1.0 && dist(p, at.e) / d > 0.007 && dist(p, at.e) / d < 0.016, "L2 at {r} of the Earth's distance"),
        _ => ensure!((r / r0 - 1.0).abs() < 1e-4, "{}: {r} of the Earth's distance instead of {r0}", point.label()),
    }
    Ok(())
}
fn main() {
    let mut c = Check::new("C30", "points solved, fitted or evaluated at an epoch");
    let points = proptest::sample::select(&POINTS[..]);
    c.known_finding(|| {
        let t = JulianDate::new(2_451_545.0);
        let a = km(try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::L1, t).ok()?.to_unit::<Kilometer>());
        let b = km(solve_sun_earth_lagrange::<Vsop87Ephemeris>(SunEarthLagrangePoint::L1, t).ok()?.position);
        (dist(a, b) > 1e7).then(|| format!("the embedded archive (siderust-archive data) puts L1 at J2000 {:.3e} km from where the solver finds it: its Sun-Earth model is about 100 degrees behind in longitude", dist(a, b)))
    });

    let p2 = points.clone();
    c.prop("solved points are in equilibrium at their place", 6000, move || (p2.clone(), prop_oneof![1 => Just(None), 2 => toy().prop_map(Some)], 2_415_020.0f64..2_488_070.0), |(point, toy, jd)| {
        let t = JulianDate::new(*jd);
        let d: &dyn DynEphemeris = match toy { Some(t) => t, None => &Vsop87Ephemeris };
        let s = np("solve", || solve_sun_earth_lagrange_dyn(d, *point, t))?.map_err(|e| e.to_string())?;
        let at = At::of(d, *jd);
        let p = km(s.position);
        placed(&at, *point, p)?;
        count_oracle(1);
        ensure!(s.iterations <= 50 && s.residual_norm_km_s2 >= 0.0, "{s:?}");
        if toy.is_none() {
            let q = np("solve", || solve_sun_earth_lagrange::<Vsop87Ephemeris>(*point, t))?.map_err(|e| e.to_string())?;
            ensure!(q == s, "static and dynamic solutions differ: {q:?} and {s:?}");
            // Outside the archive the transform uses the solver; see C03 for the centres.
        } else if matches!(point, SunEarthLagrangePoint::L1 | SunEarthLagrangePoint::L2) {
            // A seed near the point changes nothing.
            let seed = Position::new(Kilometers::new(p[0] + 4e4), Kilometers::new(p[1] - 3e4), Kilometers::new(p[2] + 1e4));
            let q = np("solve", || solve_sun_earth_lagrange_dyn_with_config(d, *point, t, SolverConfig::default(), Some(seed)))?.map_err(|e| e.to_string())?;
            ensure!(dist(km(q.position), p) < 1.0, "a seed moves the point by {} km", dist(km(q.position), p));
        }
        Ok(if toy.is_some() { "Kepler orbit" } else { "VSOP87" })
    });

    let p3 = points.clone();
    c.prop("failures are reported", 1500, move || (p3.clone(), toy(), 2_415_020.0f64..2_488_070.0, 0u8..4), |(point, toy, jd, k)| {
        let t = JulianDate::new(*jd);
        let mut toy = toy.clone();
        match k {
            0 => { toy.span = (jd + 1.0, jd + 100.0); let g = np("solve", || solve_sun_earth_lagrange_dyn(&toy, *point, t))?; ensure!(matches!(g, Err(SolverError::Ephemeris(EphemerisError::OutOfRange { .. }))), "no ephemeris, yet {g:?}"); Ok("no ephemeris") }
            1 => { toy.a = 0.0; let g = np("solve", || solve_sun_earth_lagrange_dyn(&toy, *point, t))?; ensure!(g.is_err(), "Sun and Earth at one place, yet {g:?}"); Ok("no frame") }
            2 => { let g = np("solve", || solve_sun_earth_lagrange_dyn_with_config(&toy, *point, t, SolverConfig { max_iterations: 0, ..Default::default() }, None))?; ensure!(matches!(g, Err(SolverError::DidNotConverge { iterations: 0, .. })), "no iterations, yet {g:?}"); Ok("no iterations") }
            _ => {
                let base = FitConfig { from: t, to: JulianDate::new(jd + 1.0), block: Seconds::new(DAY), validation_step: Seconds::new(DAY), tolerance: Meters::new(1e7), solver: SolverConfig::default() };
                for c in [FitConfig { to: t, ..base }, FitConfig { to: JulianDate::new(jd - 1.0), ..base }, FitConfig { block: Seconds::new(0.0), ..base }, FitConfig { block: Seconds::new(-1.0), ..base }, FitConfig { block: Seconds::new(f64::NAN), ..base }, FitConfig { validation_step: Seconds::new(0.0), ..base }, FitConfig { validation_step: Seconds::new(f64::INFINITY), ..base }] { let g = np("fit", || fit_sun_earth_lagrange(&toy, *point, c))?; ensure!(matches!(g, Err(FitError::InvalidConfig)), "{c:?} gives {g:?}") }
                Ok("fit configuration")
            }
        }
    });

    c.prop("fits reproduce the solver within what they report", 120, move || (proptest::sample::select(&POINTS[..2]), toy(), 2_415_020.0f64..2_480_000.0, 0.5f64..24.0, 0.2f64..1.2, proptest::collection::vec(0.0f64..1.0, 6), 0.1f64..0.7), |(point, toy, jd, len, block, at, step)| {
        let (from, to) = ((jd * 1024.0).round() / 1024.0, ((jd + len) * 1024.0).round() / 1024.0);
        let b = block * len * DAY;
        let cfg = FitConfig { from: JulianDate::new(from), to: JulianDate::new(to), block: Seconds::new(b), validation_step: Seconds::new(step * len * DAY), tolerance: Meters::new(200_000.0), solver: SolverConfig::default() };
        let f = np("fit", || fit_sun_earth_lagrange(toy, *point, cfg))?.map_err(|e| e.to_string())?;
        let n = f.ncoeff;
        ensure!(f.point == *point && [16, 24, 32, 40, 48].contains(&n) && f.records.len() % (2 + 3 * n) == 0, "{n} coefficients, {} numbers", f.records.len());
        // Records tile the span.
        let (s0, s1) = ((from - 2_451_545.0) * DAY, (to - 2_451_545.0) * DAY);
        let mut at_s = s0;
        for r in f.records.chunks(2 + 3 * n) { let (a, b2) = (r[0] - r[1], r[0] + r[1]); ensure!((a - at_s).abs() < 1e-3 && r[1] > 0.0 && (b2 - a < b + 1e-3), "record {a}..{b2} after {at_s}"); at_s = b2; }
        ensure!((at_s - s1).abs() < 1e-3, "records end at {at_s} instead of {s1}");
        let solve = |t: f64| solve_sun_earth_lagrange_dyn(toy, *point, JulianDate::new(t)).map(|s| km(s.position)).map_err(|e| e.to_string());
        // Their statistics are those of the validation grid.
        let (mut mx, mut ss, mut cnt) = (0.0f64, 0.0, 0);
        let mut k = 0;
        loop { let t = s0 + k as f64 * step * len * DAY; if t > s1 { break } let j = 2_451_545.0 + t / DAY; if let Ok(p) = evaluate_fitted(&f, JulianDate::new(j)) { let e = dist(km(p.to_unit::<Kilometer>()), solve(j)?) * 1e3; mx = mx.max(e); ss += e * e; cnt += 1 } k += 1 }
        let rms = (ss / cnt as f64).sqrt();
        ensure!(f.stats.max_abs_error.value() <= 200_000.0 && close(f.stats.max_abs_error.value(), mx, 100_000.0, 1e-6) && f.stats.rms_error.value() <= f.stats.max_abs_error.value() * (1.0 + 1e-12), "statistics {:?}; found {mx} and {rms} m over {cnt}", f.stats);
        for x in at {
            let t = from + x * (to - from);
            let p = np("evaluate_fitted", || evaluate_fitted(&f, JulianDate::new(t)))?.map_err(|e| e.to_string())?;
            let e = dist(km(p.to_unit::<Kilometer>()), solve(t)?);
            ensure!(e < 300.0, "{e} km from the solver at {t}");
            count_oracle(1);
        }
        for t in [from - 0.01, to + 0.01] { ensure!(matches!(evaluate_fitted(&f, JulianDate::new(t)), Err(EphemerisError::OutOfRange { .. })), "evaluates at {t} outside {from}..{to}") }
        let tight = np("fit", || fit_sun_earth_lagrange(toy, *point, FitConfig { tolerance: Meters::new(-1.0), ..cfg }))?;
        ensure!(matches!(tight, Err(FitError::ToleranceNotMet { .. })), "an impossible tolerance gives {:?}", tight.map(|f| f.stats));
        Ok("fit")
    });

    c.prop("the embedded archive is continuous, rigid and bounded", 20000, move || prop_oneof![6 => 2_415_020.5f64..2_488_070.5, 2 => (0u32..2283).prop_map(|k| 2_415_020.5 + 32.0 * k as f64), 1 => prop_oneof![Just(2_415_020.5), Just(2_488_070.5)], 1 => prop_oneof![2_300_000.0f64..2_415_020.4, 2_488_070.6f64..2_600_000.0]], |jd| {
        let t = JulianDate::new(*jd);
        let g: Vec<_> = POINTS.iter().map(|p| np("archive", || try_sun_earth_lagrange_barycentric(*p, t))).collect::<Result<_, _>>()?;
        if !(2_415_020.5..=2_488_070.5).contains(jd) { for x in g { ensure!(matches!(x, Err(EphemerisError::OutOfRange { .. })), "evaluates at {jd}: {x:?}") } return Ok("outside") }
        let v: Vec<[f64; 3]> = g.into_iter().map(|x| x.map(|p| { let p = p.to_unit::<Kilometer>(); km(p) }).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        for (p, x) in POINTS.iter().zip(&v) { ensure!(km(np("archive", || sun_earth_lagrange_barycentric(*p, t))?.to_unit::<Kilometer>()) == *x, "fallible and infallible values of {} differ", p.label()) }
        // One configuration turning with the Earth's year, about a barycentre close to the Sun.
        let lon = |x: &[f64; 3]| x[1].atan2(x[0]);
        for (i, want) in [(1, 0.0), (2, PI), (3, PI / 3.0), (4, -PI / 3.0)] { ensure!(adiff(lon(&v[i]) - lon(&v[0]), want) < 0.04, "{} is {} rad from L1", POINTS[i].label(), wrap_pi(lon(&v[i]) - lon(&v[0]))) }
        ensure!((norm(v[1]) - norm(v[0])) / AU > 0.017 && (norm(v[1]) - norm(v[0])) / AU < 0.023, "L1 and L2 {} au apart", (norm(v[1]) - norm(v[0])) / AU);
        for x in &v { ensure!(norm(*x) / AU > 0.95 && norm(*x) / AU < 1.06 && x[2].abs() / AU < 1e-2, "a point at {x:?} km") }
        let h = 1.0 / 1024.0;
        if *jd + h <= 2_488_070.5 && *jd - h >= 2_415_020.5 { for (p, x) in POINTS.iter().zip(&v) {
            let q = |j: f64| km(sun_earth_lagrange_barycentric(*p, JulianDate::new(j)).to_unit::<Kilometer>());
            let (a, b) = (q(jd - h), q(jd + h));
            let step = dist(a, b) / (2.0 * h) / norm(*x) * 365.25 / TAU;
            ensure!((step - 1.0).abs() < 0.06, "{} moves at {step} revolutions a year", p.label());
            ensure!(dist(scale(add(a, b), 0.5), *x) < 2.0, "{} jumps by {} km", p.label(), dist(scale(add(a, b), 0.5), *x));
        } count_oracle(5) }
        Ok("archive")
    });
    c.finish()
}
