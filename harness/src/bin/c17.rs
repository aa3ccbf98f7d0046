//! C17: Keplerian orbits obey two-body dynamics.
use proptest::prelude::*;
use siderust::astro::conic::{ConicError, ConicKind, ConicOrbit, MeanMotionOrbit};
use siderust::astro::conic_equations::*;
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::astro::units::GaussianYears;
use siderust::bodies::comet::Comet;
use siderust::bodies::planets::OrbitExt;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::*;
use siderust::JulianDate;
use std::f64::consts::{PI, TAU};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

const K: f64 = 0.01720209895;
type P = siderust::coordinates::cartesian::position::EclipticMeanJ2000<AstronomicalUnit>;
fn p3(p: &P) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }
fn deg(x: f64) -> Degrees { Degrees::new(x) }
/// Kepler's equation by bisection on the monotone residual.
fn ecc_anomaly(m: f64, e: f64) -> f64 {
    let turns = (m / TAU).round();
    let r = m - turns * TAU;
    let (mut lo, mut hi) = (-PI - 1e-9, PI + 1e-9);
    for _ in 0..80 { let x = 0.5 * (lo + hi); if x - e * x.sin() > r { hi = x } else { lo = x } }
    0.5 * (lo + hi)
}
fn hyp_anomaly(m: f64, e: f64) -> f64 {
    let mut hi = 1.0f64;
    while e * hi.sinh() - hi < m.abs() { hi *= 2.0 }
    let mut lo = 0.0;
    for _ in 0..90 { let x = 0.5 * (lo + hi); if e * x.sinh() - x > m.abs() { hi = x } else { lo = x } }
    0.5 * (lo + hi) * m.signum()
}
/// Position and velocity (AU, AU/d) in the ecliptic frame, at mean anomaly `m` and mean motion `n`.
fn state(a: f64, e: f64, i: f64, node: f64, argp: f64, m: f64, n: f64) -> (V3, V3) {
    let (x, v) = if e < 1.0 {
        let q = ecc_anomaly(m, e);
        let (s, c, b) = (q.sin(), q.cos(), (1.0 - e * e).sqrt());
        let qd = n / (1.0 - e * c);
        ([a * (c - e), a * b * s, 0.0], [-a * s * qd, a * b * c * qd, 0.0])
    } else {
        let q = hyp_anomaly(m, e);
        let (s, c, b) = (q.sinh(), q.cosh(), (e * e - 1.0).sqrt());
        let qd = n / (e * c - 1.0);
        ([a * (e - c), a * b * s, 0.0], [-a * s * qd, a * b * c * qd, 0.0])
    };
    let r = mm(&r3(-node.to_radians()), &mm(&r1(-i.to_radians()), &r3(-argp.to_radians())));
    (mv(&r, x), mv(&r, v))
}
fn angles() -> impl Strategy<Value = (f64, f64, f64, f64)> { (prop_oneof![6 => 0.0f64..180.0, 1 => Just(0.0), 1 => Just(90.0), 1 => Just(180.0), 1 => -180.0f64..0.0], any_deg(), any_deg(), any_deg()) }
fn ell() -> impl Strategy<Value = f64> { prop_oneof![6 => 0.0f64..0.95, 1 => Just(0.0), 2 => (-7.0f64..-1.0).prop_map(|x| 1.0 - 10f64.powf(x)), 1 => logu(-12.0, -2.0)] }
fn when() -> impl Strategy<Value = f64> { prop_oneof![4 => -4e4f64..4e4, 2 => -400.0f64..400.0, 1 => -2e6f64..2e6, 1 => Just(0.0)] }
/// Worst position error allowed: the speed times the timing noise, plus rounding.
fn tol(r: V3, v: V3, m: f64, n: f64, rel_n: f64, dt: f64, size: f64) -> f64 { norm(v) * (1.5e-9 + (1e-14 + 4e-15 * (m.abs() + 20.0)) / n + rel_n * dt.abs()) + 3e-14 * (norm(r) + size) }
fn special(x: f64) -> impl Strategy<Value = f64> { prop_oneof![12 => Just(x), 1 => prop_oneof![Just(f64::NAN), Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(-x), Just(0.0), Just(-1e-12)]] }

fn main() {
    let mut c = Check::new("C17", "elliptic (a 0.05-1000 AU, e 0 to 1-1e-7) and hyperbolic (q 0.05-30 AU, e 1+1e-6 to 50) elements with any angles, epochs up to millions of days away, and invalid values in every field; a case is trivial when the body stays at the epoch");
    c.assume("parabolic elements are refused by design, so the parabolic limit is approached from both sides");
    // Reading elements goes through affn's orientation, which folds an inclination outside 0-180 deg
    // without turning the argument of periapsis.
    c.known_finding(|| {
        let o = KeplerianOrbit::new(AstronomicalUnits::new(1.0), 0.2, deg(-20.0), deg(40.0), deg(60.0), deg(80.0), JulianDate::new(J2000));
        let back: KeplerianOrbit = serde_json::from_str(&serde_json::to_string(&o).ok()?).ok()?;
        let t = JulianDate::new(J2000);
        (dist(p3(&o.kepler_position(t)), p3(&back.kepler_position(t))) > 1e-9).then(|| "elements serialised with an inclination outside 0-180 deg (unchecked constructor or JSON) are read back as a mirrored orbit: affn folds the inclination without turning the argument of periapsis".to_string())
    });
    c.prop("elliptic", 250_000, || (logu(-1.3, 3.0), ell(), angles(), jd_wide(), when()), |(a, e, (i, node, argp, m0), t0, dt)| {
        let (ep, t) = (JulianDate::new(*t0), JulianDate::new(t0 + dt));
        let o = KeplerianOrbit::try_new(AstronomicalUnits::new(*a), *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep).map_err(|x| format!("refused: {x}"))?;
        let n = K / a.powf(1.5);
        let dt = (t.raw() - ep.raw()).value();
        let m = m0.to_radians() + n * dt;
        let (r, v) = state(*a, *e, *i, *node, *argp, m, n);
        let lim = tol(r, v, m, n, 3e-12, dt, *a);
        let pr = PreparedOrbit::try_from(o).map_err(|x| format!("prepared: {x}"))?;
        let pe = PreparedOrbit::try_from_elements(AstronomicalUnits::new(*a), *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep).map_err(|x| format!("prepared: {x}"))?;
        ensure!(pr == pe && *pr.elements() == o, "prepared orbit does not keep its elements");
        ensure!((pr.mean_motion().value() / n - 1.0).abs() < 3e-12, "mean motion {} rad/d, k a^-3/2 is {}", pr.mean_motion().value(), n);
        ensure!((o.period().value() / 86400.0 * n / TAU - 1.0).abs() < 3e-12, "period {}", o.period());
        ensure!((GaussianYears::new(a.powf(1.5)).to::<Day>().value() * n / TAU - 1.0).abs() < 3e-12, "Gaussian year");
        let mu = K * K * 149_597_870.7f64.powi(3) / 86_400.0f64.powi(2);
        let cn = ConicOrbit::try_new(AstronomicalUnits::new(a * (1.0 - e)), *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep).map_err(|x| format!("conic refused: {x}"))?;
        ensure!(cn.kind() == ConicKind::Elliptic, "kind {:?}", cn.kind());
        let rel_q = 4e-16 / (1.0 - e);
        for (what, p, extra) in [
            ("kepler_position", o.kepler_position(t), 0.0), ("calculate_orbit_position", calculate_orbit_position(&o, t), 0.0), ("prepared position", pr.position_at(t), 0.0),
            ("calculate_prepared_position", calculate_prepared_position(&pe, t), 0.0),
            ("position_with_mu", o.position_with_mu(t, GravitationalParameter::new(mu)), 0.0), ("calculate_orbit_position_with_mu", calculate_orbit_position_with_mu(&o, t, GravitationalParameter::new(mu)), 0.0),
            ("conic position", cn.position_at(t).map_err(|x| format!("conic: {x}"))?, rel_q),
        ] {
            let d = dist(p3(&p), r);
            ensure!(d < lim + extra * (a + norm(v) * (dt.abs() + 20.0 / n)), "{}: {:?}, two-body motion gives {:?} ({:e} AU off, {:e} allowed)", what, p3(&p), r, d, lim);
        }
        // Another central body: the mean motion scales with the square root of its parameter.
        let f = 1e-3 + (m0 / 1e3).abs();
        let n2 = n * f.sqrt();
        let m2 = m0.to_radians() + n2 * dt;
        let (r2, v2) = state(*a, *e, *i, *node, *argp, m2, n2);
        let p = p3(&o.position_with_mu(t, GravitationalParameter::new(mu * f)));
        ensure!(dist(p, r2) < tol(r2, v2, m2, n2, 3e-12, dt, *a), "position_with_mu, {} solar masses: {:?}, expected {:?}", f, p, r2);
        // Mean motion as the authority, epoch at periapsis.
        let nd = n.to_degrees() * (1.0 + 0.3 * (node / 1e3));
        let mo = MeanMotionOrbit::try_new(AstronomicalUnits::new(*a), *e, deg(*i), deg(*node), deg(*argp), AngularRate::<Degree, Day>::new(nd), ep).map_err(|x| format!("mean motion refused: {x}"))?;
        let (n3, m3) = (nd.to_radians(), nd.to_radians() * dt);
        let (r3_, v3_) = state(*a, *e, *i, *node, *argp, m3, n3);
        for p in [mo.position_at(t), calculate_mean_motion_position(&mo, t)] {
            let p = p3(&p.map_err(|x| format!("mean motion: {x}"))?);
            ensure!(dist(p, r3_) < tol(r3_, v3_, m3, n3, 1e-15, dt, *a), "mean-motion position {:?}, expected {:?}", p, r3_);
        }
        Ok(if dt == 0.0 { "-at the epoch" } else if *e > 0.95 { "near-parabolic ellipse" } else { "ellipse" })
    });
    c.prop("hyperbolic", 200_000, || (logu(-1.3, 1.5), prop_oneof![5 => 1.01f64..5.0, 2 => (-6.0f64..-1.0).prop_map(|x| 1.0 + 10f64.powf(x)), 1 => 5.0f64..50.0], angles(), jd_wide(), when()), |(q, e, (i, node, argp, m0), t0, dt)| {
        let (ep, t) = (JulianDate::new(*t0), JulianDate::new(t0 + dt));
        let o = ConicOrbit::try_new(AstronomicalUnits::new(*q), *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep).map_err(|x| format!("refused: {x}"))?;
        ensure!(o.kind() == ConicKind::Hyperbolic, "kind {:?}", o.kind());
        let a = q / (e - 1.0);
        let n = K / a.powf(1.5);
        let dt = (t.raw() - ep.raw()).value();
        let m = m0.to_radians() + n * dt;
        let (r, v) = state(a, *e, *i, *node, *argp, m, n);
        for p in [o.position_at(t), calculate_conic_position(&o, t)] {
            let p = p3(&p.map_err(|x| format!("no position at mean anomaly {m}: {x}"))?);
            // The hyperbolic anomaly is good to 1e-14 in M, or a few ulps of a large M.
            let lim = norm(v) * (1.5e-9 + (5e-14 + 1e-14 * m.abs()) / n) + 1e-13 * (norm(r) + q) + 4e-16 / (e - 1.0) * a.min(norm(r) + q);
            ensure!(dist(p, r) < lim, "{:?}, two-body motion gives {:?} ({:e} AU off, {:e} allowed)", p, r, dist(p, r), lim);
        }
        Ok(if dt == 0.0 { "-at the epoch" } else if m.abs() > 50.0 { "far branch" } else { "hyperbola" })
    });
    // Dynamics alone, no elements-to-state formula: from positions at nearby times.
    c.prop("invariants", 100_000, || (logu(-0.7, 1.5), prop_oneof![4 => 0.0f64..0.9, 1 => 0.9f64..0.99, 3 => 1.02f64..4.0], angles(), jd_modern(), -2000.0f64..2000.0), |(q, e, (i, node, argp, m0), t0, dt)| {
        let ep = JulianDate::new(*t0);
        let m0 = if *e > 1.0 { m0 / 100.0 } else { *m0 };
        let o = ConicOrbit::try_new(AstronomicalUnits::new(*q), *e, deg(*i), deg(*node), deg(*argp), deg(m0), ep).map_err(|x| format!("refused: {x}"))?;
        let f = |x: f64| -> Result<V3, String> { Ok(p3(&o.position_at(JulianDate::new(x)).map_err(|x| x.to_string())?)) };
        let t = t0 + dt;
        let r = f(t)?;
        // A step that is a dyadic fraction keeps the sampled times exact.
        let speed = K * (2.0 / norm(r) + (e - 1.0) / q).max(1e-6).sqrt();
        let h = (((norm(r).powf(1.5) / K).min(norm(r) / speed) * 0.02).log2().floor()).exp2();
        let t = (t / h).round() * h;
        let r = f(t)?;
        let (a1, b1, a2, b2, a3, b3) = (f(t + h)?, f(t - h)?, f(t + 2.0 * h)?, f(t - 2.0 * h)?, f(t + 3.0 * h)?, f(t - 3.0 * h)?);
        let v = scale(add(add(scale(sub(a1, b1), 45.0), scale(sub(a2, b2), -9.0)), sub(a3, b3)), 1.0 / (60.0 * h));
        let acc = scale(add(add(scale(add(a1, b1), 270.0), scale(add(a2, b2), -27.0)), add(scale(add(a3, b3), 2.0), scale(r, -490.0))), 1.0 / (180.0 * h * h));
        let mu = K * K;
        let g = scale(r, -mu / norm(r).powi(3));
        ensure!(dist(acc, g) < 2e-5 * norm(g), "acceleration {:?}, gravity {:?}", acc, g);
        let en = 0.5 * dot(v, v) - mu / norm(r);
        ensure!((en + mu * (1.0 - e) / (2.0 * q)).abs() < 1e-6 * mu / norm(r), "energy {} at r = {}, expected {}", en, norm(r), -mu * (1.0 - e) / (2.0 * q));
        let l = cross(r, v);
        let (si, ci) = i.to_radians().sin_cos();
        let (sn, cn) = node.to_radians().sin_cos();
        let want = scale([si * sn, -si * cn, ci], (mu * q * (1.0 + e)).sqrt());
        ensure!(dist(l, want) < 2e-6 * norm(r) * norm(v), "angular momentum {:?}, expected {:?}", l, want);
        // Eccentricity vector: towards periapsis.
        let ev = sub(scale(cross(v, l), 1.0 / mu), scale(r, 1.0 / norm(r)));
        ensure!((norm(ev) - e).abs() < 1e-5, "eccentricity {} expected {}", norm(ev), e);
        ensure!(norm(r) >= q * (1.0 - 1e-12), "closer than periapsis");
        Ok(if *e < 1.0 { "bound" } else { "unbound" })
    });
    c.prop("validation", 200_000, || (prop_oneof![special(1.5)], prop_oneof![8 => special(0.3), 2 => special(1.0), 2 => special(1.7), 1 => Just(0.0)], (special(20.0), special(40.0), special(60.0), special(80.0)), special(0.5), 0.0f64..1e4), |(a, e, (i, node, argp, m0), nm, dt)| {
        let ep = JulianDate::new(J2000);
        let au = AstronomicalUnits::new(*a);
        let size_ok = a.is_finite() && *a > 0.0;
        let e_ok = e.is_finite() && *e >= 0.0;
        let ang = i.is_finite() && node.is_finite() && argp.is_finite();
        let base = size_ok && e_ok && ang;
        let t = JulianDate::new(J2000 + dt);
        let k = np("KeplerianOrbit::try_new", || KeplerianOrbit::try_new(au, *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep))?;
        ensure!(k.is_ok() == (base && *e < 1.0 && m0.is_finite()), "elements gave {:?}", k);
        if size_ok && ang && *e == 1.0 { ensure!(k == Err(ConicError::ParabolicSemiMajorAxis), "parabolic elements gave {:?}", k) }
        if base && *e > 1.0 { ensure!(k == Err(ConicError::HyperbolicNotSupported), "hyperbolic elements gave {:?}", k) }
        if !size_ok && e_ok { ensure!(k == Err(ConicError::InvalidSemiMajorAxis), "bad size gave {:?}", k) }
        if size_ok && !e_ok { ensure!(k == Err(ConicError::InvalidEccentricity), "bad eccentricity gave {:?}", k) }
        if base && *e < 1.0 && !m0.is_finite() { ensure!(k == Err(ConicError::InvalidMeanAnomaly), "bad mean anomaly gave {:?}", k) }
        let raw = KeplerianOrbit::new(au, *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep);
        let p = np("PreparedOrbit::try_from", || PreparedOrbit::try_from(raw))?;
        ensure!(p.is_ok() == k.is_ok(), "a prepared orbit was made of unchecked elements that validation judges {:?}", k.err());
        let q = np("PreparedOrbit::try_from_elements", || PreparedOrbit::try_from_elements(au, *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep))?;
        ensure!(q.err() == k.err() && p.err() == k.err(), "errors differ: {:?} {:?} {:?}", k, p, q);
        let cn = np("ConicOrbit::try_new", || ConicOrbit::try_new(au, *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep))?;
        ensure!(cn.is_ok() == (base && *e != 1.0 && m0.is_finite()), "conic gave {:?}", cn);
        if size_ok && *e == 1.0 { ensure!(cn == Err(ConicError::ParabolicUnsupported), "parabolic conic gave {:?}", cn) }
        if !size_ok && e_ok { ensure!(cn == Err(ConicError::InvalidPeriapsisDistance), "bad periapsis gave {:?}", cn) }
        let m = np("MeanMotionOrbit::try_new", || MeanMotionOrbit::try_new(au, *e, deg(*i), deg(*node), deg(*argp), AngularRate::<Degree, Day>::new(*nm), ep))?;
        ensure!(m.is_ok() == (base && *e < 1.0 && nm.is_finite() && *nm > 0.0), "mean-motion orbit gave {:?}", m);
        if base && *e < 1.0 && m.is_err() { ensure!(m == Err(ConicError::InvalidMeanMotion), "bad mean motion gave {:?}", m) }
        // Whatever is accepted has finite positions; parabolic elements made unchecked report an error.
        if let Ok(k) = k { ensure!(p3(&np("position", || k.kepler_position(t))?).iter().all(|x| x.is_finite()), "position not finite") }
        if let Ok(o) = cn { let r = np("conic position", || o.position_at(t))?; ensure!(matches!(&r, Ok(p) if p3(p).iter().all(|x| x.is_finite())), "conic position {:?}", r) }
        if let Ok(o) = m { let r = np("mean-motion position", || o.position_at(t))?; ensure!(matches!(&r, Ok(p) if p3(p).iter().all(|x| x.is_finite())), "mean-motion position {:?}", r) }
        if size_ok && ang && *e == 1.0 && m0.is_finite() {
            let o = ConicOrbit::new_unchecked(au, *e, deg(*i), deg(*node), deg(*argp), deg(*m0), ep);
            ensure!(o.kind() == ConicKind::Parabolic && o.position_at(t).err() == Some(ConicError::ParabolicUnsupported), "parabolic position {:?}", o.position_at(t));
        }
        // Comets: Kepler's third law in years.
        if let Ok(k) = k {
            let y = Comet::builder().name("x").tail_length(Kilometers::new(1.0)).orbit(k).build().period_years();
            ensure!((y.value() * 365.25 / (k.period().value() / 86400.0) - 1.0).abs() < 1e-4, "comet period {} years, orbit period {} s", y, k.period());
            let json = serde_json::to_string(&k).map_err(|x| x.to_string())?;
            let back: KeplerianOrbit = serde_json::from_str(&json).map_err(|x| x.to_string())?;
            let (x, y) = (p3(&k.kepler_position(t)), p3(&back.kepler_position(t)));
            ensure!(dist(x, y) < 1e-11 && back.epoch == k.epoch, "serialised {} read back as {:?}", json, back);
            let pj = serde_json::to_string(&p.unwrap()).map_err(|x| x.to_string())?;
            let pb: PreparedOrbit = serde_json::from_str(&pj).map_err(|x| x.to_string())?;
            ensure!(dist(p3(&pb.position_at(t)), x) < 1e-11, "prepared orbit does not survive serialisation: {}", pj);
            let bad = json.replace("\"eccentricity\":0.3", "\"eccentricity\":1.3");
            if bad != json {
                ensure!(serde_json::from_str::<KeplerianOrbit>(&bad).is_err() && serde_json::from_str::<PreparedOrbit>(&bad).is_err(), "a hyperbolic orbit was read as elliptic: {}", bad);
            }
            return Ok("valid")
        }
        Ok("invalid")
    });
    c.finish()
}
