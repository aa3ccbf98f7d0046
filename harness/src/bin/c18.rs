//! C18: TLE mean elements propagate as the documented secular-J2 theory.
use chrono::{TimeZone, Utc};
use proptest::prelude::*;
use siderust::astro::sgp4::{GravityModel, Sgp4Error, TlePropagator};
use siderust::formats::tle::{Classification, InternationalDesignator, SatelliteNumber, TLE};
use siderust::qtty::*;
use std::f64::consts::{PI, TAU};
use tempoch::{JulianDate, Time, JD, UTC};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

#[derive(Clone, Copy, Debug)]
struct El { i: f64, raan: f64, e: f64, argp: f64, m: f64, n: f64, nd: f64, ndd: f64, bstar: f64 }
fn tle(x: &El, epoch: Time<UTC>) -> TLE {
    TLE {
        name: None, norad_id: SatelliteNumber(25544), classification: Classification::Unclassified,
        international_designator: InternationalDesignator("98067A".into()), epoch,
        mean_motion_dot: x.nd, mean_motion_ddot: x.ndd, bstar: x.bstar, element_set_number: 1, revolution_number_at_epoch: 1,
        inclination: Degrees::new(x.i), raan: Degrees::new(x.raan), eccentricity: x.e, argument_of_perigee: Degrees::new(x.argp),
        mean_anomaly: Degrees::new(x.m), mean_motion: siderust::qtty::angular_rate::AngularRate::new(x.n),
    }
}
/// UTC instant from a second count since 2000-01-01T00:00 in civil (leap-free) reckoning.
fn utc(civil: f64) -> Time<UTC> {
    let s = civil.floor();
    Time::<UTC>::try_from_chrono(Utc.timestamp_opt(946_684_800 + s as i64, ((civil - s) * 1e9) as u32 % 1_000_000_000).unwrap()).expect("civil instant")
}
/// TAI-UTC steps since 1999, as civil seconds since 2000-01-01.
const LEAPS: [(i32, u32, u32); 5] = [(2006, 1, 1), (2009, 1, 1), (2012, 7, 1), (2015, 7, 1), (2017, 1, 1)];
fn leaps_before(civil: f64) -> f64 {
    LEAPS.iter().filter(|l| (Utc.with_ymd_and_hms(l.0, l.1, l.2, 0, 0, 0).unwrap().timestamp() - 946_684_800) as f64 <= civil).count() as f64
}
fn consts(g: GravityModel) -> (f64, f64, f64) { if g == GravityModel::Wgs84 { (398600.5, 6378.137, 1.08262998905e-3) } else { (398600.8, 6378.135, 1.082616e-3) } }
fn ecc_anomaly(m: f64, e: f64) -> f64 {
    let r = m - (m / TAU).round() * TAU;
    let (mut lo, mut hi) = (-PI - 1e-9, PI + 1e-9);
    for _ in 0..80 { let x = 0.5 * (lo + hi); if x - e * x.sin() > r { hi = x } else { lo = x } }
    0.5 * (lo + hi)
}
struct Ref { r: V3, v: V3, a: f64, n: f64, j: f64, phase: f64 }
/// The secular theory (a TLE prints n-dot/2 and n-ddot/6): elements drift linearly under J2, the anomaly follows the mean-motion polynomial.
fn theory(x: &El, g: GravityModel, d: f64) -> Option<Ref> {
    let (mu, re, j2) = consts(g);
    let n = TAU / 86400.0 * (x.n + 2.0 * x.nd * d + 3.0 * x.ndd * d * d - 1e-5 * x.bstar * d.abs());
    if !(n > 0.0 && n.is_finite()) { return None }
    let a = (mu / (n * n)).powf(1.0 / 3.0);
    let p = a * (1.0 - x.e * x.e);
    let j = j2 * (re / p).powi(2);
    let (ci, t) = (x.i.to_radians().cos(), d * 86400.0);
    let raan = x.raan.to_radians() - 1.5 * j * n * ci * t;
    let argp = x.argp.to_radians() + 0.75 * j * n * (5.0 * ci * ci - 1.0) * t;
    let phase = TAU * (x.n * d + x.nd * d * d + x.ndd * d * d * d) + 0.75 * j * n * (1.0 - x.e * x.e).sqrt() * (3.0 * ci * ci - 1.0) * t;
    let q = ecc_anomaly(x.m.to_radians() + phase, x.e);
    let (s, c, b) = (q.sin(), q.cos(), (1.0 - x.e * x.e).sqrt());
    let qd = n / (1.0 - x.e * c);
    let rot = mm(&r3(-raan), &mm(&r1(-x.i.to_radians()), &r3(-argp)));
    let (r, v) = (mv(&rot, [a * (c - x.e), a * b * s, 0.0]), mv(&rot, [-a * s * qd, a * b * c * qd, 0.0]));
    let reach = phase.abs() + TAU * (x.n * d.abs() + x.nd.abs() * d * d + (x.ndd * d * d * d).abs()) + (raan.abs() + argp.abs() + 20.0);
    Some(Ref { r, v, a, n, j, phase: reach })
}
fn pv(s: &siderust::astro::sgp4::TemeState) -> (V3, V3) {
    let (p, v) = (s.position(), s.velocity());
    ([p.x().value(), p.y().value(), p.z().value()], [v.x().value(), v.y().value(), v.z().value()])
}
fn elements() -> impl Strategy<Value = El> {
    let e = prop_oneof![6 => 0.0f64..0.3, 2 => 0.3f64..0.95, 1 => Just(0.0), 1 => logu(-7.0, -2.0), 2 => logu(-7.0, -1.3).prop_map(|x| 1.0 - x)];
    let i = prop_oneof![6 => 0.0f64..180.0, 1 => Just(0.0), 1 => Just(90.0), 1 => Just(180.0), 1 => Just(63.4349)];
    let m = prop_oneof![6 => 0.0f64..360.0, 1 => Just(0.0), 1 => Just(180.0), 1 => logu(-4.0, 0.0), 1 => logu(-4.0, 0.0).prop_map(|x| 360.0 - x)];
    let n = prop_oneof![4 => 11.0f64..17.0, 2 => 0.3f64..11.0, 1 => Just(1.0027379), 1 => logu(-2.0, 1.2)];
    let nd = prop_oneof![4 => -1e-4f64..1e-4, 1 => Just(0.0), 1 => -0.03f64..0.03];
    let ndd = prop_oneof![4 => Just(0.0), 1 => -1e-5f64..1e-5];
    let bs = prop_oneof![4 => -1e-3f64..1e-3, 1 => Just(0.0), 1 => -1.0f64..1.0];
    (i, 0.0f64..360.0, e, 0.0f64..360.0, m, (n, nd, ndd, bs)).prop_map(|(i, raan, e, argp, m, (n, nd, ndd, bstar))| El { i, raan, e, argp, m, n, nd: nd * n, ndd: ndd * n, bstar })
}
fn offset() -> impl Strategy<Value = f64> { prop_oneof![1 => Just(0.0), 5 => -1440.0f64..1440.0, 4 => -43200.0f64..43200.0, 1 => -5e6f64..5e6] }
fn model() -> impl Strategy<Value = GravityModel> { prop_oneof![Just(GravityModel::Wgs72), Just(GravityModel::Wgs72Iau), Just(GravityModel::Wgs84)] }

fn main() {
    let mut c = Check::new("C18", "element sets with eccentricity 0 to 1-1e-7, all angles, 0.01 to 17 rev/day, drag terms of both signs, epochs 2000-2050, offsets up to years either way, and unusable element values; a case is trivial at zero offset");
    c.assume("the drag term 1e-5*BSTAR*|days| rev/day is part of the theory as implemented; it is not published elsewhere");
    c.prop("theory", 1_500_000, || (elements(), model(), offset(), 0.0f64..1.5e9), |(x, g, dt, civil)| {
        let prop = TlePropagator::from_tle_with_model(&tle(x, utc(*civil)), *g).map_err(|e| format!("valid elements refused: {e}"))?;
        ensure!(prop.gravity_model() == *g, "gravity model lost");
        let d = dt / 1440.0;
        let got = np("propagate_minutes", || prop.propagate_minutes(Minutes::new(*dt)))?;
        let Some(w) = theory(x, *g, d) else {
            ensure!(matches!(got, Err(Sgp4Error::Propagation { .. })), "mean motion is not positive at the target yet {got:?}");
            return Ok("decayed");
        };
        let s = got.map_err(|e| format!("not propagated: {e}"))?;
        let (r, v) = pv(&s);
        // Phase rounding, amplified by the anomaly rate; near-zero mean motion is ill-conditioned through a.
        let cond = 1.0 + (x.n.abs() + 2.0 * x.nd.abs() * d.abs() + 3.0 * x.ndd.abs() * d * d) / (w.n * 86400.0 / TAU);
        let dm = 4e-15 * (w.phase * cond + 20.0);
        let q = norm(w.r) / w.a;
        let tr = w.a * 1e-13 * cond + norm(w.v) / w.n * dm + w.a * dm;
        let tv = norm(w.v) * (1e-13 * cond + dm) + (norm(w.v) / (norm(w.r) / w.a)).max(w.n * w.a / (q * q)) * dm * 2.0;
        ensure!(dist(r, w.r) <= tr, "position off by {:e} km (allowed {tr:e})", dist(r, w.r));
        ensure!(dist(v, w.v) <= tv, "velocity off by {:e} km/s (allowed {tv:e})", dist(v, w.v));
        let shift = (s.epoch().raw() - prop.epoch_jd_utc().raw()).value() - d;
        ensure!(shift.abs() < 1.2e-9 + 1e-15 * d.abs(), "state is labelled {:e} d away from the requested offset", shift);
        Ok(if *dt == 0.0 { "-at epoch" } else if x.n < 6.4 { "deep space" } else if x.e > 0.95 { "near-parabolic" } else { "near Earth" })
    });
    c.prop("mechanics", 600_000, || (elements(), model(), offset(), 0.0f64..1.5e9), |(x, g, dt, civil)| {
        let prop = TlePropagator::from_tle_with_model(&tle(x, utc(*civil)), *g).map_err(|e| format!("valid elements refused: {e}"))?;
        let (mu, _, _) = consts(*g);
        let d = dt / 1440.0;
        let Some(w) = theory(x, *g, d) else { return Ok("-decayed") };
        let (r, v) = pv(&prop.propagate_minutes(Minutes::new(*dt)).map_err(|e| format!("not propagated: {e}"))?);
        let h = cross(r, v);
        let peri = w.a * (1.0 - x.e);
        ensure!(norm(r) >= peri * (1.0 - 1e-9) - 1e-9 && norm(r) <= w.a * (1.0 + x.e) * (1.0 + 1e-9), "radius {} outside [{}, {}]", norm(r), peri, w.a * (1.0 + x.e));
        let en = dot(v, v) / 2.0 - mu / norm(r);
        ensure!((en + mu / (2.0 * w.a)).abs() <= 1e-8 * mu / norm(r), "orbital energy {en}, expected {}", -mu / (2.0 * w.a));
        let p = w.a * (1.0 - x.e * x.e);
        ensure!((norm(h) / (mu * p).sqrt() - 1.0).abs() < 1e-8 / (1.0 - x.e).min(1.0), "angular momentum {} for {}", norm(h), (mu * p).sqrt());
        ensure!((h[2] / norm(h) - x.i.to_radians().cos()).abs() < 1e-8, "inclination drifted");
        // Velocity against the change of position: the two differ by no more than the J2 rates and the drag.
        let step = (1e-3 / (w.n * norm(v) / norm(r) / w.n).max(w.n)).max(0.02);
        let day = step / 86400.0;
        let slow = (2.0 * x.nd.abs() + 6.0 * x.ndd.abs() * d.abs() + 1e-5 * x.bstar.abs()) * TAU / 86400.0 / 86400.0;
        if slow * dt.abs() * 60.0 > 1e-3 * w.n || slow > 1e-8 * w.n || day * 1440.0 < 1e-9 * dt.abs() || x.e > 0.9 { return Ok("-drag dominates") }
        let at = |k: f64| prop.propagate_minutes(Minutes::new(dt + k * day * 1440.0)).map(|s| pv(&s).0).map_err(|e| format!("not propagated: {e}"));
        let fd = scale(sub(at(1.0)?, at(-1.0)?), 1.0 / (2.0 * step));
        // A J2 rate multiplies elapsed time, so a slow change of n enters through it as well.
        let drift = slow / w.n * dt.abs() * 60.0;
        let lim = (8.0 * w.j * (1.0 + 3.0 * drift) + 2e-3 * 1e-3 + 3.0 * drift) * (norm(v) + w.n * norm(r)) + slow / w.n * norm(r) + 1e-12 * w.phase * w.a / step;
        ensure!(dist(fd, v) <= lim, "position moves at {fd:?} while the velocity is {v:?} (allowed difference {lim:e})");
        if *g != GravityModel::Wgs84 {
            let other = if *g == GravityModel::Wgs72 { GravityModel::Wgs72Iau } else { GravityModel::Wgs72 };
            let (r2, _) = pv(&TlePropagator::from_tle_with_model(&tle(x, utc(*civil)), other).unwrap().propagate_minutes(Minutes::new(*dt)).unwrap());
            ensure!(r2 == r, "the two WGS-72 variants give different TEME positions");
        }
        Ok(if *dt == 0.0 { "-at epoch" } else { "moving" })
    });
    // Elapsed time between two civil UTC instants, leap seconds included.
    let span = || prop_oneof![3 => -3e6f64..3e6, 2 => -3e8f64..3e8, 1 => -100.0f64..100.0];
    let start = || prop_oneof![3 => 0.0f64..1.5e9, 4 => (0usize..LEAPS.len(), -3000.0f64..3000.0).prop_map(|(k, x)| { let l = LEAPS[k]; (Utc.with_ymd_and_hms(l.0, l.1, l.2, 0, 0, 0).unwrap().timestamp() - 946_684_800) as f64 + x })];
    c.prop("utc_targets", 600_000, move || (elements(), start(), span()), |(x, civil, gap)| {
        let civil = (civil * 1e3).round() / 1e3;
        let to = ((civil + gap) * 1e3).round() / 1e3;
        if to < 0.0 { return Ok("-before the leap table") }
        if theory(x, GravityModel::Wgs72, (to - civil) / 86400.0).is_some_and(|w| w.j > 0.1 || w.n * 86400.0 / TAU < 0.5 * x.n) { return Ok("-perigee deep inside the Earth, or nearly stopped") }
        let (t0, t1) = (utc(civil), utc(to));
        let prop = TlePropagator::from_tle(&tle(x, t0)).map_err(|e| format!("valid elements refused: {e}"))?;
        let target: JulianDate<UTC> = t1.to::<JD>();
        let secs = to - civil + leaps_before(to) - leaps_before(civil);
        let a = prop.propagate_at(target);
        let b = prop.propagate_minutes(Minutes::new(secs / 60.0));
        let (Ok(a), Ok(b)) = (&a, &b) else {
            ensure!(a.is_err() && b.is_err(), "one entry point propagates and the other does not");
            return Ok("both refuse");
        };
        let ((ra, va), (rb, _)) = (pv(a), pv(b));
        let peri = { let (mu, _, _) = consts(GravityModel::Wgs72); let a0 = 1.0 / (2.0 / norm(ra) - norm(va).powi(2) / mu); (mu / a0 * (1.0 + x.e) / (1.0 - x.e)).sqrt().max(norm(va)) };
        // Two Julian dates, each good to 2.4e-10 d and a nanosecond of clock.
        let lim = peri * 1.5e-4 + norm(va) * norm(va) / norm(ra) * 1e-7 + 1e-9 * norm(ra) * (1.0 + secs.abs() * 1e-7);
        ensure!(dist(ra, rb) <= lim / (1.0 - x.e).min(0.5), "propagating to the UTC instant and by the {secs} s elapsed differ by {} km", dist(ra, rb));
        ensure!(a.epoch() == target, "the state is not labelled with the requested instant");
        Ok(if leaps_before(to) != leaps_before(civil) { "across a leap second" } else { "same offset" })
    });
    let bad = || prop_oneof![Just(f64::NAN), Just(f64::INFINITY), Just(f64::NEG_INFINITY), Just(-1.0), Just(0.0), Just(1.0), Just(2.0), Just(-1e-9), logu(-300.0, 300.0)];
    c.prop("unusable", 300_000, move || (elements(), 0usize..10, bad(), offset()), |(x, k, v, dt)| {
        let (mut y, mut dt) = (*x, *dt);
        match k { 0 => y.e = *v, 1 => y.n = *v, 2 => y.i = *v, 3 => y.raan = *v, 4 => y.argp = *v, 5 => y.m = *v, 6 => y.nd = *v, 7 => y.ndd = *v, 8 => y.bstar = *v, _ => dt = *v }
        let built = np("from_tle", || TlePropagator::from_tle(&tle(&y, utc(6e8))))?;
        let usable = y.e >= 0.0 && y.e < 1.0 && y.n > 0.0 && y.n.is_finite();
        if !usable {
            ensure!(matches!(built, Err(Sgp4Error::InvalidElements { .. })), "unusable elements e={} n={} gave {:?}", y.e, y.n, built.map(|_| "a propagator"));
            return Ok("refused");
        }
        let p = match built { Ok(p) => p, Err(_) => { ensure!(*k > 0 && *k < 9 && (!v.is_finite() || v.abs() > 1e30 || v.abs() < 1e-30), "usable elements refused"); return Ok("refused") } };
        match np("propagate_minutes", || p.propagate_minutes(Minutes::new(dt)))? {
            Ok(s) => {
                let (r, w) = pv(&s);
                ensure!(r.iter().chain(&w).all(|q| q.is_finite()), "a non-finite state was returned");
                ensure!(v.is_finite(), "element or offset {k} = {v} propagated without error");
                Ok(if *v == 0.0 { "-harmless" } else { "propagated" })
            }
            Err(e) => {
                ensure!(!v.is_finite() || v.abs() > 100.0 || theory(&y, GravityModel::Wgs72, dt / 1440.0).is_none(), "usable case k={k} v={v} refused: {e}");
                Ok("error")
            }
        }
    });
    c.finish()
}
