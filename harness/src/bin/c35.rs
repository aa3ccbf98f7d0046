//! C35: thrust arcs, propellant bookkeeping and thrust parameters.
use chrono::{DateTime, Duration, TimeZone, Utc};
use proptest::prelude::*;
use siderust::pod::force::*;
use siderust::pod::problem::parameter::ParameterKind;
use siderust::qtty::force::Newtons;
use siderust::qtty::{Kilograms, Seconds};
use tempoch::{Time, UTC};
use vharness::gen::*;
use vharness::*;

type V = [f64; 3];
fn norm(a: V) -> f64 { (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() }
fn at(us: i64) -> Time<UTC> { let d: DateTime<Utc> = Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap() + Duration::microseconds(us); Time::<UTC>::try_from_chrono(d).unwrap() }
/// Instants around the leap seconds of 2005, 2008, 2012, 2015 and 2016, and anywhere.
fn when() -> impl Strategy<Value = i64> {
    let leap = |y, m| (Utc.with_ymd_and_hms(y, m, 1, 0, 0, 0).unwrap() - Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap()).num_seconds() * 1_000_000;
    prop_oneof![3 => 0i64..1_000_000_000_000_000, 1 => (prop_oneof![Just(leap(2006, 1)), Just(leap(2009, 1)), Just(leap(2012, 7)), Just(leap(2015, 7)), Just(leap(2017, 1))], -5_000_000i64..5_000_000).prop_map(|(l, d)| l + d)]
}
/// Leap seconds inserted between two civil instants.
fn leaps(a: i64, b: i64) -> i64 { [(2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)].iter().filter(|(y, m)| { let l = (Utc.with_ymd_and_hms(*y, *m, 1, 0, 0, 0).unwrap() - Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap()).num_seconds() * 1_000_000; a < l && l <= b }).count() as i64 }
fn span() -> impl Strategy<Value = i64> { prop_oneof![3 => 1_000i64..100_000_000, 3 => 1_000_000i64..100_000_000_000, 1 => Just(0i64), 1 => -1_000_000_000i64..-1000] }
fn arc(a: i64, d: i64, f: f64, isp: f64, u: V) -> Result<Result<ThrustArc, ManeuverError>, String> { np("with_normalised_direction", || ThrustArc::with_normalised_direction(at(a), at(a + d), Newtons::new(f), Seconds::new(isp), u)) }

fn main() {
    let mut c = Check::new("C35", "cases inside an arc, at its ends, with propellant used, or refused");
    c.assume("instants near the ends of an arc are at least 100 us away from them or exactly on them: civil-time conversions of the tempoch crate are good to tens of microseconds");

    c.prop("thrust acts exactly inside its arc, along its direction, with F/m", 20_000, || (when(), span(), logu(-6.0, 6.0), prop_oneof![8 => logu(1.0, 4.0), 1 => Just(0.0), 1 => Just(-1.0), 1 => Just(f64::NAN), 1 => Just(f64::INFINITY)], unit_vec(), prop_oneof![6 => logu(-6.0, 6.0), 1 => Just(0.0), 1 => Just(f64::NAN)], prop_oneof![8 => logu(-1.0, 5.0), 1 => Just(0.0), 1 => Just(-3.0), 1 => Just(f64::NAN)], (0usize..8, 0i64..1_000_000_000)), |(a, d, f, isp, u, s, mass, (place, off))| {
        let dir = u.map(|x| x * s);
        let g = arc(*a, *d, *f, *isp, dir)?;
        let ok = *d > 0 && isp.is_finite() && *isp > 0.0 && s.is_finite() && *s > 0.0;
        ensure!(g.is_ok() == ok, "arc of {d} us, Isp {isp}, direction {dir:?}: {g:?}");
        let Ok(g) = g else { return Ok("refused") };
        ensure!((0..3).all(|k| close(g.direction[k], u[k] / norm(*u), 1e-15, 1e-14)), "direction {:?} for {dir:?}", g.direction);
        let t = match place { 0 => *a, 1 => a + d, 2 => a + d / 2, 3 => a - 100 - off, 4 => a + d + 100 + off, 5 => (a + 100 + off % d).min(a + d - 100), 6 => a + 100, _ => a + d - 100 };
        let on = t >= *a && t < a + d;
        if t != *a && t != a + d && ((t - a).abs() < 100 || (t - a - d).abs() < 100) { return Ok("-too close to an end") }
        ensure!(g.is_active(at(t)) == on, "arc {a}..{} us is active: {} at {t}", a + d, g.is_active(at(t)));
        let acc = np("thrust_acceleration", || thrust_acceleration(&g, Kilograms::new(*mass), at(t)))?;
        if !mass.is_finite() || *mass <= 0.0 { ensure!(acc.is_err(), "mass {mass} gives {acc:?}"); return Ok("refused mass") }
        let acc = acc.map_err(|e| e.to_string())?;
        if on { ensure!((0..3).all(|k| close(acc[k], f / mass * u[k] / norm(*u), f / mass * 1e-15, 1e-14)), "acceleration {acc:?} of {f} N on {mass} kg along {u:?}") } else { ensure!(acc == [0.0; 3], "{acc:?} outside the arc") }
        Ok(if on { "burning" } else { "coasting" })
    });
    c.prop("mass flow is thrust over exhaust velocity", 3000, || (logu(-6.0, 6.0), prop_oneof![8 => logu(0.0, 5.0), 1 => Just(0.0), 1 => -10.0f64..0.0, 1 => Just(f64::NAN), 1 => Just(f64::INFINITY)]), |(f, isp)| {
        let g = np("mass_flow_rate", || mass_flow_rate(Newtons::new(*f), Seconds::new(*isp)))?;
        if !isp.is_finite() || *isp <= 0.0 { ensure!(g.is_err(), "Isp {isp}: {g:?}"); return Ok("refused") }
        let g = g.map_err(|e| e.to_string())?;
        ensure!(close(g, f / (isp * 9.80665), 0.0, 1e-14), "{g} kg/s from {f} N, Isp {isp} s");
        Ok("flow")
    });
    c.prop("the propellant ledger follows the rocket equation over any history of burns", 8000, || (logu(0.0, 4.0), when(), proptest::collection::vec((0i64..10_000_000_000, span(), logu(-3.0, 3.0), logu(1.7, 3.7)), 0..8)), |(m0, a, arcs)| {
        let mut log = np("LowThrustLog", || LowThrustLog::try_new(Kilograms::new(*m0)))?.map_err(|e| e.to_string())?;
        ensure!(LowThrustLog::try_new(Kilograms::new(-m0)).is_err() && LowThrustLog::try_new(Kilograms::new(0.0)).is_err() && LowThrustLog::try_new(Kilograms::new(f64::NAN)).is_err(), "massless spacecraft accepted");
        let (mut t, mut m, mut dv, mut n) = (*a, *m0, 0.0, 0);
        for (gap, d, f, isp) in arcs {
            t += gap;
            let Ok(mut g) = arc(t, d.abs().max(1000), *f, *isp, [1.0, 0.0, 0.0])? else { return Err("arc refused".into()) };
            if *d <= 0 { g.stop = at(t + d) }
            let before = (log.current_mass().value(), log.total_delta_v().value(), log.total_propellant().value(), log.records().len());
            let sec = (*d + 1_000_000 * leaps(t, t + d)) as f64 / 1e6;
            let used = f / (isp * 9.80665) * sec;
            let r = np("append", || log.append(&g).cloned())?;
            let slack = f / (isp * 9.80665) * 100e-6;
            if *d <= 0 || used >= m + slack {
                ensure!(r.is_err(), "arc of {sec} s burning {used} of {m} kg: {r:?}");
                ensure!(before == (log.current_mass().value(), log.total_delta_v().value(), log.total_propellant().value(), log.records().len()), "a refused arc changed the ledger");
                continue;
            }
            if used > m - slack { return Ok("-runs dry") }
            let r = r.map_err(|e| format!("arc of {sec} s burning {used} of {m} kg: {e}"))?;
            ensure!(close(r.duration.value(), sec, 100e-6, 1e-12), "duration {} of {sec} s", r.duration.value());
            let v = -isp * 9.80665 * (-used / m).ln_1p();
            let tol = 1e-12 * used + slack + 1e-15 * m0;
            ensure!(close(r.propellant_used.value(), used, tol, 0.0) && close(r.wet_mass_before.value(), m, 1e-13 * m0 + slack * 10.0, 0.0), "{r:?}: {used} of {m} kg");
            ensure!(close(r.delta_v.value(), v, isp * 9.80665 * (1e-14 * m0 + 20.0 * tol) / (m - used), 0.0), "velocity change {} instead of {v} m/s", r.delta_v.value());
            m = log.current_mass().value(); dv += r.delta_v.value(); n += 1;
            ensure!(close(m, before.0 - r.propellant_used.value(), 1e-15 * m0, 0.0), "mass {m} after {r:?}");
            ensure!(close(log.total_delta_v().value(), dv, 0.0, 1e-14) && close(log.total_propellant().value(), m0 - m, 1e-14 * m0, 0.0) && log.records().len() == n && log.records()[n - 1] == r, "totals after {n} arcs");
            t += d;
        }
        Ok(if n > 1 { "several burns" } else if n == 1 { "one burn" } else { "-no burn" })
    });
    c.prop("thrust arc parameters", 500, || ("[a-z0-9_ ]{0,12}", any::<bool>(), any::<bool>()), |(id, scale, dv)| {
        let p = ThrustArcConfig { id: id.clone(), start_seconds_tdb: 0.0, stop_seconds_tdb: 60.0, estimate_thrust_scale: *scale, estimate_delta_v: *dv }.parameters();
        let mut want = vec![];
        if *scale { want.push((format!("thrust_scale[{id}]"), 1.0)) }
        if *dv { for x in ['X', 'Y', 'Z'] { want.push((format!("delta_v_{x}[{id}]"), 0.0)) } }
        ensure!(p.len() == want.len() && p.iter().zip(&want).all(|(p, w)| p.kind == ParameterKind::Custom(w.0.clone()) && p.initial_value == w.1 && p.apriori_sigma.is_some_and(|s| s > 0.0)), "{p:?}, expected {want:?}");
        Ok(if want.is_empty() { "-none" } else { "parameters" })
    });
    c.finish()
}
