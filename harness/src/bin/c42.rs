//! C42: serialisation round-trips every public value.
use affn::cartesian;
use affn::conic::ConicKind;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use siderust::astro::conic::*;
use siderust::astro::orbit::*;
use siderust::astro::proper_motion::*;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::ephemeris::lagrange::SunEarthLagrangePoint;
use siderust::event::lunar::phase::*;
use siderust::pod::problem::arc::ArcId;
use siderust::pod::problem::covariance::ParameterCovariance;
use siderust::pod::problem::parameter::*;
use siderust::pod::product::residuals_csv::ResidualRecord;
use siderust::pod::qc::residuals::*;
use siderust::pod::run::dataset::DatasetRef;
use siderust::pod::run::manifest::RunManifest;
use siderust::qtty::*;
use siderust::targets::CoordinateWithPM;
use siderust::time::{JulianDate, ModifiedJulianDate};
use vharness::*;

/// JSON may cost the last bit of a number.
fn f(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-15 * a.abs().max(b.abs()) }
/// Text (compact and indented), bytes, and the value tree.
fn trip<T: Serialize + DeserializeOwned + std::fmt::Debug>(x: &T, eq: &dyn Fn(&T, &T) -> bool, required: &[&str]) -> Result<Value, String> {
    let e = |e: serde_json::Error| format!("{x:?}: {e}");
    let s = np("to_string", || serde_json::to_string(x))?.map_err(e)?; let v = np("to_value", || serde_json::to_value(x))?.map_err(e)?;
    let back: Vec<T> = vec![np("from_str", || serde_json::from_str(&s))?.map_err(e)?, serde_json::from_str(&serde_json::to_string_pretty(x).map_err(e)?).map_err(e)?, serde_json::from_slice(s.as_bytes()).map_err(e)?, np("from_value", || serde_json::from_value(v.clone()))?.map_err(e)?];
    for b in &back { ensure!(eq(x, b), "{x:?} became {b:?} through {s}") }
    for k in required {
        let o = v.as_object().ok_or(format!("{s} is not an object"))?; ensure!(o.contains_key(*k), "{s} lacks {k}");
        let mut w = v.clone(); w.as_object_mut().unwrap().remove(*k); ensure!(np("from_value", || serde_json::from_value::<T>(w.clone()))?.is_err(), "accepted without {k}: {w}");
        for bad in [Value::Null, Value::Bool(true), Value::String("x\u{1}y".into()), serde_json::json!({"a": [1]})] { if std::mem::discriminant(&bad) == std::mem::discriminant(&o[*k]) { continue } let mut w = v.clone(); w[*k] = bad; ensure!(np("from_value", || serde_json::from_value::<T>(w.clone()))?.is_err(), "accepted a wrong kind of {k}: {w}") }
    }
    let cut = &s[..s.len() - 1]; ensure!(s.len() < 3 || s.parse::<f64>().is_ok() || np("from_str", || serde_json::from_str::<T>(cut))?.is_err(), "accepted a truncated document: {cut}");
    Ok(v)
}
fn same<T: Serialize + DeserializeOwned + std::fmt::Debug + PartialEq>(x: &T) -> Result<Value, String> { trip(x, &|a, b| a == b, &[]) }
fn jd(x: f64) -> JulianDate { JulianDate::new(x) }
fn day() -> impl Strategy<Value = f64> { prop_oneof![3 => 2_400_000.0f64..2_500_000.0, 1 => Just(2_451_545.0), 1 => 1_000_000.0f64..4_000_000.0] }
fn num() -> impl Strategy<Value = f64> { prop_oneof![4 => -1e3f64..1e3, 1 => -1e12f64..1e12, 1 => (-200.0f64..200.0).prop_map(|e| 10f64.powf(e)), 1 => prop_oneof![Just(0.0), Just(-0.0), Just(1.0), Just(f64::MIN_POSITIVE), Just(f64::MAX)]] }
fn word() -> impl Strategy<Value = String> { prop_oneof!["[A-Za-z0-9_-]{0,8}", "[\"\\\\/é☉\u{1}\n\t ]{0,5}"] }
fn deg(x: f64) -> Degrees { Degrees::new(x) }
fn q<U: Unit>(a: Quantity<U>, b: Quantity<U>) -> bool { f(a.value(), b.value()) }
fn t(a: JulianDate, b: JulianDate) -> bool { (a.raw().value() - b.raw().value()).abs() <= 1e-9 }
type El = (f64, f64, [f64; 3], f64, f64);
fn els() -> impl Strategy<Value = El> { (prop_oneof![0.01f64..50.0, 1.0f64..1e5], prop_oneof![4 => 0.0f64..0.999, 1 => Just(0.0), 1 => 1.0001f64..4.0], [0.0f64..180.0, 0.0f64..360.0, 0.0f64..360.0], -720.0f64..720.0, day()) }
fn orient<F: ReferenceFrame>(a: &affn::conic::ConicOrientation<F>, b: &affn::conic::ConicOrientation<F>) -> bool { f(a.inclination().value(), b.inclination().value()) && f(a.longitude_of_ascending_node().value(), b.longitude_of_ascending_node().value()) && f(a.argument_of_periapsis().value(), b.argument_of_periapsis().value()) }
fn kep<U: LengthUnit>(a: &KeplerianOrbit<U>, b: &KeplerianOrbit<U>) -> bool { f(a.shape().semi_major_axis().value(), b.shape().semi_major_axis().value()) && f(a.shape().eccentricity(), b.shape().eccentricity()) && orient(a.orientation(), b.orientation()) && q(a.mean_anomaly_at_epoch, b.mean_anomaly_at_epoch) && t(a.epoch, b.epoch) }
/// Replace the first number under `key`, wherever it is.
fn set(v: &mut Value, key: &str, x: f64) -> bool { match v { Value::Object(o) => { if let Some(y) = o.get_mut(key) { if y.is_number() { *y = serde_json::json!(x); return true } } o.values_mut().any(|w| set(w, key, x)) } Value::Array(a) => a.iter_mut().any(|w| set(w, key, x)), _ => false } }
fn dir(lon: f64, lat: f64) -> spherical::Direction<ICRS> { spherical::Direction::<ICRS>::new(deg(lon), deg(lat)) }
fn rate(x: f64) -> Quantity<Per<Degree, unit::Year>> { Quantity::new(x) }
fn kind() -> impl Strategy<Value = ParameterKind> {
    use ParameterKind::*;
    prop_oneof![prop_oneof![Just(StatePositionX), Just(StatePositionY), Just(StatePositionZ), Just(StateVelocityX), Just(StateVelocityY), Just(StateVelocityZ), Just(DragScale), Just(SrpScale)], word().prop_map(|receiver_id| ReceiverClockBias { receiver_id }), (word(), word(), word()).prop_map(|(receiver_id, satellite_id, signal)| CarrierAmbiguity { receiver_id, satellite_id, signal }), word().prop_map(|station_id| SlrRangeBias { station_id }), (word(), any::<char>()).prop_map(|(frame, component)| EmpiricalAcceleration { frame, component }), word().prop_map(Custom)]
}
fn data() -> impl Strategy<Value = DatasetRef> { (word(), word(), proptest::collection::vec(any::<u8>(), 0..40)).prop_map(|(p, k, b)| DatasetRef::from_bytes(p, k, &b)) }
fn stats(a: &ResidualStats, b: &ResidualStats) -> bool { a.n == b.n && f(a.mean, b.mean) && f(a.std, b.std) && f(a.rms, b.rms) && f(a.min, b.min) && f(a.max, b.max) }

fn main() {
    let mut c = Check::new("C42", "every value; documents with a member removed, of another kind, out of range or cut short");
    c.prop("orbits", 15_000, || (els(), num(), 0u8..3), |((a, e, o, m, d), mm, ctr)| {
        let (i, n, w) = (deg(o[0]), deg(o[1]), deg(o[2])); let (e, a) = (*e, *a);
        let con = ConicOrbit::try_new(AstronomicalUnits::new(a), e, i, n, w, deg(*m), jd(*d)).map_err(|x| x.to_string())?;
        let v = trip(&con, &|x, y| q(x.geometry().shape().periapsis_distance(), y.geometry().shape().periapsis_distance()) && f(x.geometry().shape().eccentricity(), y.geometry().shape().eccentricity()) && orient(x.geometry().orientation(), y.geometry().orientation()) && q(x.mean_anomaly_at_epoch, y.mean_anomaly_at_epoch) && t(x.epoch, y.epoch) && x.kind() == y.kind(), &["geometry", "mean_anomaly_at_epoch", "epoch"])?;
        for (k, x) in [("eccentricity", -0.1), ("eccentricity", 1.0), ("periapsis_distance", 0.0), ("periapsis_distance", -a)] { let mut b = v.clone(); ensure!(set(&mut b, k, x), "no {k} in {v}"); let r = np("from_value", || serde_json::from_value::<ConicOrbit>(b.clone()))?; ensure!(r.is_err(), "an orbit no constructor makes was read: {b}") }
        if e >= 1.0 { ensure!(con.kind() == ConicKind::Hyperbolic, "kind"); return Ok("hyperbolic") }
        let k = KeplerianOrbit::<AstronomicalUnit>::try_new(AstronomicalUnits::new(a), e, i, n, w, deg(*m), jd(*d)).map_err(|x| x.to_string())?; let v = trip(&k, &|x, y| kep(x, y), &["shape", "orientation", "mean_anomaly_at_epoch", "epoch"])?;
        let km = KeplerianOrbit::<Kilometer>::try_new(Kilometers::new(a * 1e4), e, i, n, w, deg(*m), jd(*d)).map_err(|x| x.to_string())?; trip(&km, &|x, y| kep(x, y), &["shape", "orientation", "mean_anomaly_at_epoch", "epoch"])?;
        let p = PreparedOrbit::try_from(k).map_err(|x| x.to_string())?; let at = jd(d + mm.clamp(-1e4, 1e4)); let pos = |p: &PreparedOrbit| { let r = p.position_at(at); [r.x().value(), r.y().value(), r.z().value()] }; trip(&p, &|x, y| { let (x, y) = (pos(x), pos(y)); (0..3).all(|i| (x[i] - y[i]).abs() < 1e-6 * a.max(1.0)) }, &["shape", "orientation"])?;
        let mo = MeanMotionOrbit::try_new(AstronomicalUnits::new(a), e, i, n, w, Quantity::new(mm.abs().max(1e-9).min(1e6)), jd(*d)).map_err(|x| x.to_string())?; let vm = trip(&mo, &|x, y| q(x.geometry().shape().semi_major_axis(), y.geometry().shape().semi_major_axis()) && f(x.geometry().shape().eccentricity(), y.geometry().shape().eccentricity()) && orient(x.geometry().orientation(), y.geometry().orientation()) && q(x.mean_motion, y.mean_motion) && t(x.epoch, y.epoch), &["geometry", "mean_motion", "epoch"])?;
        for (k, x) in [("eccentricity", -0.1), ("eccentricity", 1.0), ("eccentricity", 1.5), ("semi_major_axis", 0.0), ("semi_major_axis", -a)] { for (what, v) in [("Keplerian", &v), ("mean motion", &vm)] { let mut b = v.clone(); ensure!(set(&mut b, k, x), "no {k} in {v}"); let bad = if what == "Keplerian" { np("from_value", || serde_json::from_value::<KeplerianOrbit>(b.clone()).is_ok() || serde_json::from_value::<PreparedOrbit>(b.clone()).is_ok())? } else { serde_json::from_value::<MeanMotionOrbit>(b.clone()).is_ok() }; ensure!(!bad, "an orbit no constructor makes was read: {b}") } }
        for x in [0.0, -1.0] { let mut b = vm.clone(); ensure!(set(&mut b, "mean_motion", x), "no mean motion in {vm}"); ensure!(serde_json::from_value::<MeanMotionOrbit>(b.clone()).is_err(), "an orbit no constructor makes was read: {b}") }
        let center = [OrbitReferenceCenter::Barycentric, OrbitReferenceCenter::Heliocentric, OrbitReferenceCenter::Geocentric][*ctr as usize]; same(&center)?; let bp = BodycentricParams::new(k, center, Quantity::new(mm.abs())); trip(&bp, &|x, y| kep(&x.orbit, &y.orbit) && x.orbit_center == y.orbit_center && q(x.mu, y.mu), &["orbit", "orbit_center", "mu"])?;
        Ok("elliptic")
    });
    c.prop("coordinates", 20_000, || ((0.0f64..360.0, -90.0f64..90.0, 0.0f64..1e6), (-180.0f64..180.0, -90.0f64..90.0, -500.0f64..9000.0), (num(), num(), num()), day(), proptest::option::of((-1.0f64..1.0, -1.0f64..1.0, any::<bool>()))), |((lon, lat, r), g, x, d, pm)| {
        let site = Geodetic::<ECEF>::new(deg(g.0), deg(g.1), Meters::new(g.2)); let gs = |a: &Geodetic<ECEF>, b: &Geodetic<ECEF>| (a.lon.value() - b.lon.value()).abs() < 1e-12 && (a.lat.value() - b.lat.value()).abs() < 1e-12 && f(a.height.value(), b.height.value()); trip(&site, &gs, &[])?;
        let sd = dir(*lon, *lat); let ds = |a: &spherical::Direction<ICRS>, b: &spherical::Direction<ICRS>| (a.polar.value() - b.polar.value()).abs() < 1e-12 && (a.azimuth.value() - b.azimuth.value()).abs() < 1e-12; trip(&sd, &ds, &[])?;
        let sp = Topocentric::horizontal::<Kilometer, _>(site, deg(*lat), deg(*lon), Kilometers::new(*r)); trip(&sp, &|a, b| (a.polar.value() - b.polar.value()).abs() < 1e-12 && (a.azimuth.value() - b.azimuth.value()).abs() < 1e-12 && q(a.distance, b.distance) && gs(a.center_params(), b.center_params()), &[])?;
        let cp = cartesian::Position::<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>::new(x.0, x.1, x.2); trip(&cp, &|a, b| q(a.x(), b.x()) && q(a.y(), b.y()) && q(a.z(), b.z()), &[])?;
        let tc = cartesian::Position::<Topocentric, Horizontal, Kilometer>::new_with_params(site, Kilometers::new(x.0), Kilometers::new(x.1), Kilometers::new(x.2)); trip(&tc, &|a, b| q(a.x(), b.x()) && q(a.y(), b.y()) && q(a.z(), b.z()) && gs(a.center_params(), b.center_params()), &[])?;
        let m = pm.map(|(a, b, star)| if star { ProperMotion::from_mu_alpha_star(rate(a), rate(b)) } else { ProperMotion::from_mu_alpha(rate(a), rate(b)) }); let pms = |a: &ProperMotion, b: &ProperMotion| q(a.pm_ra, b.pm_ra) && q(a.pm_dec, b.pm_dec) && a.ra_convention == b.ra_convention; if let Some(m) = &m { trip(m, &pms, &["pm_ra", "pm_dec", "ra_convention"])?; }
        let tgt = CoordinateWithPM::new_raw(sd, jd(*d), m); trip(&tgt, &|a, b| ds(&a.position, &b.position) && t(a.time, b.time) && match (&a.proper_motion, &b.proper_motion) { (None, None) => true, (Some(a), Some(b)) => pms(a, b), _ => false }, &["position", "time"])?;
        Ok(if pm.is_some() { "moving" } else { "fixed" })
    });
    c.prop("names and Moon phases", 10_000, || (0usize..8, day(), (0.0f64..3.14, 0.0f64..1.0, 0.0f64..6.28, any::<bool>()), 0.0f64..45.0), |(k, d, g, h)| {
        use MoonPhaseLabel as L; same(&[L::NewMoon, L::WaxingCrescent, L::FirstQuarter, L::WaxingGibbous, L::FullMoon, L::WaningGibbous, L::LastQuarter, L::WaningCrescent][*k])?; same(&PhaseKind::ALL[k % 4])?;
        use SunEarthLagrangePoint as P; same(&[P::L1, P::L2, P::L3, P::L4, P::L5][k % 5])?; same(&[RaProperMotionConvention::MuAlpha, RaProperMotionConvention::MuAlphaStar][k % 2])?;
        trip(&PhaseThresholds { half_width: deg(*h) }, &|a, b| q(a.half_width, b.half_width), &["half_width"])?; trip(&PhaseEvent { mjd: ModifiedJulianDate::new(d - 2_400_000.5), kind: PhaseKind::ALL[k % 4] }, &|a, b| (a.mjd.raw().value() - b.mjd.raw().value()).abs() <= 1e-9 && a.kind == b.kind, &["mjd", "kind"])?;
        trip(&MoonPhaseGeometry { phase_angle: Radians::new(g.0), illuminated_fraction: IlluminationFractions::new(g.1), elongation: Radians::new(g.2), waxing: g.3 }, &|a, b| q(a.phase_angle, b.phase_angle) && q(a.illuminated_fraction, b.illuminated_fraction) && q(a.elongation, b.elongation) && a.waxing == b.waxing, &["phase_angle", "illuminated_fraction", "elongation", "waxing"])?;
        trip(&jd(*d), &|a, b| t(*a, *b), &[])?;
        for bad in ["\"newmoon\"", "\"L6\"", "3", "null", "\"\""] { ensure!(serde_json::from_str::<MoonPhaseLabel>(bad).is_err() && serde_json::from_str::<PhaseKind>(bad).is_err() && serde_json::from_str::<P>(bad).is_err() && serde_json::from_str::<OrbitReferenceCenter>(bad).is_err(), "an unknown name was read: {bad}") } Ok("value")
    });
    c.prop("estimation problems", 15_000, || (proptest::collection::vec((kind(), num(), proptest::option::of(0.0f64..1e3)), 0..6), word(), num()), |(ps, id, x)| {
        let ps: Vec<Parameter> = ps.iter().map(|(k, v, s)| Parameter { kind: k.clone(), initial_value: *v, apriori_sigma: *s }).collect(); let eqp = |a: &Parameter, b: &Parameter| a.kind == b.kind && f(a.initial_value, b.initial_value) && match (a.apriori_sigma, b.apriori_sigma) { (None, None) => true, (Some(a), Some(b)) => f(a, b), _ => false };
        for p in &ps { same(&p.kind)?; trip(p, &eqp, &["kind", "initial_value"])?; } let eqo = |a: &ParameterOrdering, b: &ParameterOrdering| a.len() == b.len() && a.params.iter().zip(&b.params).all(|(a, b)| eqp(a, b)); let o = ParameterOrdering { params: ps }; trip(&o, &eqo, &["params"])?;
        let n = o.len(); let cov = ParameterCovariance { params: o, data: (0..n * n).map(|i| x.clamp(-1e300, 1e300) / (i as f64 + 0.37)).collect() }; trip(&cov, &|a, b| eqo(&a.params, &b.params) && a.data.len() == b.data.len() && a.data.iter().zip(&b.data).all(|(a, b)| f(*a, *b)), &["params", "data"])?; same(&ArcId::new(id.clone()))?; Ok(if n == 0 { "-no parameters" } else { "parameters" })
    });
    c.prop("run records", 15_000, || ((word(), word(), word(), word()), proptest::collection::vec(data(), 0..4), proptest::collection::vec((word(), num()), 0..8), (any::<bool>(), num(), day())), |(w, ds, rs, (rej, x, d))| {
        for r in ds { same(r)?; trip(r, &|a, b| a == b, &["path", "kind", "bytes", "sha256"])?; } // The same bytes may be named twice.
        let mut all = ds.clone(); if let Some(d) = ds.first() { all.push(DatasetRef { path: d.path.join("x"), ..d.clone() }); all.push(DatasetRef { sha256: w.2.clone(), ..d.clone() }); }
        let m = RunManifest { run_id: w.0.clone(), tool_version: w.1.clone(), config_sha256: w.2.clone(), inputs: all.clone(), outputs: all.iter().rev().cloned().collect(), started_at: w.3.clone(), finished_at: w.0.clone() }; trip(&m, &|a, b| a == b, &["run_id", "tool_version", "config_sha256", "inputs", "outputs", "started_at", "finished_at"])?;
        let text = m.to_json_pretty().map_err(|e| e.to_string())?; let mut want = m.clone(); for l in [&mut want.inputs, &mut want.outputs] { l.sort_by(|a, b| (&a.kind, &a.path).cmp(&(&b.kind, &b.path))) } ensure!(serde_json::from_str::<RunManifest>(&text).map_err(|e| e.to_string())? == want, "the manifest text reads back as another manifest: {text}");
        let rs: Vec<(&str, f64)> = rs.iter().filter(|r| r.1.abs() < 1e150).map(|r| (r.0.as_str(), r.1)).collect(); let g = ResidualsByGroup::from_pairs(rs.iter().copied()); trip(&g, &|a, b| a.groups.len() == b.groups.len() && a.groups.iter().zip(&b.groups).all(|(x, y)| x.0 == y.0 && stats(x.1, y.1)) && stats(&a.overall, &b.overall), &["groups", "overall"])?; trip(&g.overall, &stats, &["n", "mean", "std", "rms", "min", "max"])?;
        trip(&ResidualRecord { epoch_jd_tt: *d, obs_type: w.0.clone(), satellite: w.1.clone(), residual_m: *x, sigma_m: x.abs(), rejected: *rej }, &|a, b| f(a.epoch_jd_tt, b.epoch_jd_tt) && a.obs_type == b.obs_type && a.satellite == b.satellite && f(a.residual_m, b.residual_m) && f(a.sigma_m, b.sigma_m) && a.rejected == b.rejected, &["epoch_jd_tt", "obs_type", "satellite", "residual_m", "sigma_m", "rejected"])?; Ok(if ds.is_empty() { "-no datasets" } else { "record" })
    });
    c.finish()
}
