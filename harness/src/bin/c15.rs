//! C15: twilight classification and solar day events agree with the Sun's altitude.
use proptest::prelude::*;
use siderust::bodies::solar_system::Sun;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::event::altitude::*;
use siderust::event::solar::*;
use siderust::qtty::*;
use siderust::time::Interval;
use siderust::JulianDate;
use std::f64::consts::PI;
use vharness::curve::*;
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

const KINDS: [Twilight; 5] = [Twilight::Horizon, Twilight::ApparentHorizon, Twilight::Civil, Twilight::Nautical, Twilight::Astronomical];
fn class_ref(a: f64) -> TwilightPhase {
    if a > 0.0 { TwilightPhase::Day } else if a > -6.0 { TwilightPhase::Civil } else if a > -12.0 { TwilightPhase::Nautical } else if a > -18.0 { TwilightPhase::Astronomical } else { TwilightPhase::Dark }
}
/// Right ascension and declination of the Sun, low precision (Meeus ch. 25, 0.01 deg), and GMST.
fn sun_low(jd_tt: f64) -> (f64, f64) {
    let t = (jd_tt - J2000) / 36525.0;
    let l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t;
    let m = (357.52911 + 35999.05029 * t - 0.0001537 * t * t).to_radians();
    let c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * m.sin() + (0.019993 - 0.000101 * t) * (2.0 * m).sin() + 0.000289 * (3.0 * m).sin();
    let om = (125.04 - 1934.136 * t).to_radians();
    let lam = (l0 + c - 0.00478 * om.sin()).to_radians();
    let eps = (23.439291 - 0.0130042 * t + 0.00256 * om.cos()).to_radians();
    ((eps.cos() * lam.sin()).atan2(lam.cos()), (eps.sin() * lam.sin()).asin())
}
fn inside(p: &[(f64, f64)], t: f64) -> bool { p.iter().any(|x| t >= x.0 && t <= x.1) }
fn near_edge(p: &[(f64, f64)], t: f64, tol: f64) -> bool { p.iter().any(|x| (t - x.0).abs() < tol || (t - x.1).abs() < tol) }
fn lats() -> impl Strategy<Value = f64> { prop_oneof![4 => lat_deg(), 2 => prop_oneof![60.0f64..72.0, -72.0f64..-60.0], 1 => prop_oneof![84.0f64..=90.0, -90.0f64..=-84.0]] }
fn sitef(lon: f64, lat: f64) -> Geodetic<ECEF> { Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(100.0)) }

fn main() {
    let mut c = Check::new("C15", "all altitudes and units for the classification; sites over the globe (polar circles and poles weighted) and windows of hours to months over 1950-2100 for the events; a case is trivial when the whole window lies in one band");
    c.prop("classification", 60_000, || (prop_oneof![6 => -90.0f64..90.0, 2 => (0usize..4, -15.0f64..0.0, any::<bool>()).prop_map(|(k, e, s)| -6.0 * k as f64 + if s { 1.0 } else { -1.0 } * 10f64.powf(e)), 1 => (0usize..4).prop_map(|k| -6.0 * k as f64)], any::<bool>()), |(a, rad)| {
        let (got, a) = if *rad {
            let r = a.to_radians();
            if (0..4).any(|k| (a + 6.0 * k as f64).abs() < 1e-12) { return Ok("-rounding in radians") }
            (twilight_classification(Radians::new(r)), r.to_degrees())
        } else { (twilight_classification(Degrees::new(*a)), *a) };
        ensure!(got == class_ref(a), "Sun at {} deg is {:?}, expected {:?}", a, got, class_ref(a));
        let m = twilight_classification(Arcminutes::new(a * 60.0));
        if (0..4).all(|k| (a + 6.0 * k as f64).abs() > 1e-10) { ensure!(m == got, "in arcminutes {:?}", m) }
        Ok("class")
    });
    c.prop("solar altitude", 800, || (jd_modern(), lon_deg(), lats()), |(jd, lon, lat)| {
        let j = JulianDate::new(*jd);
        let h = Sun::get_horizontal::<AstronomicalUnit>(j, sitef(*lon, *lat));
        let (ra, dec) = sun_low(*jd);
        // UT1 from the library's Delta T would cost up to 4e-4 rad per 6 s: allow it through the hour angle's tolerance.
        let dt = if *jd < 2_441_317.5 { 42.0 } else if *jd < 2_460_000.5 { 42.0 + 27.0 * (*jd - 2_441_317.5) / 18_683.0 } else { 70.0 };
        let ut = *jd - dt / 86400.0;
        let ha = gmst06(ut, *jd) + lon.to_radians() - ra;
        let phi = lat.to_radians();
        let sa = phi.sin() * dec.sin() + phi.cos() * dec.cos() * ha.cos();
        let tol = 6e-4 + if *jd > 2_465_000.5 || *jd < 2_440_000.5 { 0.012 * phi.cos() } else { 9e-4 };
        let alt = h.alt().value().to_radians();
        ensure!((alt.sin() - sa).abs() < tol, "Sun at altitude {} deg, low-precision theory says {}", alt.to_degrees(), sa.clamp(-1.0, 1.0).asin().to_degrees());
        let (e, s) = (Vsop87Ephemeris::earth_barycentric(j), Vsop87Ephemeris::sun_barycentric(j));
        let e = e - s;
        let l = Sun::ecliptic_longitude_geocentric(j).value();
        ensure!(adiff(l, (-e.y().value()).atan2(-e.x().value())) < 1e-9, "geocentric ecliptic longitude {}", l);
        let g = Sun::get_apparent_geocentric_equ::<AstronomicalUnit>(j);
        let v = sph(g.ra().value().to_radians(), g.dec().value().to_radians());
        ensure!(angle(v, sph(ra, dec)) < 5e-4, "apparent place {} {}", g.ra(), g.dec());
        ensure!((g.distance.value() - norm([e.x().value(), e.y().value(), e.z().value()])).abs() < 1e-9, "distance {}", g.distance.value());
        Ok("sun")
    });
    c.prop("bands", 70, || (lon_deg(), lats(), 40_000f64..80_000.0, prop_oneof![3 => 0.2f64..4.0, 1 => 4.0f64..12.0]), |(lon, lat, a, len)| {
        let site = sitef(*lon, *lat);
        let b = a + len;
        let w = Interval::new(mjd(*a), mjd(b));
        let o = SearchOpts::default();
        let thr: Vec<f64> = KINDS.iter().map(|k| Degrees::from(*k).value()).collect();
        ensure!(thr == [0.0, -0.833, -6.0, -12.0, -18.0], "twilight altitudes {:?}", thr);
        // Excursions shorter than the documented two-hour scan may be missed.
        let f = |x: f64| Sun.altitude_at(&site, mjd(x)).value().sin();
        let cv = Curve::of(&f, *a, b, 1.0 / 144.0);
        if thr.iter().any(|h| { let s = h.to_radians().sin(); cv.extrema().iter().any(|e| (e.0 - s).abs() < 2e-5) || {
            let x: Vec<f64> = cv.g.windows(2).zip(&cv.t).filter(|(g, _)| (g[0] > s) != (g[1] > s)).map(|(_, t)| *t).collect();
            x.windows(2).any(|w| w[1] - w[0] < 130.0 / 1440.0) } }) { return Ok("-grazing a threshold") }
        let night: Vec<Vec<(f64, f64)>> = KINDS.iter().map(|k| ivs(&below_threshold(&Sun, &site, w, Degrees::from(*k), o))).collect();
        let day_: Vec<Vec<(f64, f64)>> = KINDS.iter().map(|k| ivs(&above_threshold(&Sun, &site, w, Degrees::from(*k), o))).collect();
        for i in 0..5 {
            for p in [&night[i], &day_[i]] {
                ensure!(p.iter().all(|x| x.0 < x.1 && x.0 >= *a && x.1 <= b) && p.windows(2).all(|q| q[0].1 < q[1].0), "periods of {:?} are not ordered: {:?}", KINDS[i], p);
            }
        }
        // Each deeper night lies within the shallower one.
        for i in 1..5 { for p in &night[i] { ensure!(night[i - 1].iter().any(|q| p.0 >= q.0 - 1e-6 && p.1 <= q.1 + 1e-6), "{:?} night {:?} is not within a {:?} night: {:?}", KINDS[i], p, KINDS[i - 1], night[i - 1]) } }
        // Bands.
        let band = |lo: f64, hi: f64| ivs(&altitude_ranges(&Sun, &site, w, Degrees::new(lo), Degrees::new(hi), o));
        let bands = [day_[0].clone(), band(-6.0, 0.0), band(-12.0, -6.0), band(-18.0, -12.0), night[4].clone()];
        let total: f64 = bands.iter().flatten().map(|p| p.1 - p.0).sum();
        ensure!((total - len).abs() < 1e-4, "day, twilights and night add up to {} of {} days", total, len);
        let n = (len * 144.0).ceil() as usize;
        let mut seen = [false; 5];
        for i in 0..=n {
            let t = a + len * i as f64 / n as f64;
            let alt = Sun.altitude_at(&site, mjd(t)).value().to_degrees();
            let k = class_ref(alt) as usize;
            seen[k] = true;
            if [0.0, -6.0, -12.0, -18.0].iter().any(|h| (alt - h).abs() < 2e-3) { continue }
            let got = twilight_classification(Degrees::new(alt)) as usize;
            ensure!(got == k, "class at {}", alt);
            for (j, p) in bands.iter().enumerate() {
                ensure!(inside(p, t) == (j == k), "Sun at {} deg ({:?}) at {}: band {} reported {:?}", alt, class_ref(alt), t, j, p);
            }
            if (alt + 0.833).abs() > 2e-3 && !near_edge(&night[1], t, 1e-6) { ensure!(inside(&night[1], t) == (alt < -0.833), "apparent horizon at {}: Sun at {}", t, alt) }
        }
        count_oracle(n as u64 + 1);
        // Rises and sets: alternating, in order, and day length from them.
        let ev = crossings(&Sun, &site, w, Degrees::new(0.0), o);
        ensure!(ev.windows(2).all(|e| e[0].mjd < e[1].mjd && e[0].direction != e[1].direction), "rises and sets do not alternate: {:?}", ev);
        ensure!(ev.len() == day_[0].iter().map(|p| usize::from(p.0 > *a) + usize::from(p.1 < b)).sum::<usize>(), "{} rises and sets for day periods {:?}", ev.len(), day_[0]);
        if seen.iter().filter(|s| **s).count() == 1 { return Ok("-one band only") }
        Ok(if ev.is_empty() { "twilight without rise or set" } else { "rise and set" })
    });
    // Day length against the closed formula, with the declination at transit.
    c.prop("day length", 64, || (lon_deg(), -64.0f64..64.0, 45_000f64..78_000.0, 0usize..5), |(lon, lat, t0, k)| {
        let site = sitef(*lon, *lat);
        let h = Degrees::from(KINDS[*k]).value().to_radians();
        let w = Interval::new(mjd(*t0), mjd(t0 + 2.5));
        let p = ivs(&above_threshold(&Sun, &site, w, Degrees::new(h.to_degrees()), SearchOpts::default()));
        let Some(d) = p.iter().find(|x| x.0 > t0 + 1e-6 && x.1 < t0 + 2.5 - 1e-6) else { return Ok("-no whole day") };
        let (_, dec) = sun_low(0.5 * (d.0 + d.1) + 2_400_000.5);
        let phi = lat.to_radians();
        let ch = (h.sin() - phi.sin() * dec.sin()) / (phi.cos() * dec.cos());
        if ch.abs() > 0.93 { return Ok("-near polar") }
        let want = ch.acos() / PI;
        ensure!((d.1 - d.0 - want).abs() < 2.5e-3 / (1.0 - ch * ch), "day above {:?} lasts {} d, the formula says {} d", KINDS[*k], d.1 - d.0, want);
        // Upper culmination midway: declination drift only.
        let cu: Vec<f64> = culminations(&Sun, &site, w, SearchOpts::default()).iter().filter(|c| c.kind == CulminationKind::Max).map(|c| day(c.mjd)).filter(|t| *t > d.0 && *t < d.1).collect();
        ensure!(cu.len() == 1, "{} upper culminations in the day {:?}", cu.len(), d);
        ensure!((cu[0] - 0.5 * (d.0 + d.1)).abs() < 4e-3 / (1.0 - ch * ch), "culmination {} in the day {:?}", cu[0], d);
        Ok("day")
    });
    c.finish()
}
