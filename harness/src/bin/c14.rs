//! C14: lunar phase, illumination and phase events match the geometry.
use proptest::prelude::*;
use siderust::astro::eop::EopProvider;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::AstroContext;
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::event::lunar::phase::*;
use siderust::qtty::*;
use siderust::time::Interval;
use siderust::JulianDate;
use std::cell::Cell;
use std::f64::consts::{PI, TAU};
use vharness::curve::*;
use vharness::frames::{site_rotations, Ctx, TestEop};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type Ecl = EclipticMeanJ2000;
const KM_AU: f64 = 149_597_870.7;
/// A synthetic Moon and Sun: longitudes and their rates (rad, rad/day), distances, inclination.
#[derive(Clone, Copy, Debug, Default)]
struct Scene { t0: f64, ml: f64, mr: f64, ecc: f64, inc: f64, md: f64, sl: f64, sr: f64, sd: f64 }
impl Scene {
    fn moon(&self, t: f64) -> V3 {
        let d = t - self.t0; let m = self.mr * d;
        let l = self.ml + m + self.ecc * (0.97 * m).sin();
        scale(sph(l, self.inc * (1.004 * m).sin()), self.md * (1.0 - 0.5 * self.ecc * (0.97 * m).cos()))
    }
    fn sun(&self, t: f64) -> V3 { scale(sph(self.sl + self.sr * (t - self.t0), 0.0), self.sd) }
}
thread_local! { static SC: Cell<Scene> = const { Cell::new(Scene { t0: 0.0, ml: 0.0, mr: 0.0, ecc: 0.0, inc: 0.0, md: 4e5, sl: 0.0, sr: 0.0, sd: 1.0 }) }; }
fn jdm(jd: JulianDate) -> f64 { jd.raw().value() - 2_400_000.5 }
struct Synth;
impl Ephemeris for Synth {
    fn sun_barycentric(_: JulianDate) -> Position<Barycentric, Ecl, AstronomicalUnit> { Position::new(0.0, 0.0, 0.0) }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, Ecl, AstronomicalUnit> { let s = SC.with(|s| s.get()).sun(jdm(jd)); Position::new(-s[0], -s[1], -s[2]) }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, Ecl, AstronomicalUnit> { let s = SC.with(|s| s.get()).sun(jdm(jd)); Position::new(-s[0], -s[1], -s[2]) }
    fn earth_barycentric_velocity(_: JulianDate) -> Velocity<Ecl, Per<AstronomicalUnit, Day>> { Velocity::new(0.0, 0.0, 0.0) }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, Ecl, Kilometer> { let m = SC.with(|s| s.get()).moon(jdm(jd)); Position::new(m[0], m[1], m[2]) }
}
fn scene() -> impl Strategy<Value = Scene> {
    (51_544f64..62_000.0, 0.0..TAU, 0.15f64..0.5, 0.0f64..0.12, 0.0f64..0.1, 2e5f64..6e5, 0.0..TAU, 0.0f64..0.03, 0.7f64..1.3, any::<[bool; 2]>())
        .prop_map(|(t0, ml, mr, ecc, inc, md, sl, sr, sd, r)| Scene { t0: if r[0] { t0.floor() } else { t0 }, ml: if r[1] { (ml * 4.0 / PI).floor() * PI / 4.0 } else { ml }, mr, ecc, inc, md, sl: if r[1] { 0.0 } else { sl }, sr, sd })
}
/// The Sun-Moon-Earth angle, by vectors (AU).
fn geometry(moon_km: V3, sun: V3) -> (f64, f64, f64, f64) {
    let m = scale(moon_km, 1.0 / KM_AU);
    let i = angle(sub(sun, m), scale(m, -1.0));
    let el = wrap_tau(m[1].atan2(m[0]) - sun[1].atan2(sun[0]));
    (i, (1.0 + i.cos()) / 2.0, el, angle(m, sun))
}
fn check_geo(g: &MoonPhaseGeometry, moon: V3, sun: V3, tol: f64) -> Result<(), String> {
    let (i, k, el, _) = geometry(moon, sun);
    ensure!(adiff(g.elongation.value(), el) < tol.max(1e-10), "elongation {} expected {}", g.elongation.value(), el);
    ensure!((g.phase_angle.value() - i).abs() < tol.max(3e-7), "phase angle {} expected {}", g.phase_angle.value(), i);
    ensure!((g.illuminated_fraction.value() - k).abs() < tol.max(1e-10), "illuminated fraction {} expected {}", g.illuminated_fraction.value(), k);
    ensure!((0.0..=1.0).contains(&g.illuminated_fraction.value()) && (0.0..=PI).contains(&g.phase_angle.value()) && (0.0..TAU).contains(&g.elongation.value()), "{:?} out of range", g);
    if el.min((el - PI).abs()).min(TAU - el) > tol.max(1e-9) { ensure!(g.waxing == (el < PI), "waxing {} at elongation {}", g.waxing, el) }
    Ok(())
}
fn label_ref(deg: f64, hw: f64) -> Option<MoonPhaseLabel> {
    use MoonPhaseLabel::*;
    let e = deg.rem_euclid(360.0);
    for (c, l) in [(0.0, NewMoon), (90.0, FirstQuarter), (180.0, FullMoon), (270.0, LastQuarter)] {
        let d = adiff_deg(e, c);
        if (d - hw).abs() < 1e-9 { return None }
        if d < hw { return Some(l) }
    }
    Some(if e < 90.0 { WaxingCrescent } else if e < 180.0 { WaxingGibbous } else if e < 270.0 { WaningGibbous } else { WaningCrescent })
}
/// All phase events of an elongation curve: unwrapped multiples of 90 degrees, by dense sampling and bisection.
fn events_ref(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64) -> Option<Vec<(f64, usize)>> {
    let n = ((b - a) / step).ceil() as usize + 1;
    let mut out = vec![];
    let (mut t, mut e) = (a, f(a));
    let q = PI / 2.0;
    if adiff(e * 4.0, 0.0) / 4.0 < 1e-6 || adiff(f(b) * 4.0, 0.0) / 4.0 < 1e-6 { return None }
    for i in 1..=n {
        let t2 = a + (b - a) * i as f64 / n as f64;
        let e2 = e + wrap_pi(f(t2) - e);
        let (k, k2) = ((e / q).floor(), (e2 / q).floor());
        if k2 > k {
            let target = k2 * q;
            let (mut lo, mut hi) = (t, t2);
            for _ in 0..45 { let m = 0.5 * (lo + hi); if wrap_pi(f(m) - target) < 0.0 { lo = m } else { hi = m } }
            out.push((hi, (k2 as i64).rem_euclid(4) as usize));
        }
        t = t2; e = e2;
    }
    Some(out)
}
fn check_events(got: &[PhaseEvent], want: &[(f64, usize)]) -> Result<(), String> {
    let kinds = |k: PhaseKind| PhaseKind::ALL.iter().position(|x| *x == k).unwrap();
    let g: Vec<(f64, usize)> = got.iter().map(|e| (day(e.mjd), kinds(e.kind))).collect();
    ensure!(g.len() == want.len() && g.iter().zip(want).all(|(a, b)| a.1 == b.1 && (a.0 - b.0).abs() < 2e-7), "events {:?}\nthe elongation says {:?}", g, want);
    Ok(())
}
fn check_illum(f: &dyn Fn(f64) -> f64, a: f64, b: f64, step: f64, res: f64, k1: f64, k2: f64,
    find: &dyn Fn(u8, f64, f64) -> Vec<Interval<siderust::ModifiedJulianDate>>) -> Outcome {
    let c = Curve::of(f, a, b, step);
    let (Some(c1), Some(c2)) = (c.crossings(f, k1, 1e-6, res), c.crossings(f, k2, 1e-6, res)) else { return Ok("-grazing") };
    let ab = above(&c1, c.g[0] > k1, a, b);
    let ab2 = above(&c2, c.g[0] > k2, a, b);
    let tol = 1e-6;
    let (g1, g2, g3) = (ivs(&find(0, k1, k2)), ivs(&find(1, k1, k2)), ivs(&find(2, k1, k2)));
    ensure!(same(&g1, &ab, tol), "illumination above {}: {:?}, the curve says {:?}", k1, g1, ab);
    ensure!(same(&g2, &complement(&ab2, a, b), tol), "illumination below {}: {:?}, the curve says {:?}", k2, g2, complement(&ab2, a, b));
    let want = intersect(&ab, &complement(&ab2, a, b));
    if want.iter().all(|p| p.1 - p.0 > 1e-5) { ensure!(same(&g3, &want, tol), "illumination in {}..{}: {:?}, the curve says {:?}", k1, k2, g3, want); }
    count_oracle(c.t.len() as u64);
    Ok(if want.is_empty() { "empty range" } else { "periods" })
}
fn main() {
    let mut c = Check::new("C14", "sites, epochs and windows over 1950-2100 with the real ephemeris, and synthetic Sun/Moon motions with random rates, eccentricity, inclination and distances; a case is trivial when the illumination curve only grazes the threshold or an event falls on a window edge");
    c.assume("the Sun's geocentric ecliptic latitude (below 1.2 arcsec) may be taken as zero, as documented: tolerance 1e-5 rad with the real ephemeris");
    c.prop("geocentric synthetic", 20_000, || (scene(), -40.0f64..40.0), |(s, dt)| {
        SC.with(|x| x.set(*s));
        let jd = JulianDate::new(s.t0 + dt + 2_400_000.5);
        let t = jdm(jd);
        check_geo(&moon_phase_geocentric::<Synth>(jd), s.moon(t), s.sun(t), 0.0)?;
        Ok("synthetic")
    });
    c.prop("geocentric", 1_000, jd_wide, |jd| {
        let j = JulianDate::new(*jd);
        let e = Vsop87Ephemeris::earth_heliocentric(j); let m = Vsop87Ephemeris::moon_geocentric(j);
        let sun = [-e.x().value(), -e.y().value(), -e.z().value()];
        let moon = [m.x().value(), m.y().value(), m.z().value()];
        check_geo(&moon_phase_geocentric::<Vsop87Ephemeris>(j), moon, sun, 2e-3 * (sun[2] / norm(sun)).abs() + 1.5 * (sun[2] / norm(sun)).abs() + 1e-9)?;
        let g = siderust::bodies::solar_system::Moon::phase_geocentric(j);
        ensure!(g.elongation == moon_phase_geocentric::<Vsop87Ephemeris>(j).elongation, "Moon::phase_geocentric differs");
        Ok("real")
    });
    c.prop("topocentric", 400, || (jd_modern(), lon_deg(), lat_deg(), -400.0f64..8000.0), |(jd, lon, lat, h)| {
        let j = JulianDate::new(*jd);
        let site = Geodetic::<ECEF>::new(Degrees::new(*lon), Degrees::new(*lat), Meters::new(*h));
        let g = moon_phase_topocentric::<Vsop87Ephemeris>(j, site);
        let e = Vsop87Ephemeris::earth_heliocentric(j); let m = Vsop87Ephemeris::moon_geocentric(j);
        let eps = obl06(J2000);
        let rx = |v: V3| mv(&r1(-eps), v);
        let sun = scale(rx([-e.x().value(), -e.y().value(), -e.z().value()]), KM_AU);
        let moon = rx([m.x().value(), m.y().value(), m.z().value()]);
        let _ = TestEop.eop_at(j);
        vharness::frames::set_eop([0.0; 5]);
        let ctx: Ctx = AstroContext::with_types();
        let (good, bad) = site_rotations(j, &ctx);
        let w = scale(wgs84_ecef(lon.to_radians(), lat.to_radians(), *h), 1e-3);
        // Which Earth rotation the library uses is C09's known finding: either is accepted here.
        let mut why = String::new();
        for r in [good, bad] {
            let s = mv(&r, w);
            let (mo, su) = (sub(moon, s), sub(sun, s));
            let psi = angle(mo, su);
            // Phase angle from the topocentric elongation in the triangle of geocentric distances, as documented.
            let (rm, rs) = (norm(moon), norm(sun));
            let i = (rs * psi.sin()).atan2(rm - rs * psi.cos());
            let i = PI - (PI - i).abs();
            let k = (1.0 + i.cos()) / 2.0;
            // East or west of the Sun: right ascension of date; judged only when clear.
            let dra = wrap_pi(mo[1].atan2(mo[0]) - su[1].atan2(su[0]));
            let el = if dra > 0.0 { psi } else { TAU - psi };
            let clear = dra.abs() > 0.02 && PI - dra.abs() > 0.02;
            let ok = (g.illuminated_fraction.value() - k).abs() < 2.5e-4 && (g.phase_angle.value() - i).abs() < 3e-4
                && if clear { adiff(g.elongation.value(), el) < 3e-4 && g.waxing == (dra > 0.0) } else { (PI - (PI - g.elongation.value()).abs() - psi).abs() < 3e-4 };
            if ok { return Ok(if clear { "topocentric" } else { "near conjunction or opposition" }) }
            why += &format!("expected elongation {el} phase angle {i} fraction {k}; ");
        }
        Err(format!("{:?}: {}", g, why))
    });
    c.prop("labels", 40_000, || (any_deg(), prop_oneof![Just(22.5), 0.5f64..44.5]), |(e, hw)| {
        let Some(want) = label_ref(*e, *hw) else { return Ok("-boundary") };
        let got = MoonPhaseLabel::from_elongation(Degrees::new(*e), &PhaseThresholds { half_width: Degrees::new(*hw) });
        ensure!(got == want, "elongation {} half width {}: {:?} expected {:?}", e, hw, got, want);
        let c: Degrees = got.into();
        ensure!(MoonPhaseLabel::from_elongation(c, &PhaseThresholds::default()) == got, "representative elongation {} of {:?}", c.value(), got);
        let (w, n) = (got.is_waxing(), got.is_waning());
        let cv = c.value();
        ensure!(w == (cv > 1.0 && cv < 179.0) && n == (cv > 181.0), "{:?} waxing {} waning {}", got, w, n);
        Ok("label")
    });
    c.prop("events synthetic", 1_200, || (scene(), 0.3f64..120.0, prop_oneof![Just(0.5), 0.05f64..1.5], any::<bool>()), |(s, len, step, round)| {
        SC.with(|x| x.set(*s));
        let a = s.t0 - 20.0 + if *round { 0.0 } else { 0.123 };
        let b = a + if *round { len.ceil() } else { *len };
        let f = |t: f64| { let m = s.moon(t); m[1].atan2(m[0]) - (s.sl + s.sr * (t - s.t0)) };
        let Some(want) = events_ref(&f, a, b, 0.2) else { return Ok("-event on a window edge") };
        let opts = PhaseSearchOpts { scan_step: Days::new(*step), ..Default::default() };
        let got = find_phase_events::<Synth>(Interval::new(mjd(a), mjd(b)), opts);
        check_events(&got, &want)?;
        Ok(if want.is_empty() { "no event" } else { "events" })
    });
    c.prop("events", 32, || (40_000f64..80_000.0, prop_oneof![3 => 0.5f64..90.0, 1 => 90.0f64..400.0], prop_oneof![2 => Just(0.5), 1 => 0.1f64..2.0]), |(a, len, step)| {
        let b = a + len;
        let f = |t: f64| {
            let j = JulianDate::new(t + 2_400_000.5);
            let e = Vsop87Ephemeris::earth_heliocentric(j); let m = Vsop87Ephemeris::moon_geocentric(j);
            m.y().value().atan2(m.x().value()) - (-e.y().value()).atan2(-e.x().value())
        };
        let Some(want) = events_ref(&f, *a, b, 1.0) else { return Ok("-event on a window edge") };
        let opts = PhaseSearchOpts { scan_step: Days::new(*step), ..Default::default() };
        let got = find_phase_events::<Vsop87Ephemeris>(Interval::new(mjd(*a), mjd(b)), opts);
        check_events(&got, &want)?;
        for e in &got {
            let g = moon_phase_geocentric::<Vsop87Ephemeris>(e.mjd.to::<siderust::JD>());
            let t = match e.kind { PhaseKind::NewMoon => 0.0, PhaseKind::FirstQuarter => 90.0, PhaseKind::FullMoon => 180.0, PhaseKind::LastQuarter => 270.0 };
            ensure!(adiff_deg(g.elongation.value().to_degrees(), t) < 1e-5, "at {:?} the elongation is {}", e, g.elongation.value().to_degrees());
        }
        Ok(if want.is_empty() { "no event" } else { "events" })
    });
    let ks = || prop_oneof![4 => 0.02f64..0.98, 1 => Just(0.5), 1 => 0.98f64..1.0, 1 => 0.0f64..0.02];
    c.prop("illumination synthetic", 500, move || (scene(), 1.0f64..90.0, ks(), ks(), prop_oneof![Just(0.5), 0.1f64..1.0]), |(s, len, k1, k2, step)| {
        SC.with(|x| x.set(*s));
        let (k1, k2) = (k1.min(*k2), k1.max(*k2));
        let (a, b) = (s.t0 - 20.0, s.t0 - 20.0 + len);
        let f = |t: f64| geometry(s.moon(t), s.sun(t)).1;
        let o = PhaseSearchOpts { scan_step: Days::new(*step), ..Default::default() };
        let w = Interval::new(mjd(a), mjd(b));
        let q = IlluminationFractions::new;
        check_illum(&f, a, b, 0.1, *step, k1, k2, &|i, x, y| match i { 0 => illumination_above::<Synth>(w, q(x), o), 1 => illumination_below::<Synth>(w, q(y), o), _ => illumination_range::<Synth>(w, q(x), q(y), o) })
    });
    c.prop("illumination", 40, move || (40_000f64..80_000.0, 1.0f64..70.0, ks(), ks()), |(a, len, k1, k2)| {
        let (k1, k2) = (k1.min(*k2), k1.max(*k2));
        let b = a + len;
        let f = |t: f64| moon_phase_geocentric::<Vsop87Ephemeris>(mjd(t).to::<siderust::JD>()).illuminated_fraction.value();
        let o = PhaseSearchOpts::default();
        let w = Interval::new(mjd(*a), mjd(b));
        let q = IlluminationFractions::new;
        use siderust::bodies::solar_system::Moon;
        check_illum(&f, *a, b, 0.25, 0.5, k1, k2, &|i, x, y| match i { 0 => Moon::illumination_above(w, q(x), o), 1 => Moon::illumination_below(w, q(y), o), _ => Moon::illumination_range(w, q(x), q(y), o) })
    });
    c.prop("series", 300, || (scene(), 0.0f64..30.0, 0.05f64..3.0, any::<bool>()), |(s, len, step, topo)| {
        SC.with(|x| x.set(*s));
        let (a, b) = (s.t0, s.t0 + len);
        let site = Geodetic::<ECEF>::new(Degrees::new(10.0), Degrees::new(40.0), Meters::new(0.0));
        if *topo && *len > 3.0 { return Ok("-long topocentric series") }
        let v = if *topo { MoonPhaseSeries::<Synth>::sample_topocentric(mjd(a), mjd(b), Days::new(*step), site) } else { MoonPhaseSeries::<Synth>::sample(mjd(a), mjd(b), Days::new(*step)) };
        let n = len / step;
        if (n - n.round()).abs() > 1e-6 { ensure!(v.len() == n.floor() as usize + 1, "{} samples for {} steps", v.len(), n); }
        for (i, (t, g)) in v.iter().enumerate() {
            ensure!((day(*t) - (a + i as f64 * step)).abs() < 1e-7, "sample {} at {}", i, day(*t));
            let r = if *topo { moon_phase_topocentric::<Synth>(t.to::<siderust::JD>(), site) } else { moon_phase_geocentric::<Synth>(t.to::<siderust::JD>()) };
            ensure!(r.elongation == g.elongation && r.phase_angle == g.phase_angle, "sample {} differs from the direct evaluation", i);
        }
        Ok("series")
    });
    c.finish()
}
