//! C13: azimuth events.
use proptest::prelude::*;
use siderust::bodies::solar_system::{Jupiter, Mars, Mercury, Moon, Neptune, Saturn, Sun, Uranus, Venus};
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::astro::apparent::CorrectionPolicy;
use siderust::bodies::Star;
use siderust::coordinates::spherical::{self, direction};
use siderust::targets::CoordinateWithPM;
use siderust::event::altitude::{CrossingDirection, SearchOpts};
use siderust::event::azimuth::{azimuth_crossings, azimuth_extrema, azimuth_periods, azimuth_ranges, in_azimuth_range, outside_azimuth_range, AzimuthExtremumKind, AzimuthProvider, AzimuthQuery};
use siderust::qtty::*;
use siderust::time::{Interval, ModifiedJulianDate};
use std::f64::consts::{PI, TAU};
use vharness::curve::*;
use vharness::refs::wrap_pi;
use vharness::*;

const MIN: f64 = 1.0 / 1440.0;

/// A user-defined target: a smooth unwrapped bearing, reported on [0, 2 pi).
#[derive(Debug, Clone)]
struct Wave { a0: f64, rate: f64, w: Vec<(f64, f64, f64)>, t0: f64, step: Option<f64> }
impl AzimuthProvider for Wave {
    fn azimuth_at(&self, _: &Geodetic<ECEF>, t: ModifiedJulianDate) -> Radians {
        let x = day(t) - self.t0;
        Radians::new((self.a0 + self.rate * x + self.w.iter().map(|(a, p, f)| a * (TAU * (x / p + f)).sin()).sum::<f64>()).rem_euclid(TAU))
    }
    fn azimuth_periods(&self, _: &AzimuthQuery) -> Vec<Interval<ModifiedJulianDate>> { vec![] }
    fn scan_step_hint(&self) -> Option<Days> { self.step.map(Days::new) }
}
/// Dispatch over the built-in targets (the search functions are generic, not object safe).
enum T { Sun, Moon, Mercury, Venus, Mars, Jupiter, Saturn, Uranus, Neptune, Star(direction::ICRS), Wave(Wave) }
macro_rules! on { ($t:expr, $b:ident => $e:expr) => { match $t { T::Sun => { let $b = &Sun; $e } T::Moon => { let $b = &Moon; $e } T::Mercury => { let $b = &Mercury; $e } T::Venus => { let $b = &Venus; $e } T::Mars => { let $b = &Mars; $e } T::Jupiter => { let $b = &Jupiter; $e } T::Saturn => { let $b = &Saturn; $e } T::Uranus => { let $b = &Uranus; $e } T::Neptune => { let $b = &Neptune; $e } T::Star($b) => $e, T::Wave($b) => $e } } }
fn target(k: u8, ra: f64, dec: f64) -> T {
    match k { 0 => T::Sun, 1 => T::Moon, 2 => T::Mercury, 3 => T::Venus, 4 => T::Mars, 5 => T::Jupiter, 6 => T::Saturn, 7 => T::Uranus, 8 => T::Neptune, _ => T::Star(direction::ICRS::new(Degrees::new(ra), Degrees::new(dec))) }
}
fn geo(s: (f64, f64, f64)) -> Geodetic<ECEF> { Geodetic::<ECEF>::new(Degrees::new(s.0), Degrees::new(s.1), Meters::new(s.2)) }

/// The bearing followed continuously over [a, b]; None when it moves too fast for the scan step.
fn follow(az: &dyn Fn(f64) -> f64, a: f64, b: f64, h: f64, step: f64) -> Option<Curve> {
    let n = (((b - a) / h).ceil() as usize).max(4);
    let t: Vec<f64> = (0..=n).map(|i| if i == n { b } else { a + (b - a) * i as f64 / n as f64 }).collect();
    let mut g: Vec<f64> = vec![az(t[0])];
    for x in &t[1..] {
        let l = *g.last().unwrap();
        let d = wrap_pi(az(*x) - l);
        if d.abs() > 0.5 { return None; }
        g.push(l + d);
    }
    let k = ((2.0 * step / ((b - a) / n as f64)).ceil() as usize).max(1);
    for i in 0..g.len() {
        let w = &g[i..(i + k + 1).min(g.len())];
        let (lo, hi) = w.iter().fold((f64::MAX, f64::MIN), |m, x| (m.0.min(*x), m.1.max(*x)));
        if hi - lo > 1.4 { return None; }
    }
    Some(Curve { t, g })
}
struct Q { a: f64, b: f64, bearing: f64, width: f64, step: f64, o: SearchOpts, ranges: bool }
fn check(t: &T, site: &Geodetic<ECEF>, q: &Q) -> Outcome {
    let Q { a, b, bearing, width, step, o, .. } = *q;
    let az = |x: f64| on!(t, p => p.azimuth_at(site, mjd(x)).value());
    let pad = 2.6 * step;
    let Some(c) = follow(&az, a - pad, b + pad, 3.0 * MIN, step) else { return Ok("-bearing moves faster than the scan resolves") };
    if c.g.iter().any(|x| !x.is_finite()) { return Err("azimuth is not finite".into()); }
    ensure!((0..20).all(|i| (0.0..TAU).contains(&az(a + (b - a) * i as f64 / 19.0))), "azimuth outside [0, 360)");
    let w = Interval::new(mjd(a), mjd(b));
    let slack = 1e-8 + o.time_tolerance.value() * 8.0;
    // Crossings of one bearing.
    let roots = |target: f64, graze: f64, res: f64| -> Option<Vec<(f64, bool)>> {
        let mut out = vec![];
        for i in 0..c.t.len() - 1 {
            let (p, n) = (wrap_pi(c.g[i] - target), wrap_pi(c.g[i + 1] - target));
            if p.abs() < 1.5 && n.abs() < 1.5 && (p < 0.0) != (n < 0.0) {
                let up = p < 0.0;
                let (mut lo, mut hi) = (c.t[i], c.t[i + 1]);
                for _ in 0..40 { let m = 0.5 * (lo + hi); if (wrap_pi(az(m) - target) < 0.0) == up { lo = m } else { hi = m } }
                out.push((hi, up));
            }
        }
        let ext = c.extrema();
        if ext.iter().any(|e| wrap_pi(e.0 - target).abs() < graze) { return None; }
        if out.windows(2).any(|v| v[1].0 - v[0].0 < res) || out.iter().any(|x| (x.0 - a).abs() < 1e-6 || (x.0 - b).abs() < 1e-6) { return None; }
        out.retain(|x| x.0 > a && x.0 < b);
        Some(out)
    };
    let res = step + 4.0 * MIN;
    let br = bearing * PI / 180.0;
    let Some(want) = roots(br, 1e-6, res) else { return Ok("-turns at the bearing") };
    let Some(anti) = roots(br + PI, 1e-6, res) else { return Ok("-turns at the opposite bearing") };
    // The search works on sin(az - bearing): both families must be resolved by the scan.
    let mut both: Vec<f64> = want.iter().chain(&anti).map(|x| x.0).collect(); both.sort_by(f64::total_cmp);
    if both.windows(2).any(|v| v[1] - v[0] < res) { return Ok("-bearing and its opposite within one scan step"); }
    let got = on!(t, p => azimuth_crossings(p, site, w, Degrees::new(bearing), o));
    let show: Vec<_> = got.iter().map(|g| (day(g.mjd), g.direction == CrossingDirection::Rising)).collect();
    ensure!(got.len() == want.len(), "{} crossings of {} deg reported, the bearing has {} ({:?} vs {:?})", got.len(), bearing, want.len(), show, want);
    for (g, x) in show.iter().zip(&want) {
        ensure!((g.0 - x.0).abs() < slack, "crossing at {:.9}, the bearing is reached at {:.9}", g.0, x.0);
        ensure!(g.1 == x.1, "crossing at {:.6} has the wrong direction", x.0);
    }
    // Extrema.
    let all = c.extrema();
    let e: Vec<f64> = all.iter().map(|x| x.1).collect();
    let near = |x: f64| e.iter().any(|t| (t - x).abs() < 2.5 * step);
    let mut lv: Vec<f64> = vec![c.g[0]]; lv.extend(all.iter().map(|x| x.0)); lv.push(c.g[c.g.len() - 1]);
    if !near(a) && !near(b) && !e.windows(2).any(|v| v[1] - v[0] < 2.5 * step) && !lv.windows(2).any(|v| (v[1] - v[0]).abs() < 1e-3) {
        let want: Vec<_> = all.iter().filter(|x| x.1 > a && x.1 < b).collect();
        let got = on!(t, p => azimuth_extrema(p, site, w, o));
        ensure!(got.len() == want.len(), "{} extrema reported, the bearing has {}: {:?} vs {:?}", got.len(), want.len(), got.iter().map(|g| (day(g.mjd), g.azimuth.value(), g.kind)).collect::<Vec<_>>(), want);
        for (g, x) in got.iter().zip(&want) {
            ensure!((g.kind == AzimuthExtremumKind::Max) == x.2, "extremum at {} has the wrong kind", day(g.mjd));
            ensure!((day(g.mjd) - x.1).abs() < 3.0 * MIN + slack, "extremum at {}, the bearing turns at {}", day(g.mjd), x.1);
            let v = az(day(g.mjd));
            ensure!((0.0..360.0).contains(&g.azimuth.value()) && wrap_pi(g.azimuth.value() * PI / 180.0 - v).abs() < 1e-11, "bearing {} deg at the extremum is {} rad", g.azimuth.value(), v);
            let s = if x.2 { 1.0 } else { -1.0 };
            for d in [3.0 * MIN, MIN, 0.3 * MIN] { for d in [d, -d] {
                ensure!(s * wrap_pi(az(day(g.mjd) + d) - v) < slack * 200.0 * d.abs() + 1e-10, "not an extremum at {}: {} rad further at {:+e} d", day(g.mjd), wrap_pi(az(day(g.mjd) + d) - v), d);
            } }
        }
    }
    // Ranges [bearing, bearing + width], wrapping through north.
    if q.ranges {
        let hi = (bearing + width).rem_euclid(360.0);
        if let (Some(lo_r), Some(hi_r)) = (roots(br, 1e-6, res), roots(hi * PI / 180.0, 1e-6, res)) {
            let mut ev: Vec<f64> = lo_r.iter().chain(&hi_r).map(|x| x.0).collect(); ev.sort_by(f64::total_cmp);
            if ev.windows(2).all(|v| v[1] - v[0] > res) {
                let inside = |x: f64| (az(x) - br).rem_euclid(TAU) <= width * PI / 180.0;
                let mut cut = vec![a]; cut.extend(&ev); cut.push(b);
                let (mut i_w, mut o_w): (Vec<(f64, f64)>, Vec<(f64, f64)>) = (vec![], vec![]);
                for v in cut.windows(2) {
                    let dst = if inside(0.5 * (v[0] + v[1])) { &mut i_w } else { &mut o_w };
                    match dst.last_mut() { Some(l) if l.1 == v[0] => l.1 = v[1], _ => dst.push((v[0], v[1])) }
                }
                let (mi, ma) = (Degrees::new(bearing), Degrees::new(hi));
                let gi = ivs(&on!(t, p => azimuth_ranges(p, site, w, mi, ma, o)));
                let g2 = ivs(&on!(t, p => in_azimuth_range(p, site, w, mi, ma, o)));
                let go = ivs(&on!(t, p => outside_azimuth_range(p, site, w, mi, ma, o)));
                let tol = slack * 4.0;
                ensure!(same(&gi, &i_w, tol), "inside [{}, {}]: {:?}, the bearing says {:?}", bearing, hi, gi, i_w);
                ensure!(gi == g2, "in_azimuth_range and azimuth_ranges disagree: {:?} {:?}", g2, gi);
                ensure!(same(&go, &o_w, tol), "outside [{}, {}]: {:?}, the bearing says {:?}", bearing, hi, go, o_w);
                ensure!((gi.iter().chain(&go).map(|p| p.1 - p.0).sum::<f64>() - (b - a)).abs() < 1e-9, "inside and outside do not partition the window");
                ensure!(gi.iter().chain(&go).all(|p| p.0 >= a && p.1 <= b && p.0 < p.1), "a period leaves the window");
            }
        }
    }
    count_oracle(c.t.len() as u64);
    Ok(if want.is_empty() { "no crossing" } else { "crossings" })
}

fn start() -> BoxedStrategy<f64> { prop_oneof![8 => 44_239.0f64..69_800.0, 2 => (44_239i64..69_800).prop_map(|d| d as f64)].boxed() }
fn length() -> BoxedStrategy<f64> { prop_oneof![6 => 0.3f64..2.5, 2 => 0.05f64..0.3, 2 => (1i32..4).prop_map(|d| d as f64)].boxed() }
fn bearing() -> BoxedStrategy<f64> { prop_oneof![6 => 0.0f64..360.0, 3 => (0i32..8).prop_map(|k| k as f64 * 45.0), 1 => -0.5f64..0.5].prop_map(|b: f64| b.rem_euclid(360.0)).boxed() }
fn width() -> BoxedStrategy<f64> { prop_oneof![6 => 5.0f64..355.0, 2 => (1i32..8).prop_map(|k| k as f64 * 45.0)].boxed() }
fn opts() -> BoxedStrategy<SearchOpts> { prop_oneof![3 => Just(1e-9), 1 => (-8.0f64..-6.0).prop_map(|e| 10f64.powf(e))].prop_map(|t| SearchOpts { time_tolerance: Days::new(t) }).boxed() }
fn wave() -> BoxedStrategy<Wave> {
    (0.0f64..TAU, prop_oneof![Just(0.0), -7.0f64..7.0], proptest::collection::vec((0.05f64..1.5, 0.5f64..3.0, 0.0f64..1.0), 0..3), start(), prop_oneof![Just(None), (3.0f64..40.0).prop_map(|m| Some(m * MIN))])
        .prop_map(|(a0, rate, w, t0, step)| Wave { a0, rate, w, t0, step }).boxed()
}
#[derive(Debug, Clone)]
struct B { k: u8, ra: f64, dec: f64, site: (f64, f64, f64), t: f64, len: f64, bearing: f64, width: f64, o: SearchOpts }
fn bodies(ks: &'static [u8]) -> BoxedStrategy<B> {
    (proptest::sample::select(ks), (0.0f64..360.0, -90.0f64..90.0), (gen::lon_deg(), prop_oneof![3 => gen::lat_deg(), 2 => 35.0f64..80.0, 2 => -80.0f64..-35.0], 0.0f64..4000.0), start(), length(), bearing(), width(), opts())
        .prop_map(|(k, (ra, dec), site, t, len, bearing, width, o)| B { k, ra, dec, site, t, len, bearing, width, o }).boxed()
}
fn check_body(b: &B) -> Outcome {
    let t = target(b.k, b.ra, b.dec);
    let step = if b.k <= 8 { 120.0 * MIN } else { 20.0 * MIN };
    check(&t, &geo(b.site), &Q { a: b.t, b: b.t + b.len, bearing: b.bearing, width: b.width, step, o: b.o, ranges: true })
}

fn main() {
    let mut c = Check::new("C13", "random target (Sun, Moon, planets, stars, user-defined bearings), site, window, bearing, range width and tolerance; a dense scan of azimuth_at with bisection on the circle is the oracle; non-trivial when the bearing moves slowly enough for the scan step and does not turn at the bearing sought");
    c.prop("user_defined_bearing", 4000, || (wave(), length(), bearing(), -0.2f64..0.6, opts()), |(w, len, br, off, o)| {
        let a = w.t0 + off;
        let step = w.step.unwrap_or(20.0 * MIN).max(4.0 * MIN);
        check(&T::Wave(w.clone()), &geo((0.0, 40.0, 0.0)), &Q { a, b: a + len, bearing: *br, width: 0.0, step, o: *o, ranges: false })
    });
    c.prop("sun_moon_planets", 160, || bodies(&[0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]), check_body);
    c.prop("stars", 300, || bodies(&[9]), check_body);
    c.prop("ways_of_asking", 200, || (bodies(&[0, 1, 3, 9, 9, 9, 9]), 0.001f64..3000.0, 0u8..4), |(b, ly, pol)| {
        let (g, o) = (geo(b.site), b.o);
        let w = Interval::new(mjd(b.t), mjd(b.t + b.len.min(1.0)));
        let (mi, ma) = (Degrees::new(b.bearing), Degrees::new((b.bearing + b.width).rem_euclid(360.0)));
        let policy = [CorrectionPolicy::APPARENT, CorrectionPolicy::GEOMETRIC, CorrectionPolicy::GEOMETRIC, CorrectionPolicy::ABERRATION][*pol as usize];
        let q = |policy, window| AzimuthQuery { observer: g, window, min_azimuth: mi, max_azimuth: ma, opts: o, correction_policy: policy };
        let t = target(b.k, b.ra, b.dec);
        let p = on!(&t, p => ivs(&p.azimuth_periods(&q(policy, w))));
        ensure!(p == on!(&t, p => ivs(&azimuth_periods(p, &q(policy, w)))), "function and method disagree");
        ensure!(on!(&t, p => p.azimuth_periods(&q(policy, Interval::new(w.start, w.start)))).is_empty(), "periods in an empty window");
        // A period is where the azimuth under the query's policy is in the range.
        let (width, lo) = (b.width * PI / 180.0, b.bearing * PI / 180.0);
        for i in 0..60 {
            let x = b.t + b.len.min(1.0) * (i as f64 + 0.5) / 60.0;
            let az = on!(&t, p => p.azimuth_at_with_policy(&g, mjd(x), policy)).value();
            if policy == CorrectionPolicy::APPARENT { ensure!(on!(&t, p => p.azimuth_at(&g, mjd(x))).value() == az, "the apparent azimuth is not the azimuth") }
            let d = (az - lo).rem_euclid(TAU);
            if p.iter().any(|v| (v.0 - x).abs() < 1e-5 || (v.1 - x).abs() < 1e-5) { continue }
            let inside = p.iter().any(|v| v.0 < x && x < v.1);
            // Visits shorter than the scan step may be missed.
            let near = |e: f64| wrap_pi(az - e).abs() < 0.6;
            if inside != (d < width) && !near(lo) && !near(lo + width) { return Err(format!("azimuth {} at {x} is {} [{}, {}] under {policy:?}, periods {p:?}", az.to_degrees(), if d < width { "inside" } else { "outside" }, b.bearing, ma.value())) }
        }
        for v in p.iter().flat_map(|v| [v.0, v.1]).filter(|x| *x > b.t && *x < b.t + b.len.min(1.0)) {
            let f = |x: f64| on!(&t, p => p.azimuth_at_with_policy(&g, mjd(x), policy)).value();
            let (az, rate) = (f(v), wrap_pi(f(v + 1e-5) - f(v - 1e-5)).abs() / 2e-5);
            ensure!(wrap_pi(az - lo).abs().min(wrap_pi(az - lo - width).abs()) < 1e-6 + rate * (1e-8 + 8.0 * o.time_tolerance.value()), "a period ends at {v}, azimuth {} under {policy:?}, range [{}, {}]", az.to_degrees(), b.bearing, ma.value());
        }
        let (ins, out) = on!(&t, p => (ivs(&p.in_azimuth_range(g, w, mi, ma, o)), ivs(&p.outside_azimuth_range(g, w, mi, ma, o))));
        ensure!(ins == on!(&t, p => ivs(&azimuth_ranges(p, &g, w, mi, ma, o))), "in_azimuth_range and azimuth_ranges disagree");
        ensure!(out == on!(&t, p => ivs(&outside_azimuth_range(p, &g, w, mi, ma, o))), "the two outside_azimuth_range disagree");
        ensure!((ins.iter().chain(&out).map(|v| v.1 - v.0).sum::<f64>() - b.len.min(1.0)).abs() < 1e-9, "inside {ins:?} and outside {out:?} do not partition the window");
        if let T::Star(dir) = &t {
            let at = spherical::position::EquatorialMeanJ2000::<LightYear>::new(Degrees::new(b.ra), Degrees::new(b.dec), *ly);
            let star = Star::new("s", LightYears::new(*ly), SolarMasses::new(1.0), Quantity::new(1.0), SolarLuminosities::new(1.0), CoordinateWithPM::new_raw(at, siderust::J2000, None));
            ensure!(ivs(&star.azimuth_periods(&q(policy, w))) == p, "a star and its direction differ");
            ensure!(star.azimuth_at_with_policy(&g, w.start, policy).value() == dir.azimuth_at_with_policy(&g, w.start, policy).value() && star.azimuth_at(&g, w.start).value() == dir.azimuth_at(&g, w.start).value(), "a star and its direction differ in azimuth under {policy:?}");
            let br = Degrees::new(b.bearing);
            ensure!(format!("{:?}", azimuth_crossings(&star, &g, w, br, o)) == format!("{:?}", azimuth_crossings(dir, &g, w, br, o)), "a star and its direction differ in crossings");
            return Ok("star")
        }
        Ok("body")
    });
    c.finish();
}
