//! C12: altitude events.
use proptest::prelude::*;
use siderust::bodies::solar_system::{Jupiter, Mars, Mercury, Moon, Neptune, Saturn, Sun, Uranus, Venus};
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::astro::apparent::CorrectionPolicy;
use siderust::bodies::Star;
use siderust::coordinates::spherical::{self, direction};
use siderust::targets::CoordinateWithPM;
use siderust::event::altitude::{above_threshold, altitude_ranges, below_threshold, crossings, culminations, AltitudeEventsExt, AltitudeProvider, CrossingDirection, CrossingEvent, CulminationEvent, CulminationKind, SearchOpts};
use siderust::qtty::*;
use siderust::time::{Interval, ModifiedJulianDate};
use std::f64::consts::{PI, TAU};
use vharness::curve::*;
use vharness::*;

const MIN: f64 = 1.0 / 1440.0;

/// A user-defined target with a smooth altitude curve.
#[derive(Debug, Clone)]
struct Wave { a0: f64, w: Vec<(f64, f64, f64)>, t0: f64, step: Option<f64> }
impl Wave {
    fn alt(&self, t: f64) -> f64 { self.a0 + self.w.iter().map(|(a, p, f)| a * (TAU * ((t - self.t0) / p + f)).sin()).sum::<f64>() }
}
impl AltitudeProvider for Wave {
    fn altitude_at(&self, _: &Geodetic<ECEF>, t: ModifiedJulianDate) -> Radians { Radians::new(self.alt(day(t))) }
    fn scan_step_hint(&self) -> Option<Days> { self.step.map(Days::new) }
}

fn body(k: u8, ra: f64, dec: f64) -> Box<dyn AltitudeProvider> {
    match k {
        0 | 1 => Box::new(Sun),
        2 | 3 => Box::new(Moon),
        4 => Box::new(Mercury), 5 => Box::new(Venus), 6 => Box::new(Mars), 7 => Box::new(Jupiter), 8 => Box::new(Saturn), 9 => Box::new(Uranus), 10 => Box::new(Neptune),
        _ => Box::new(direction::ICRS::new(Degrees::new(ra), Degrees::new(dec))),
    }
}
/// `res`: the target's documented scan step; `acc`: how far the engine's own curve may be from `altitude_at` (rad).
#[allow(clippy::too_many_arguments)]
fn events(t: &dyn AltitudeProvider, site: &Geodetic<ECEF>, a: f64, b: f64, thr: f64, thr2: f64, step: f64, res: f64, acc: f64, opts: SearchOpts) -> Outcome {
    let f = |x: f64| t.altitude_at(site, mjd(x)).value().sin();
    let w = Interval::new(mjd(a), mjd(b));
    let c = Curve::of(&f, a, b, step);
    let slack = opts.time_tolerance.value() * 8.0 + 1e-9;
    let graze = 2.0 * acc.max(1e-9) + slack * 10.0;
    let s1 = (thr * PI / 180.0).sin();
    let Some(want) = c.crossings(&f, s1, graze, res) else { return Ok("-tangent to the threshold") };
    let tol = |x: f64| { let d = (f(x + 1e-4) - f(x - 1e-4)).abs() / 2e-4; slack + acc / d.max(1e-9) };
    let got = crossings(t, site, w, Degrees::new(thr), opts);
    ensure!(got.len() == want.len(), "{} crossings of {} deg reported, the curve has {} ({:?} vs {:?})", got.len(), thr, want.len(), got.iter().map(|g| (day(g.mjd), g.direction == CrossingDirection::Rising)).collect::<Vec<_>>(), want);
    let mut tmax: f64 = slack;
    for (g, w) in got.iter().zip(&want) {
        let tl = tol(w.0); tmax = tmax.max(tl);
        ensure!((day(g.mjd) - w.0).abs() < tl, "crossing at {:.9}, the curve crosses at {:.9} (tolerance {:.1e})", day(g.mjd), w.0, tl);
        ensure!((g.direction == CrossingDirection::Rising) == w.1, "crossing at {:.6} has the wrong direction", w.0);
    }
    let ab = above(&want, c.g[0] > s1, a, b);
    let ga = ivs(&above_threshold(t, site, w, Degrees::new(thr), opts));
    let gb = ivs(&below_threshold(t, site, w, Degrees::new(thr), opts));
    ensure!(same(&ga, &ab, tmax), "above {} deg: {:?}, the curve says {:?}", thr, ga, ab);
    ensure!(same(&gb, &complement(&ab, a, b), tmax), "below {} deg: {:?}, the curve says {:?}", thr, gb, complement(&ab, a, b));
    ensure!(ga.iter().chain(&gb).all(|p| p.0 >= a && p.1 <= b && p.0 < p.1), "a period leaves the window: {:?} {:?}", ga, gb);
    ensure!((ga.iter().chain(&gb).map(|p| p.1 - p.0).sum::<f64>() - (b - a)).abs() < 1e-9, "above and below periods do not partition the window");
    // Range between two thresholds.
    let s2 = (thr2 * PI / 180.0).sin();
    if let (true, Some(w2)) = (thr2 > thr, c.crossings(&f, s2, graze, res)) {
        let want2 = intersect(&ab, &complement(&above(&w2, c.g[0] > s2, a, b), a, b));
        let t2 = w2.iter().fold(tmax, |m, x| m.max(tol(x.0)));
        if want2.iter().all(|p| p.1 - p.0 > 4.0 * t2) {
            let gr = ivs(&altitude_ranges(t, site, w, Degrees::new(thr), Degrees::new(thr2), opts));
            ensure!(same(&gr, &want2, t2), "between {} and {} deg: {:?}, the curve says {:?}", thr, thr2, gr, want2);
        }
    }
    count_oracle(c.t.len() as u64);
    Ok(match want.len() { 0 => "no crossing", 1 => "one crossing", 2 => "two crossings", _ => "many crossings" })
}
fn culm(t: &dyn AltitudeProvider, site: &Geodetic<ECEF>, a: f64, b: f64, step: f64, res: f64, prom: f64, opts: SearchOpts) -> Outcome {
    let f = |x: f64| t.altitude_at(site, mjd(x)).value();
    // The curve is followed beyond the window, so that extrema at its very ends are recognised.
    let pad = 3.0 * res;
    let c = Curve::of(&f, a - pad, b + pad, step);
    let all = c.extrema();
    let (n, slack) = (c.t.len() - 1, opts.time_tolerance.value() * 4.0);
    // Extrema too flat, too close together or too close to an end to be called are left out.
    let mut e: Vec<(f64, f64)> = vec![(a - pad, c.g[0])]; e.extend(all.iter().map(|x| (x.1, x.0))); e.push((b + pad, c.g[n]));
    if all.iter().any(|x| (x.1 - a).abs() < 2.5 * res || (x.1 - b).abs() < 2.5 * res) || e.windows(2).enumerate().any(|(i, w)| (i > 0 && i + 2 < e.len() && w[1].0 - w[0].0 < 2.5 * res) || (w[1].1 - w[0].1).abs() < prom) { return Ok("-flat or near the window edge"); }
    let want: Vec<_> = all.into_iter().filter(|x| x.1 > a && x.1 < b).collect();
    let got = culminations(t, site, Interval::new(mjd(a), mjd(b)), opts);
    ensure!(got.len() == want.len(), "{} culminations reported, the curve has {}: {:?} vs {:?}", got.len(), want.len(), got.iter().map(|g| (day(g.mjd), g.altitude.value(), g.kind)).collect::<Vec<_>>(), want);
    for (g, w) in got.iter().zip(&want) {
        ensure!((g.kind == CulminationKind::Max) == w.2, "culmination at {} has the wrong kind", day(g.mjd));
        ensure!((day(g.mjd) - w.1).abs() < step + slack, "culmination at {}, the curve turns at {}", day(g.mjd), w.1);
        let v = f(day(g.mjd));
        ensure!(close(g.altitude.value() * PI / 180.0, v, 1e-12, 1e-12), "altitude {} at the culmination is {} rad", g.altitude.value(), v);
        // No better value nearby than one explained by the time tolerance.
        let s = if w.2 { 1.0 } else { -1.0 };
        for d in [3.0 * MIN, 1.0 * MIN, 0.3 * MIN] { for d in [d, -d] {
            ensure!(s * (f(day(g.mjd) + d) - v) < slack * 200.0 * d.abs().max(1e-6) + 2e-11, "not an extremum at {}: {} then {} at {:+e} d", day(g.mjd), v, f(day(g.mjd) + d), d);
        } }
    }
    count_oracle(c.t.len() as u64);
    Ok(if want.is_empty() { "no culmination" } else { "culminations" })
}

fn site() -> BoxedStrategy<(f64, f64, f64)> { (gen::lon_deg(), gen::lat_deg(), prop_oneof![Just(0.0), 0.0f64..5000.0]).boxed() }
fn geo(s: (f64, f64, f64)) -> Geodetic<ECEF> { Geodetic::<ECEF>::new(Degrees::new(s.0), Degrees::new(s.1), Meters::new(s.2)) }
fn start() -> BoxedStrategy<f64> { prop_oneof![8 => 44_239.0f64..69_800.0, 1 => (44_239i64..69_800).prop_map(|d| d as f64), 1 => (44_239i64..69_800).prop_map(|d| d as f64 + 0.5)].boxed() }
fn length() -> BoxedStrategy<f64> { prop_oneof![6 => 0.3f64..2.5, 2 => 0.02f64..0.3, 1 => (1i32..4).prop_map(|d| d as f64), 1 => 2.5f64..7.0].boxed() }
fn threshold() -> BoxedStrategy<f64> { prop_oneof![4 => -25.0f64..25.0, 3 => prop_oneof![Just(0.0), Just(-0.833), Just(-6.0), Just(-12.0), Just(-18.0), Just(30.0)], 3 => -85.0f64..85.0].boxed() }
fn opts() -> BoxedStrategy<SearchOpts> { prop_oneof![3 => Just(1e-9), 1 => (-8.0f64..-6.0).prop_map(|e| 10f64.powf(e))].prop_map(|t| SearchOpts { time_tolerance: Days::new(t) }).boxed() }
fn wave() -> BoxedStrategy<Wave> {
    (-0.6f64..0.6, proptest::collection::vec((0.02f64..0.4, 0.4f64..3.0, 0.0f64..1.0), 1..4), start(), prop_oneof![Just(None), (3.0f64..30.0).prop_map(|m| Some(m * MIN))])
        .prop_map(|(a0, mut w, t0, step)| {
            let s: f64 = w.iter().map(|x| x.0).sum();
            if s > 0.75 { for x in &mut w { x.0 *= 0.75 / s } }
            Wave { a0, w, t0, step }
        })
        .boxed()
}

#[derive(Debug, Clone)]
struct B { k: u8, ra: f64, dec: f64, site: (f64, f64, f64), t: f64, len: f64, thr: f64, thr2: f64, o: SearchOpts }
fn bodies(ks: &'static [u8]) -> BoxedStrategy<B> {
    (proptest::sample::select(ks), (0.0f64..360.0, -90.0f64..90.0), site(), start(), length(), threshold(), 0.5f64..40.0, opts())
        .prop_map(|(k, (ra, dec), site, t, len, thr, d, o)| B { k, ra, dec, site, t, len, thr, thr2: (thr + d).min(89.0), o })
        .boxed()
}
fn check_body(b: &B) -> Outcome {
    let t = body(b.k, b.ra, b.dec);
    let acc = if (2..=3).contains(&b.k) { 1e-5 } else { 1e-8 };
    // Sun, Moon and planets are searched with a two-hour step.
    let res = if b.k <= 10 { 122.0 } else { 12.0 };
    events(t.as_ref(), &geo(b.site), b.t, b.t + b.len, b.thr, b.thr2, 3.0 * MIN, res * MIN, acc, b.o)
}

fn main() {
    let mut c = Check::new("C12", "random target (Sun, Moon, planets, fixed stars, user-defined curves), site, window, threshold pair and tolerance; a dense scan of altitude_at with bisection is the oracle; non-trivial when no extremum or window edge is within the graze margin of the threshold");
    c.prop("user_defined_curve", 4000, || (wave(), length(), threshold(), 0.5f64..40.0, -0.2f64..0.6, opts()), |(w, len, thr, d, off, o)| {
        let a = w.t0 + off;
        let thr = if thr.abs() > 45.0 { thr / 4.0 } else { *thr };
        events(w, &geo((0.0, 40.0, 0.0)), a, a + len, thr, thr + d, 2.0 * MIN, w.step.unwrap_or(10.0 * MIN).max(2.0 * MIN) + 2.0 * MIN, 1e-9, *o)
    });
    c.prop("user_defined_culminations", 4000, || (wave(), length(), -0.2f64..0.6, opts()), |(w, len, off, o)| {
        let a = w.t0 + off;
        culm(w, &geo((0.0, 40.0, 0.0)), a, a + len, 2.0 * MIN, w.step.unwrap_or(20.0 * MIN), 1e-4, *o)
    });
    c.prop("sun", 100, || bodies(&[0]), check_body);
    c.prop("moon", 50, || bodies(&[2]), check_body);
    c.prop("planets", 60, || bodies(&[4, 5, 6, 7, 8, 9, 10]), check_body);
    c.prop("stars", 150, || bodies(&[11]), check_body);
    // Windows cut a little before or after an event.
    c.prop("windows_cut_at_an_event", 160, || (bodies(&[0, 0, 0, 2, 5, 11]), -4.0f64..1.2, 0u8..4, any::<prop::sample::Index>()), |(b, cut, how, pick)| {
        let (t, g) = (body(b.k, b.ra, b.dec), geo(b.site));
        let f = |x: f64| t.altitude_at(&g, mjd(x)).value().sin();
        let Some(e) = Curve::of(&f, b.t, b.t + 1.1, 6.0 * MIN).crossings(&f, (b.thr * PI / 180.0).sin(), 1e-6, 0.0) else { return Ok("-tangent to the threshold") };
        if e.is_empty() { return Ok("-no event") }
        let (x, u) = (e[pick.index(e.len())].0, 10f64.powf(*cut) * MIN);
        let (from, to) = match how { 0 => (x + u, x + u + b.len), 1 => (x - u, x - u + b.len), 2 => (x - u - b.len, x - u), _ => (x + u - b.len, x + u) };
        check_body(&B { t: from, len: to - from, ..b.clone() })
    });
    // The polar Sun skims a threshold for days: its declination decides.
    c.prop("polar_sun", 60, || (bodies(&[0]), -3.0f64..0.8, any::<bool>(), -0.6f64..0.6, 0.3f64..5.0), |(b, lat, south, d, len)| {
        let lat = (90.0 - 10f64.powf(*lat)) * if *south { -1.0 } else { 1.0 };
        let mut b = B { site: (b.site.0, lat, b.site.2), len: *len, ..b.clone() };
        b.thr = Sun.altitude_at(&geo(b.site), mjd(b.t + 0.5 * b.len)).value() * 180.0 / PI + d * if d.abs() > 0.4 { 12.0 } else { 1.0 };
        b.thr2 = (b.thr + 0.3).min(89.0);
        check_body(&b)
    });
    // A star just above or just below the threshold when it culminates.
    c.prop("brief_passages", 150, || (bodies(&[11]), 1.08f64..1.9, any::<bool>(), -0.05f64..1.05, 0.03f64..0.5), |(b, log, upper, pos, len)| {
        let (t, g) = (body(11, b.ra, b.dec), geo(b.site));
        let h = |x: f64| t.altitude_at(&g, mjd(x)).value();
        let Some(e) = Curve::of(&h, b.t, b.t + 1.0, 10.0 * MIN).extrema().into_iter().find(|e| e.2 == *upper) else { return Ok("-no culmination") };
        if e.0.abs() > 1.5 { return Ok("-near the zenith") }
        // Chosen by the time it stays beyond the threshold.
        let half = 0.5 * 10f64.powf(*log) * MIN;
        let thr = 0.5 * (h(e.1 + half) + h(e.1 - half)) * 180.0 / PI;
        let a = e.1 - pos * len;
        events(t.as_ref(), &g, a, a + len, thr, thr + 5.0, half / 20.0, 12.0 * MIN, 1e-9, b.o)
    });
    c.prop("brief_passages_of_a_curve", 3000, || (wave(), length(), 1.02f64..4.0, any::<prop::sample::Index>(), -0.05f64..1.05, opts()), |(w, len, k, pick, pos, o)| {
        let res = w.step.unwrap_or(10.0 * MIN).max(2.0 * MIN) + 2.0 * MIN;
        let e = Curve::of(&|x| w.alt(x), w.t0, w.t0 + 3.0, 4.0 * MIN).extrema();
        if e.is_empty() { return Ok("-monotonic") }
        let (x, half) = (e[pick.index(e.len())].1, 0.5 * k * res);
        let thr = 0.5 * (w.alt(x + half) + w.alt(x - half)) * 180.0 / PI;
        if thr.abs() > 80.0 { return Ok("-near the zenith") }
        events(w, &geo((0.0, 40.0, 0.0)), x - pos * len, x - pos * len + len, thr, thr + 4.0, 1.0 * MIN, res, 1e-9, *o)
    });
    c.prop("culminations", 80, || bodies(&[0, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]), |b| {
        let t = body(b.k, b.ra, b.dec);
        let res = t.scan_step_hint().map(|d| d.value()).unwrap_or(20.0 * MIN);
        culm(t.as_ref(), &geo(b.site), b.t, b.t + b.len, 3.0 * MIN, res, 1e-3, b.o)
    });
    c.prop("ways_of_asking", 120, || (bodies(&[0, 2, 5, 11, 11, 11]), 0.001f64..3000.0), |(b, ly)| {
        let (g, w, o) = (geo(b.site), Interval::new(mjd(b.t), mjd(b.t + b.len.min(1.0))), b.o);
        let (lo, hi) = (Degrees::new(b.thr), Degrees::new(b.thr2));
        // Everything a target answers, through methods and through functions.
        let ask = |t: &dyn AltitudeProvider| (AltitudeEventsExt::above_threshold(t, &g, w, lo, o), AltitudeEventsExt::below_threshold(t, &g, w, lo, o), AltitudeEventsExt::altitude_ranges(t, &g, w, lo, hi, o), AltitudeEventsExt::crossings(t, &g, w, lo, o), AltitudeEventsExt::culminations(t, &g, w, o));
        let show = |a: &(Vec<Interval<ModifiedJulianDate>>, Vec<Interval<ModifiedJulianDate>>, Vec<Interval<ModifiedJulianDate>>, Vec<CrossingEvent>, Vec<CulminationEvent>)| format!("{:?} {:?} {:?} {:?} {:?}", ivs(&a.0), ivs(&a.1), ivs(&a.2), a.3.iter().map(|c| (day(c.mjd), c.direction)).collect::<Vec<_>>(), a.4.iter().map(|c| (day(c.mjd), c.altitude.value(), c.kind)).collect::<Vec<_>>());
        let t = body(b.k, b.ra, b.dec); let t = t.as_ref();
        let m = show(&ask(t));
        let f = show(&(above_threshold(t, &g, w, lo, o), below_threshold(t, &g, w, lo, o), altitude_ranges(t, &g, w, lo, hi, o), crossings(t, &g, w, lo, o), culminations(t, &g, w, o)));
        ensure!(m == f, "methods say {m}, functions say {f}");
        ensure!(t.altitude_at_with_policy(&g, w.start, CorrectionPolicy::APPARENT).value() == t.altitude_at(&g, w.start).value(), "the apparent altitude is not the altitude");
        if b.k < 11 { return Ok("body") }
        // A catalogue star is searched like the direction it stands in.
        let p = spherical::position::EquatorialMeanJ2000::<LightYear>::new(Degrees::new(b.ra), Degrees::new(b.dec), *ly);
        let star = Star::new("s", LightYears::new(*ly), SolarMasses::new(1.0), Quantity::new(1.0), SolarLuminosities::new(1.0), CoordinateWithPM::new_raw(p, siderust::J2000, None));
        let s = show(&ask(&star));
        ensure!(s == m, "the star says {s}, its direction {m}");
        for q in [CorrectionPolicy::APPARENT, CorrectionPolicy::GEOMETRIC, CorrectionPolicy::ABERRATION] { ensure!(star.altitude_at_with_policy(&g, w.start, q).value() == t.altitude_at_with_policy(&g, w.start, q).value(), "the star's altitude under {q:?} is not its direction's") }
        Ok("star")
    });
    c.finish();
}
