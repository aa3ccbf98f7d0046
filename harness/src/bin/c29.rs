//! C29: runtime-loaded planetary ephemerides against the kernels they were loaded from.
use proptest::prelude::*;
use siderust::ephemeris::{DynEphemeris, RuntimeEphemeris};
use siderust::formats::spice::spk::parse_bsp;
use siderust::time::JulianDate;
use vharness::refs::{mv, mm, r1, pfw06, fw2m, M3, AS2R, J2000};
use vharness::spk::*;
use vharness::*;

const AU: f64 = 149_597_870.7;
const EMRAT: f64 = 81.300_569_074_190_62;
/// ICRF to the mean ecliptic of J2000 (IAU 2006).
fn icrf2ecl() -> M3 { let (g, p, s, e) = pfw06(J2000); mm(&r1(84381.406 * AS2R), &fw2m(g, p, s, e)) }
fn near(g: [f64; 3], w: &States, off: usize, unit: f64, m: &M3) -> bool {
    w.iter().any(|(s, t)| { let v = mv(m, [s[off], s[off + 1], s[off + 2]]); let size = (s[off].powi(2) + s[off + 1].powi(2) + s[off + 2].powi(2)).sqrt(); let tol = t[off] + t[off + 1] + t[off + 2] + 2e-12 * size + 1e-300; (0..3).all(|i| (g[i] * unit - v[i]).abs() <= tol) })
}
fn seg(target: i32, center: i32, lo: f64, hi: f64, mag: f64) -> impl Strategy<Value = Seg> {
    (0.0f64..0.45, 0.55f64..1.0, 0u8..5, 0.0f64..0.2, 0.0f64..0.2).prop_flat_map(move |(a, b, cut, ca, cb)| {
        let w = hi - lo;
        let (s, e) = if cut == 0 { ((lo + a * w).round(), (lo + b * w).round()) } else { (lo, hi) };
        let (start, end) = if cut == 1 { ((s + ca * (e - s)).round(), (e - cb * (e - s)).round()) } else { (s, e) };
        pay(&[2, 2, 3], s, e - s).prop_map(move |mut pay| { if let Pay::Cheb { coefs, n, .. } = &mut pay { for c in coefs { for i in 0..3 { c[i * *n] += mag * noise(target as u64, i) } } } let mut g = Seg { target, center, frame: 1, start, end, pay }; let sp = g.span(); if g.start == s { g.start = sp.0 } if g.end == e { g.end = sp.1 } g })
    })
}
fn main() {
    let mut c = Check::new("C29", "kernels at epochs where at least one body resolves");
    let m = icrf2ecl();
    let (lo, hi) = (500_000_000.0, 500_864_000.0);
    let edges: [(i32, i32, f64); 4] = [(10, 0, 1e6), (3, 0, 1.5e8), (301, 3, 3.8e5), (399, 3, 4.7e3)];

    c.prop("bodies are the sums of their kernel segments", 12000, move || (
        (1usize..4, 1usize..3, 1usize..4, prop_oneof![3 => Just(0usize), 1 => Just(1), 1 => Just(2)]).prop_flat_map(move |(a, b, d, e)| {
            let mut v = vec![];
            for ((t, k, mag), n) in edges.iter().zip([a, b, d, e]) { for _ in 0..n { v.push(seg(*t, *k, lo, hi, *mag).boxed()) } }
            // Segments of other bodies, and of the same bodies from elsewhere.
            v.push(seg(4, 0, lo, hi, 1e8).boxed()); v.push(seg(399, 0, lo, hi, 1e8).boxed()); v.push(seg(301, 399, lo, hi, 4e5).boxed());
            v
        }).prop_shuffle(), layout(), prop_oneof![8 => 0.0f64..1.0, 1 => -0.3f64..1.3], proptest::option::weighted(0.1, 0usize..4)),
    move |(segs, l, x, drop)| {
        let segs: Vec<Seg> = segs.iter().filter(|s| drop.is_none_or(|d| (s.target, s.center) != (edges[d].0, edges[d].1))).cloned().collect();
        let jd = J2000 + (lo + x * (hi - lo)) / 86_400.0;
        let et = et_of(jd);
        let bytes = spk(l, &segs);
        let eph = np("from_bytes", || RuntimeEphemeris::from_bytes(&bytes))?.map_err(|e| format!("refused: {e}"))?;
        if segs.iter().any(|s| { let c = s.cover(); (et - c.0).abs() < 1e-3 || (et - c.1).abs() < 1e-3 }) { return Ok("-edge of coverage") }
        let at = |t: i32, k: i32| segs.iter().rev().find(|s| s.target == t && s.center == k && s.covers(et)).map(|s| s.eval(et, 2e-6));
        let (sun, emb, moon, earth) = (at(10, 0), at(3, 0), at(301, 3), at(399, 3));
        let has_earth = segs.iter().any(|s| (s.target, s.center) == (399, 3));
        // An Earth segment, or else the Moon scaled by the mass ratio.
        let off = if has_earth { earth.clone().map(|e| (1.0, e)) } else { moon.clone().map(|m| (-1.0 / EMRAT, m)) };
        // With the Earth's own segments elsewhere, either an error or the other route will do.
        let lax = has_earth && earth.is_none();
        let other = moon.clone().map(|m| (-1.0 / EMRAT, m));
        let off = if lax { other } else { off };
        let join = |terms: Vec<Option<(f64, States)>>| terms.into_iter().collect::<Option<Vec<_>>>().map(|t| sum(&t));
        let one = |s: &Option<States>, k: f64| s.clone().map(|s| (k, s));
        let w_sun = join(vec![one(&sun, 1.0)]);
        let w_earth = join(vec![one(&emb, 1.0), off.clone()]);
        let w_helio = join(vec![one(&emb, 1.0), off.clone(), one(&sun, -1.0)]);
        let w_moon = join(vec![one(&moon, 1.0), off.map(|(k, s)| (-k, s))]);
        let t = JulianDate::new(jd);
        let d: &dyn DynEphemeris = &eph;
        macro_rules! xyz { ($p:expr) => { { let p = $p; [p.x().value(), p.y().value(), p.z().value()] } } }
        macro_rules! body { ($name:expr, $try:ident, $plain:ident, $want:expr, $off:expr, $unit:expr, $lax:expr) => {
            let g = np($name, || d.$try(t))?;
            match ($want, g) {
                (Some(w), Ok(p)) => {
                    let p = xyz!(p);
                    ensure!(near(p, &w, $off, $unit, &m), "{}: {p:?} instead of {:?} (ICRF) +- {:?}", $name, w[0].0, w[0].1);
                    ensure!(xyz!(np($name, || d.$plain(t))?) == p, "{}: fallible and infallible values differ", $name);
                    count_oracle(1);
                }
                (None, Err(e)) => check_range(&e, jd, &segs.iter().collect::<Vec<_>>()).map_err(|x| format!("{}: {x}", $name))?,
                (Some(_), Err(e)) => ensure!($lax, "{}: {e} at {et}", $name),
                (None, Ok(p)) => ensure!(false, "{}: {:?} at {et} although the kernel does not cover it", $name, xyz!(p)),
            }
        } }
        let any = w_sun.is_some() || w_earth.is_some() || w_moon.is_some();
        body!("Sun", try_sun_barycentric, sun_barycentric, w_sun, 0, AU, false);
        body!("Earth", try_earth_barycentric, earth_barycentric, w_earth.clone(), 0, AU, lax);
        body!("Earth velocity", try_earth_barycentric_velocity, earth_barycentric_velocity, w_earth.map(|w| w.into_iter().map(|(s, t)| (s.map(|x| x * 86_400.0), t.map(|x| x * 86_400.0))).collect::<States>()), 3, AU, lax);
        body!("Earth from the Sun", try_earth_heliocentric, earth_heliocentric, w_helio, 0, AU, lax);
        body!("Moon", try_moon_geocentric, moon_geocentric, w_moon, 0, 1.0, lax);
        Ok(if !any { "-nothing covered" } else if has_earth { "Earth segment" } else { "Earth from the Moon" })
    });

    c.prop("core-segment tables give the same ephemeris", 2000, move || (
        any::<bool>().prop_flat_map(move |e| { let mut v = vec![]; for (t, k, mag) in &edges[..if e { 4 } else { 3 }] { v.push((pay(&[2, 3], lo, hi - lo), Just((*t, *k, *mag))).prop_map(|(pay, (target, center, _))| { let mut g = Seg { target, center, frame: 1, start: 0.0, end: 0.0, pay }; let s = g.span(); g.start = s.0; g.end = s.1; g })) } v }).prop_shuffle(), layout(), 0.001f64..0.999, any::<u32>()),
    move |(segs, l, x, tag)| {
        let bytes = spk(l, segs);
        let a = RuntimeEphemeris::from_bytes(&bytes).map_err(|e| e.to_string())?;
        let b = np("from_segments", || parse_bsp(&bytes).map(RuntimeEphemeris::from_segments))?.map_err(|e| e.to_string())?;
        let dir = std::env::temp_dir().join(format!("vh-c29-{}-{tag}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let f = dir.join("a.bsp");
        let r = std::fs::write(&f, &bytes).map_err(|e| e.to_string()).and_then(|_| np("from_bsp", || (RuntimeEphemeris::from_bsp(&f), RuntimeEphemeris::from_bsp(dir.join("none")).is_err())));
        let _ = std::fs::remove_dir_all(&dir);
        let (k, missing) = r?;
        ensure!(missing, "a missing file loaded");
        let k = k.map_err(|e| e.to_string())?;
        let t = JulianDate::new(J2000 + (lo + x * (hi - lo)) / 86_400.0);
        let all: Vec<Box<dyn DynEphemeris>> = vec![Box::new(a.clone()), Box::new(b), Box::new(k), Box::new(a)];
        macro_rules! xyz { ($p:expr) => { { let p = $p; [p.x().value(), p.y().value(), p.z().value()] } } }
        let v: Vec<_> = all.iter().map(|e| [xyz!(e.sun_barycentric(t)), xyz!(e.earth_barycentric(t)), xyz!(e.earth_heliocentric(t)), xyz!(e.earth_barycentric_velocity(t)), xyz!(e.moon_geocentric(t))]).collect();
        ensure!(v.iter().all(|x| *x == v[0]), "ephemerides of one kernel differ: {v:?}");
        // Heliocentric Earth is the difference of the barycentric positions.
        for i in 0..3 { ensure!(close(v[0][2][i], v[0][1][i] - v[0][0][i], 1e-13 * (v[0][1].iter().chain(&v[0][0]).map(|x| x.abs()).sum::<f64>()) + 1e-18, 0.0), "heliocentric {:?} of {:?} and {:?}", v[0][2], v[0][1], v[0][0]) }
        Ok("kernel")
    });
    c.finish()
}
