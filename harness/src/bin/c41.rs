//! C41: atmosphere models follow their formulas and physical bounds.
use proptest::prelude::*;
use siderust::atmosphere::airglow::*;
use siderust::atmosphere::airmass::*;
use siderust::atmosphere::extinction::transmission;
use siderust::atmosphere::mie::*;
use siderust::atmosphere::rayleigh::*;
use siderust::atmosphere::scattering::*;
use siderust::atmosphere::*;
use siderust::bodies::aircraft::isa;
use siderust::qtty::*;
use std::f64::consts::{FRAC_PI_2, PI};
use vharness::*;

fn rel(a: f64, b: f64, t: f64) -> bool { a == b || (a - b).abs() <= t * b.abs() }
/// Rayleigh optical depth of the whole sea-level column (Bodhaine et al. 1999, eq. 30), wavelength in micrometres.
fn rayleigh(l: f64) -> f64 { 0.0021520 * (1.0455996 - 341.29061 * l.powi(-2) - 0.90230850 * l.powi(2)) / (1.0 + 0.0027059889 * l.powi(-2) - 85.968563 * l.powi(2)) }
fn lambda() -> impl Strategy<Value = f64> { prop_oneof![3 => 250.0f64..1100.0, 1 => 1100.0f64..4000.0, 1 => (25u32..110).prop_map(|x| x as f64 * 10.0)] }
fn formulas() -> [(&'static str, fn(Radians) -> Airmasses, fn(f64) -> f64); 4] {
    [("plane parallel", airmass::<PlaneParallel>, |z| 1.0 / z.cos()),
     ("Young", airmass::<Young1994>, |z| { let c = z.cos(); (1.002432 * c.powi(2) + 0.148386 * c + 0.0096467) / (c.powi(3) + 0.149864 * c.powi(2) + 0.0102963 * c + 0.000303978) }),
     ("Rozenberg", airmass::<Rozenberg1966>, |z| (z.cos() + 0.025 * (-11.0 * z.cos()).exp()).recip()),
     ("Krisciunas-Schaefer", airmass::<KrisciunasSchaefer1991>, |z| 1.0 / (1.0 - 0.96 * z.sin().powi(2)).sqrt())]
}
fn table() -> Vec<(f64, f64)> { include_str!("../../data/o3trans.dat").lines().map(|l| { let mut w = l.split_whitespace().map(|x| x.parse::<f64>().unwrap()); (w.next().unwrap() * 1000.0, w.next().unwrap()) }).collect() }
/// Standard atmosphere by integrating the hydrostatic law with the ideal gas law (Simpson on 1/T).
fn isa_pressure(h: f64) -> f64 { let t = |h: f64| if h <= 11_000.0 { 288.15 - 0.0065 * h } else { 216.65 }; let simp = |a: f64, b: f64| { let n = 400; let d = (b - a) / n as f64; (0..=n).map(|i| (if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }) / t(a + d * i as f64)).sum::<f64>() * d / 3.0 }; let i = if h <= 11_000.0 { simp(0.0, h) } else { simp(0.0, 11_000.0) + (h - 11_000.0) / 216.65 }; 101_325.0 * (-9.80665 * 0.0289644 / 8.314462618 * i).exp() }
fn interp(g: &[f64], x: f64) -> (usize, f64) { let n = g.len(); if x <= g[0] { return (0, 0.0) } if x >= g[n - 1] { return (n - 2, 1.0) } let i = g.iter().rposition(|v| *v <= x).unwrap().min(n - 2); (i, (x - g[i]) / (g[i + 1] - g[i])) }
fn grid(lo: f64, hi: f64) -> impl Strategy<Value = Vec<f64>> { proptest::collection::vec(0.05f64..1.0, 2..8).prop_map(move |s| { let tot: f64 = s.iter().skip(1).sum(); let mut x = lo; let mut v = vec![lo]; for d in &s[1..] { x += d / tot * (hi - lo); v.push(x) } v }) }

fn main() {
    let mut c = Check::new("C41", "arguments away from trivial points (zenith, sea level, reference wavelength)");
    c.prop("Rayleigh optical depth", 60_000, || (lambda(), 100.0f64..1100.0, -0.5f64..12.0, 5.0f64..10.0, 1e-4f64..0.2), |(l, p, h, hs, d)| {
        let f = |l: f64, p: f64, h: f64| np("rayleigh_optical_depth_bodhaine99", || rayleigh_optical_depth_bodhaine99(Nanometers::new(l), Hectopascals::new(p), Kilometers::new(h), Kilometers::new(*hs)).value());
        let t = f(*l, *p, *h)?; let w = p / 1013.25 * rayleigh(l / 1000.0) * (-h / hs).exp();
        ensure!(rel(t, w, 1e-12) && t > 0.0, "{l} nm, {p} hPa, {h} km: {t:e} instead of {w:e}");
        ensure!(f(l * (1.0 + d), *p, *h)? < t && f(*l, p * (1.0 + d), *h)? > t && f(*l, *p, h + d)? < t, "{l} nm, {p} hPa, {h} km: the depth does not fall with wavelength and height and grow with pressure");
        let e = (f(l * 1.0001, *p, *h)? / t).ln() / 1.0001f64.ln(); ensure!(*l > 1100.0 || (-5.6..=-3.9).contains(&e), "{l} nm: the exponent is {e}");
        ensure!(DEFAULT_SCALE_HEIGHT.value() == 8.0, "scale height"); Ok("column")
    });
    c.prop("phase functions", 20_000, || (0.0f64..=PI, lambda()), |(t, l)| {
        let p = |x: f64| RayleighPhaseFunction.phase(Nanometers::new(*l), Radians::new(x)).value(); let v = np("phase", || p(*t))?;
        ensure!(rel(v, 3.0 / (16.0 * PI) * (1.0 + t.cos().powi(2)), 1e-13) && v == rayleigh_phase(Radians::new(*t)).value(), "{t}: {v}");
        ensure!(rel(p(PI - t), v, 1e-12) && v <= p(0.0) * (1.0 + 1e-15) && v >= 0.5 * p(0.0) * (1.0 - 1e-12), "{t}: not symmetric or out of bounds");
        let n = 64; let s: f64 = (0..n).map(|i| { let x = (i as f64 + 0.5) / n as f64 * 2.0 - 1.0; let hw = 1.0 / n as f64; let g = (0.6f64).sqrt() * hw; 2.0 * PI * hw * (5.0 * p((x - g).acos()) + 8.0 * p(x.acos()) + 5.0 * p((x + g).acos())) / 9.0 }).sum(); ensure!((s - 1.0).abs() < 1e-12, "integrates to {s}"); Ok("phase")
    });
    c.prop("tabulated phase functions", 40_000, || (grid(300.0, 900.0), grid(0.0, 180.0), proptest::collection::vec(0.0f64..3.0, 64), prop_oneof![4 => 250.0f64..1000.0, 1 => Just(300.0), 1 => Just(900.0)], -0.3f64..3.5, (0u8..8, any::<usize>())), |(w, a, v, l, th, (bad, pick))| {
        let vals: Vec<f64> = v.iter().cycle().take(w.len() * a.len()).enumerate().map(|(i, x)| x + i as f64 * 1e-3).collect(); let (mut w2, mut a2, mut v2) = (w.clone(), a.clone(), vals.clone());
        match bad { 0 => { v2.pop(); } 1 => { let i = 1 + pick % (w.len() - 1); w2[i] = w2[i - 1] } 2 => a2[pick % a.len()] = f64::NAN, _ => {} }
        let r = np("from_raw_row_major", || TabulatedPhaseFunction::from_raw_row_major(&w2, &a2, &v2))?; if *bad < 3 { ensure!(r.is_err(), "a bad table was accepted ({bad})"); return Ok("refused") }
        let f = r.map_err(|e| e.to_string())?; let got = np("interp_at", || f.interp_at(Nanometers::new(*l), Radians::new(*th)).value())?;
        let (i, x) = interp(w, *l); let (j, y) = interp(a, th * 180.0 / PI); let at = |i: usize, j: usize| vals[j * w.len() + i];
        let want = (1.0 - y) * ((1.0 - x) * at(i, j) + x * at(i + 1, j)) + y * ((1.0 - x) * at(i, j + 1) + x * at(i + 1, j + 1));
        ensure!((got - want).abs() < 1e-9 && got == f.phase(Nanometers::new(*l), Radians::new(*th)).value(), "{l} nm, {th} rad: {got} instead of {want}");
        let k = pick % vals.len(); let (i, j) = (k % w.len(), k / w.len()); let node = f.interp_at(Nanometers::new(w[i]), Radians::new(a[j] * PI / 180.0)).value(); ensure!((node - vals[k]).abs() < 1e-9, "node {i} {j}: {node} instead of {}", vals[k]); Ok(if *l < 300.0 || *l > 900.0 || *th < 0.0 || *th > PI { "outside" } else { "inside" })
    });
    c.prop("aerosols, profiles and transmission", 60_000, || ((0.0f64..1.0, -4.0f64..1.0, 300.0f64..1000.0), lambda(), (400.0f64..1050.0, 0.0f64..6.0, 6.0f64..9.0), 1.0f64..40.0, 0usize..4), |((t0, al, l0), l, (p, h, hs), x, site)| {
        let m = MieParams { tau0: OpticalDepths::new(*t0), alpha: *al, lambda_ref: Nanometers::new(*l0) }; let t = np("mie_optical_depth", || mie_optical_depth(&m, Nanometers::new(*l)).value())?;
        let w = t0 * ((l / l0).ln() * al).exp(); ensure!(rel(t, w, 1e-12) && mie_optical_depth(&m, Nanometers::new(*l0)).value() == *t0, "{m:?} at {l}: {t} instead of {w}");
        let a = AtmosphereProfile { surface_pressure: Hectopascals::new(*p), observer_altitude: Kilometers::new(*h), rayleigh_scale_height: Kilometers::new(*hs), mie_params: m };
        let d = np("optical_depth", || a.optical_depth(Nanometers::new(*l)).value())?; let w = p / 1013.25 * rayleigh(l / 1000.0) * (-h / hs).exp() + w; ensure!(rel(d, w, 1e-12), "{a:?} at {l}: {d} instead of {w}");
        let tr = |x: f64| a.transmission(Nanometers::new(*l), Airmasses::new(x)).value(); let v = np("transmission", || tr(*x))?; ensure!(rel(v, (-w * x).exp(), 1e-10) && (0.0..=1.0).contains(&v) && tr(0.0) == 1.0, "{a:?} at {l}, {x} airmasses: {v}");
        ensure!(v == transmission(OpticalDepths::new(d), Airmasses::new(*x)).value() && rel(tr(x * 0.5).powi(2), v, 1e-10) && tr(x + 0.01) <= v, "transmission does not multiply along the path");
        let (q, tau0, alt) = [(AtmosphereProfile::EL_PARANAL, 0.05, 2.635), (AtmosphereProfile::ROQUE_DE_LOS_MUCHACHOS, 0.02, 2.396), (AtmosphereProfile::MAUNA_KEA, 0.03, 4.205), (AtmosphereProfile::LA_SILLA, 0.04, 2.4)][*site];
        let pr = q.surface_pressure.value(); let isa = isa_pressure(alt * 1000.0) / 100.0; ensure!((pr / isa - 1.0).abs() < 0.04 && (q.observer_altitude.value() - alt).abs() < 0.02, "site {site}: {pr} hPa at {alt} km"); let w = pr / 1013.25 * rayleigh(l / 1000.0) * (-q.observer_altitude.value() / 8.0).exp() + tau0 * (l / 550.0).powf(-1.38);
        ensure!(rel(q.optical_depth(Nanometers::new(*l)).value(), w, 1e-12), "site {site} at {l}: {} instead of {w}", q.optical_depth(Nanometers::new(*l)).value()); Ok("slant path")
    });
    c.prop("airmass", 60_000, || (0.0f64..FRAC_PI_2, 1e-4f64..0.3, 0usize..4), |(z, d, k)| {
        let (n, f, g) = formulas()[*k]; let x = np("airmass", || f(Radians::new(*z)).value())?; ensure!(rel(x, g(*z), 1e-12), "{n} at {z}: {x} instead of {}", g(*z));
        let sec = 1.0 / z.cos(); ensure!(x <= sec * 1.0001 && x >= 0.999, "{n} at {z}: {x} against sec z = {sec}"); if *z < 1.0 { ensure!((x / sec - 1.0).abs() < 0.12, "{n} at {z}: {x}, sec z = {sec}") }
        let z2 = (z + d).min(FRAC_PI_2); ensure!(f(Radians::new(z2)).value() >= x, "{n} falls between {z} and {z2}"); ensure!((f(Radians::new(0.0)).value() - 1.0).abs() < 1e-3, "{n} at the zenith");
        ensure!(airmass::<DefaultAirmassFormula>(Radians::new(*z)).value() == airmass::<KrisciunasSchaefer1991>(Radians::new(*z)).value(), "default formula"); Ok(n)
    });
    c.prop("airglow", 40_000, || (0.0f64..FRAC_PI_2, prop_oneof![50.0f64..400.0, 1.0f64..3000.0], prop_oneof![Just(6371.0), 1000.0f64..70_000.0], 0u8..12), |(z, h, r, bad)| {
        let f = |z: f64, h: f64, r: f64| van_rhijn_factor_with_radius(Radians::new(z), Kilometers::new(h), Kilometers::new(r)).value();
        if *bad < 5 { let v = np("van_rhijn", || [f(f64::NAN, *h, *r), f(*z, -h, *r), f(*z, 0.0, *r), f(*z, *h, -r), f(*z, f64::INFINITY, *r)][*bad as usize])?; ensure!(v.is_nan(), "bad input {bad} gives {v}"); return Ok("refused") }
        let v = np("van_rhijn", || f(*z, *h, *r))?; let b = r * z.cos(); let s = ((b * b) + h * (2.0 * r + h)).sqrt() - b; let hit = [s * z.sin(), r + s * z.cos()]; let cosi = (hit[0] * z.sin() + hit[1] * z.cos()) / (r + h); ensure!(rel(v, 1.0 / cosi, 1e-9), "{z} {h} {r}: {v} instead of {}", 1.0 / cosi);
        ensure!(v >= 1.0 && v <= 1.0 / z.cos().max(1e-300) * (1.0 + 1e-12) && f(0.0, *h, *r) == 1.0 && f(z * 0.9, *h, *r) <= v && f(*z, h * 1.1, *r) <= v * (1.0 + 1e-15), "{z} {h} {r}: {v} out of bounds"); let e = van_rhijn_factor(Radians::new(*z), Kilometers::new(*h)).value(); let lo = f(*z, *h, 6371.0); ensure!(rel(e, lo, 3e-3), "Earth: {e} instead of {lo}"); Ok("shell")
    });
    c.prop("ozone", 40_000, || (prop_oneof![6 => 295.0f64..1010.0, 1 => 0.0f64..400.0, 1 => 900.0f64..5000.0], 0usize..3614, 0.0f64..1.0), |(l, k, x)| {
        thread_local! { static T: Vec<(f64, f64)> = table(); }
        T.with(|t| { let f = |l: f64| np("transmittance_at", || ozone::transmittance_at(Nanometers::new(l)).value());
            let w = if *l <= t[0].0 { t[0].1 } else if *l >= t[t.len() - 1].0 { t[t.len() - 1].1 } else { let i = t.partition_point(|p| p.0 <= *l) - 1; t[i].1 + (t[i + 1].1 - t[i].1) * (l - t[i].0) / (t[i + 1].0 - t[i].0) };
            let v = f(*l)?; ensure!((v - w).abs() < 1e-9 && (0.0..=1.0).contains(&v), "{l} nm: {v} instead of {w}");
            let i = (*k).min(t.len() - 2); let (a, b) = (t[i], t[i + 1]); let v = f(a.0 + x * (b.0 - a.0))?; ensure!((v - a.1 - x * (b.1 - a.1)).abs() < 1e-9, "between {a:?} and {b:?}: {v}"); Ok(if *l < 300.0 || *l > 1000.0 { "outside" } else { "inside" }) })
    });
    c.prop("standard atmosphere", 60_000, || (prop_oneof![4 => -2000.0f64..20_000.0, 1 => 10_900.0f64..11_100.0, 1 => Just(11_000.0), 1 => Just(0.0)], 0.01f64..500.0), |(h, d)| {
        let m = Meters::new; let p = |h: f64| np("pressure_at_altitude", || isa::pressure_at_altitude(m(h)).value()); let v = p(*h)?; let w = isa_pressure(*h); ensure!(rel(v, w, 1e-7), "{h} m: {v} Pa instead of {w}");
        let t = isa::temperature_at_altitude(m(*h)).value(); let tw = if *h <= 11_000.0 { 288.15 - 0.0065 * h } else { 216.65 }; ensure!((t - tw).abs() < 1e-9, "{h} m: {t} K instead of {tw}");
        ensure!(p(h + d)? < v, "pressure rises from {h} by {d}"); let b = np("pressure_altitude_m", || isa::pressure_altitude_m(Pascals::new(v)).value())?; ensure!((b - h).abs() < 1e-6, "{h} m back from {v} Pa as {b}");
        let g = isa::geopotential_altitude_m(m(*h)).value(); let n = 2000; let gw: f64 = (0..n).map(|i| { let z = h * (i as f64 + 0.5) / n as f64; (6_356_766.0 / (6_356_766.0 + z)).powi(2) * h / n as f64 }).sum(); ensure!((g - gw).abs() < 1e-4, "{h} m: geopotential {g} instead of {gw}");
        ensure!((isa::geometric_altitude_m(m(g)).value() - h).abs() < 1e-6, "geopotential height does not come back"); Ok(if *h > 11_000.0 { "stratosphere" } else { "troposphere" })
    });
    c.finish()
}
