//! C44: photometric quantities follow passband curves and lunar photometry.
use proptest::prelude::*;
use siderust::event::lunar::photometry::*;
use siderust::photometry::passbands::{bessell1990 as bands, johnson_b, johnson_v};
use siderust::qtty::{Kilometers, Nanometers, Radians};
use std::f64::consts::PI;
use vharness::*;

type Table = Vec<(f64, f64)>;
fn parse(s: &str) -> Table { s.lines().map(|l| { let mut w = l.split_whitespace().map(|x| x.parse().unwrap()); (w.next().unwrap(), w.next().unwrap()) }).collect() }
fn tables() -> [Table; 5] { [parse(include_str!("../../data/bessell_U.dat")), parse(include_str!("../../data/bessell_B.dat")), parse(include_str!("../../data/bessell_V.dat")), parse(include_str!("../../data/bessell_R.dat")), parse(include_str!("../../data/bessell_I.dat"))] }
fn at(t: &Table, l: f64) -> f64 { if l < t[0].0 || l > t[t.len() - 1].0 { return 0.0 } let i = (t.partition_point(|p| p.0 <= l) - 1).min(t.len() - 2); t[i].1 + (t[i + 1].1 - t[i].1) * (l - t[i].0) / (t[i + 1].0 - t[i].0) }
fn albedo(l: f64) -> f64 { 0.075 + 0.065 * (l.max(300.0).min(1100.0) - 300.0) / 800.0 }
/// Krisciunas and Schaefer's magnitude offset of the phase angle, as a brightness.
fn phase(a: f64) -> f64 { let d = a.abs() * 180.0 / PI; (-(0.026 * d + 4e-9 * d * d * d * d) / 2.5 * 10f64.ln()).exp() }

fn main() {
    let mut c = Check::new("C44", "wavelengths inside a passband; phases and distances away from full Moon at its mean distance");
    c.prop("passbands", 60_000, || (0usize..5, prop_oneof![4 => 290.0f64..950.0, 1 => 0.0f64..3000.0], 0usize..64, prop_oneof![4 => 0.0f64..1.0, 1 => Just(0.0)]), |(k, l, i, x)| {
        thread_local! { static T: [Table; 5] = tables(); }
        T.with(|all| { let t = &all[*k]; let s = np("passband", || [bands::u, bands::b, bands::v, bands::r, bands::i][*k]())?; let f = |l: f64| np("interp_at", || s.interp_at(Nanometers::new(l)).value());
            let v = f(*l)?; ensure!((v - at(t, *l)).abs() < 1e-9 && (0.0..=1.0).contains(&v), "band {k} at {l} nm: {v} instead of {}", at(t, *l));
            let i = i % (t.len() - 1); let l2 = t[i].0 + x * (t[i + 1].0 - t[i].0); ensure!((f(l2)? - at(t, l2)).abs() < 1e-9, "band {k} at {l2} nm: {} instead of {}", f(l2)?, at(t, l2));
            ensure!(f(t[0].0 - 0.1 - l)? == 0.0 && f(t[t.len() - 1].0 + 0.1 + l)? == 0.0, "band {k} passes light outside its range");
            if *k == 1 { ensure!(johnson_b().interp_at(Nanometers::new(l2)).value() == f(l2)?, "Johnson B") } if *k == 2 { ensure!(johnson_v().interp_at(Nanometers::new(l2)).value() == f(l2)?, "Johnson V") }
            Ok(if at(t, *l) > 0.0 || at(t, l2) > 0.0 { "in the band" } else { "-outside" }) })
    });
    c.prop("lunar albedo and phase law", 60_000, || (prop_oneof![4 => 300.0f64..1100.0, 1 => 1.0f64..5000.0], prop_oneof![3 => -PI..PI, 1 => -1e-3f64..1e-3], 1e-3f64..0.5), |(l, a, d)| {
        let fa = |l: f64| np("albedo", || lunar_full_moon_albedo_jones2013(Nanometers::new(l)).value()); let fp = |a: f64| np("phase", || lunar_phase_attenuation_jones2013(Radians::new(a)).value());
        let (x, p) = (fa(*l)?, fp(*a)?); ensure!((x - albedo(*l)).abs() < 1e-14, "albedo at {l}: {x} instead of {}", albedo(*l)); ensure!((p / phase(*a) - 1.0).abs() < 1e-12, "phase {a}: {p} instead of {}", phase(*a));
        ensure!(fa(l * (1.0 + d))? >= x && fp(a.abs() + d)? < p && fp(-a)? == p && p <= 1.0 && fp(0.0)? == 1.0, "not monotone in wavelength and phase, not even in the phase, or above one"); let j = lunar_albedo_jones2013(Radians::new(*a), Nanometers::new(*l)).value(); ensure!((j / (albedo(*l) * phase(*a)) - 1.0).abs() < 1e-12, "albedo {j}"); Ok("Moon")
    });
    c.prop("reflected radiance", 60_000, || (0.0f64..3.0, 250.0f64..1200.0, -PI..PI, prop_oneof![3 => 350_000.0f64..410_000.0, 1 => 1e4f64..1e6], 0u8..30), |(e, l, a, d, bad)| {
        let f = |e: f64, l: f64, a: f64, d: f64| np("radiance", || reflected_lunar_spectral_radiance_jones2013(e, Nanometers::new(l), Radians::new(a), Kilometers::new(d)).value());
        if *bad < 8 { let v = match bad { 0 => f(f64::NAN, *l, *a, *d), 1 => f(f64::INFINITY, *l, *a, *d), 2 => f(*e, *l, *a, 0.0), 3 => f(*e, *l, *a, -d), 4 => f(*e, *l, *a, f64::INFINITY), 5 => f(*e, *l, f64::INFINITY, *d), 6 => f(*e, f64::INFINITY, *a, *d), _ => f(*e, *l, f64::NAN, *d) }?; ensure!(v.is_nan(), "bad input {bad} gives {v}"); return Ok("refused") }
        let v = f(*e, *l, *a, *d)?; let solid = PI * (1737.4f64 / 384_400.0).powi(2); let w = e * solid / PI * albedo(*l) * phase(*a) * (384_400.0 / d).powi(2); ensure!((v - w).abs() <= 1e-12 * w, "{e} {l} {a} {d}: {v:e} instead of {w:e}");
        ensure!((f(*e, *l, *a, d * 2.0)? * 4.0 - v).abs() <= 1e-12 * v, "twice as far is not a quarter as bright"); Ok("Moonlight")
    });
    c.finish()
}
