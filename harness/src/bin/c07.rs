//! C07: gravitational light deflection.
use proptest::prelude::*;
use siderust::astro::light_deflection::*;
use siderust::coordinates::cartesian::{Direction, Displacement};
use siderust::coordinates::frames::*;
use siderust::qtty::*;
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type F = EquatorialMeanJ2000;
/// 2GM/c^2 of the Sun in AU from the nominal solar mass parameter.
const RS: f64 = 2.0 * 1.327_124_4e20 / (299_792_458.0 * 299_792_458.0) / 149_597_870_700.0;

/// Star at elongation psi from the body, in a random plane: (star, body->observer unit, transverse unit away from the body).
fn scene(q: V3, t: V3, psi: f64) -> (V3, V3) {
    let to_body = scale(q, -1.0);
    let mut w = sub(t, scale(q, dot(t, q)));
    if norm(w) < 1e-3 { let e = if q[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }; w = sub(e, scale(q, dot(e, q))); }
    let w = unit(w);
    (add(scale(to_body, psi.cos()), scale(w, psi.sin())), w)
}
/// Point-mass deflection: the source moves away from the body by atan(k cot(psi/2)), k = 2GM/(c^2 q).
fn bent(q: V3, w: V3, psi: f64, k: f64) -> V3 {
    let p2 = psi + (k / (psi / 2.0).tan()).atan();
    add(scale(q, -p2.cos()), scale(w, p2.sin()))
}
fn d3(d: &Direction<F>) -> V3 { [d.x(), d.y(), d.z()] }
fn dir(v: V3) -> Direction<F> { Direction::<F>::new(v[0], v[1], v[2]) }
fn disp(v: V3) -> Displacement<F, AstronomicalUnit> { Displacement::new(v[0], v[1], v[2]) }
fn elong() -> BoxedStrategy<f64> { prop_oneof![3 => 0.01f64..3.14159, 3 => logu(-4.0, -0.5), 1 => Just(std::f64::consts::FRAC_PI_2), 1 => logu(-6.0, -1.0).prop_map(|x| std::f64::consts::PI - x)].boxed() }

fn main() {
    let mut c = Check::new("C07", "elongation 1e-4..pi rad from the deflector in any plane and orientation, distance 1e-3..100 AU, mass up to 100 Suns; non-trivial: deflection above 1e-12 rad");
    // Rounding of 1 - cos(psi) limits what double precision can say close to the body.
    fn tol(psi: f64, k: f64) -> f64 { 3e-16 * 4.0 + k / (psi / 2.0).tan() * (8e-16 / (psi / 2.0).sin().powi(2)) }
    c.prop("point_mass", 60_000, || (unit_vec(), unit_vec(), elong(), logu(-3.0, 2.0), logu(-6.0, 2.0)), |(q, t, psi, r, mass)| {
        let (s, w) = scene(*q, *t, *psi);
        let k = RS * mass / r;
        let g = body_deflection(dir(s), disp(scale(*q, *r)), AstronomicalUnits::new(RS * mass));
        let want = bent(*q, w, *psi, k);
        ensure!((norm(d3(&g)) - 1.0).abs() < 1e-14, "not a unit vector {:?}", d3(&g));
        let e = angle(d3(&g), want);
        ensure!(e <= tol(*psi, k), "elongation {} rad, k {:e}: {:?}, expected {:?}, off by {:e} rad of a deflection of {:e}", psi, k, d3(&g), want, e, k / (psi / 2.0).tan());
        Ok(if k / (psi / 2.0).tan() < 1e-12 { "-tiny" } else if *psi < 0.02 { "near limb" } else { "bent" })
    });
    c.prop("named_bodies", 20_000, || (unit_vec(), unit_vec(), elong(), logu(-1.0, 1.5)), |(q, t, psi, r)| {
        let (s, w) = scene(*q, *t, *psi);
        let d = disp(scale(*q, *r));
        for (n, g, m, rel) in [("Sun", solar_deflection(dir(s), d), 1.0, 1e-6), ("Jupiter", jupiter_deflection(dir(s), d), 1.0 / 1047.3486, 2e-6), ("Saturn", saturn_deflection(dir(s), d), 1.0 / 3497.9018, 2e-6)] {
            let k = RS * m / r;
            let size = k / (psi / 2.0).tan();
            ensure!(angle(d3(&g), bent(*q, w, *psi, k)) <= tol(*psi, k) + rel * size, "{} at {} AU, elongation {} rad: {:?}, expected {:?}; deflection {:e} rad", n, r, psi, d3(&g), bent(*q, w, *psi, k), size);
        }
        let m = solar_deflection_magnitude(Radians::new(*psi), AstronomicalUnits::new(*r)).value();
        let want = RS / r / (psi / 2.0).tan() / AS2R;
        ensure!((m - want).abs() <= 1e-6 * want + 1e-15, "magnitude at {} rad, {} AU: {} arcsec, expected {}", psi, r, m, want);
        // the vector and the scalar form agree
        let moved = angle(d3(&solar_deflection(dir(s), d)), s).tan() / AS2R;
        ensure!((moved - m).abs() <= 1e-6 * m + (tol(*psi, RS / r) + 2e-16) / AS2R, "vector form moved {} arcsec, scalar form says {}", moved, m);
        Ok(if want < 1e-6 { "-tiny" } else { "named" })
    });
    c.prop("inverse", 20_000, || (unit_vec(), unit_vec(), prop_oneof![0.01f64..3.14159, logu(-2.4, -0.5)], logu(-1.0, 1.5)), |(q, t, psi, r)| {
        let (s, _) = scene(*q, *t, *psi);
        let d = disp(scale(*q, *r));
        let back = solar_deflection_inverse(solar_deflection(dir(s), d), d);
        let k = RS / r;
        let size = k / (psi / 2.0).tan();
        // one first-order step: the remainder is second order in the deflection
        let second = size * k / (2.0 * (psi / 2.0).sin().powi(2));
        ensure!((norm(d3(&back)) - 1.0).abs() < 1e-14, "not a unit vector");
        ensure!(angle(d3(&back), s) <= 3.0 * second + tol(*psi, k) * 2.0, "elongation {} rad at {} AU: {:?} came back as {:?}, {:e} rad off of a deflection of {:e}", psi, r, s, d3(&back), angle(d3(&back), s), size);
        Ok(if size < 1e-12 { "-tiny" } else { "inverse" })
    });
    c.prop("several_bodies", 10_000, || (unit_vec(), [unit_vec(), unit_vec(), unit_vec()], [0.3f64..2.0, 3.5f64..6.5, 8.0f64..11.5]), |(s, qs, r)| {
        if qs.iter().any(|q| angle(*s, scale(*q, -1.0)) < 1e-3) { return Ok("-behind a body"); }
        let g = full_planetary_deflection(dir(*s), disp(scale(qs[0], r[0])), disp(scale(qs[1], r[1])), disp(scale(qs[2], r[2])));
        let mut x = *s;
        for (i, m) in [1.0, 1.0 / 1047.3486, 1.0 / 3497.9018].iter().enumerate() {
            let psi = angle(x, scale(qs[i], -1.0));
            let w = sub(x, scale(qs[i], dot(x, qs[i])));
            if norm(w) > 1e-9 { x = bent(qs[i], unit(w), psi, RS * m / r[i]); }
        }
        let size = angle(x, *s);
        ensure!(angle(d3(&g), x) <= 4e-15 + 3e-6 * size, "{:?}, expected {:?}, deflection {:e}", d3(&g), x, size);
        Ok(if size < 1e-10 { "-tiny" } else { "sum" })
    });
    // Degenerate geometry still gives unit directions.
    c.prop("degenerate", 4_000, || (unit_vec(), unit_vec(), prop_oneof![Just(0.0), Just(std::f64::consts::PI), logu(-18.0, -4.0)], prop_oneof![Just(0.0), logu(-14.0, -6.0), 0.1f64..50.0], prop_oneof![Just(0.0), Just(RS), Just(-1e-8)]), |(q, t, psi, r, rs)| {
        let (s, _) = scene(*q, *t, *psi);
        let g = body_deflection(dir(s), disp(scale(*q, *r)), AstronomicalUnits::new(*rs));
        ensure!((norm(d3(&g)) - 1.0).abs() < 1e-12, "psi {:e}, distance {:e}, Rs {:e}: {:?}", psi, r, rs, d3(&g));
        if *r == 0.0 || *rs <= 0.0 { ensure!(angle(d3(&g), s) < 1e-15, "moved with no deflector"); }
        ensure!(solar_deflection_magnitude(Radians::new(-*psi), AstronomicalUnits::new(1.0)).value() == 0.0, "negative elongation");
        Ok("degenerate")
    });
    c.finish()
}
