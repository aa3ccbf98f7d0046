//! C08: proper motion and space motion.
use proptest::prelude::*;
use siderust::astro::proper_motion::*;
use siderust::bodies::Star;
use siderust::coordinates::spherical::position;
use siderust::qtty::*;
use siderust::targets::CoordinateWithPM;
use siderust::JulianDate;
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type P = position::EquatorialMeanJ2000<AstronomicalUnit>;
type DegYr = Quantity<Per<Degree, Year>>;
type MasYr = Quantity<Per<MilliArcsecond, Year>>;
const MAS: f64 = std::f64::consts::PI / 180.0 / 3.6e6;
/// km/s in AU per Julian year.
const KMS: f64 = 365.25 * 86400.0 / 149_597_870.7;

#[derive(Debug, Clone)]
struct Cat { ra: f64, dec: f64, pma: f64, pmd: f64, plx: f64, rv: f64 }
fn cat() -> impl Strategy<Value = Cat> {
    let dec = prop_oneof![6 => -89.0f64..89.0, 1 => (1e-6f64..1.0, any::<bool>()).prop_map(|(x, n)| if n { 90.0 - x } else { x - 90.0 })];
    let ra = prop_oneof![6 => 0.0f64..360.0, 1 => (-7.0f64..-3.0, any::<bool>()).prop_map(|(e, n)| if n { 360.0 - 10f64.powf(e) } else { 10f64.powf(e) })];
    let pm = || prop_oneof![4 => -12_000.0f64..12_000.0, 2 => -50.0f64..50.0, 1 => Just(0.0)];
    (ra, dec, pm(), pm(), logu(-1.0, 2.9), prop_oneof![-600.0f64..600.0, Just(0.0)]).prop_map(|(ra, dec, pma, pmd, plx, rv)| Cat { ra, dec, pma, pmd, plx, rv })
}
/// Rigorous uniform space motion: position and velocity in AU and AU/yr.
fn state(c: &Cat) -> (V3, V3) {
    let (a, d) = (c.ra.to_radians(), c.dec.to_radians());
    let r = 1.0 / (c.plx * MAS);
    let (east, north, out) = ([-a.sin(), a.cos(), 0.0], [-d.sin() * a.cos(), -d.sin() * a.sin(), d.cos()], sph(a, d));
    (scale(out, r), add(add(scale(east, c.pma * MAS * r), scale(north, c.pmd * MAS * r)), scale(out, c.rv * KMS)))
}
/// Back to catalogue quantities.
fn elements(p: V3, v: V3) -> Cat {
    let r = norm(p);
    let (a, d) = (p[1].atan2(p[0]), p[2].atan2(p[0].hypot(p[1])));
    let (east, north, out) = ([-a.sin(), a.cos(), 0.0], [-d.sin() * a.cos(), -d.sin() * a.sin(), d.cos()], sph(a, d));
    Cat { ra: a.to_degrees().rem_euclid(360.0), dec: d.to_degrees(), pma: dot(v, east) / r / MAS, pmd: dot(v, north) / r / MAS, plx: 1.0 / r / MAS, rv: dot(v, out) / KMS }
}
fn motion(c: &Cat) -> StarSpaceMotion {
    StarSpaceMotion { pm_ra_cos_dec: MasYr::new(c.pma), pm_dec: MasYr::new(c.pmd), parallax: MilliArcseconds::new(c.plx), radial_velocity: Quantity::new(c.rv) }
}
fn pos(c: &Cat, r: f64) -> P { P::new(Degrees::new(c.ra), Degrees::new(c.dec), r) }
fn vec_of(p: &P) -> V3 { scale(sph(p.ra().value().to_radians(), p.dec().value().to_radians()), p.distance.value()) }
fn valid(p: &P) -> Result<(), String> {
    ensure!((0.0..360.0).contains(&p.ra().value()) && (-90.0..=90.0).contains(&p.dec().value()) && p.distance.value().is_finite(), "not a valid direction: RA {} Dec {} r {}", p.ra().value(), p.dec().value(), p.distance.value());
    Ok(())
}
/// The declination comes through an arc sine: near the poles it keeps half the digits.
fn tol(v: V3) -> f64 { let rho = v[0].hypot(v[1]) / norm(v); 4e-15 + (3e-16 / rho.max(1e-12)).min(4e-8) }

fn main() {
    let mut c = Check::new("C08", "catalogue position (poles, RA wrap), proper motion to 12 arcsec/yr, parallax 0.1-800 mas, radial velocity to 600 km/s, epochs +-50 000 yr; non-trivial: the star moves by more than 1 mas");
    c.assume("a rate per `Year` is per Julian year of 365.25 days, as the module documents");
    c.prop("space_motion", 40_000, || (cat(), prop_oneof![-300.0f64..300.0, -50_000.0f64..50_000.0, Just(0.0)], prop_oneof![Just(J2000), 2_440_000.0f64..2_460_000.0], logu(0.0, 8.0)), |(k, yr, epoch, anyr)| {
        let jd = epoch + yr * 365.25;
        let dt = (jd - epoch) / 365.25;
        let (p0, v) = state(k);
        let want = add(p0, scale(v, dt));
        if norm(want) < 1e-3 * norm(p0) { return Ok("-passes the Sun"); }
        let got = propagate_space_motion(pos(k, *anyr), motion(k), JulianDate::new(jd), JulianDate::new(*epoch)).map_err(|e| format!("{e}"))?;
        valid(&got)?;
        // conditioning: the sum may cancel
        let amp = (norm(p0) + norm(v) * dt.abs()) / norm(want);
        ensure!((got.distance.value() / norm(want) - 1.0).abs() < 3e-15 * amp + 1e-14, "distance {} AU, expected {}", got.distance.value(), norm(want));
        ensure!(angle(vec_of(&got), want) < tol(want) + 2e-15 * amp, "{:?} after {} yr: RA {} Dec {}, expected direction {:?} ({:e} rad off)", k, dt, got.ra().value(), got.dec().value(), unit(want), angle(vec_of(&got), want));
        if *epoch == J2000 {
            let g2 = propagate_space_motion_since_j2000(pos(k, *anyr), motion(k), JulianDate::new(jd)).map_err(|e| format!("{e}"))?;
            ensure!((g2.ra(), g2.dec(), g2.distance) == (got.ra(), got.dec(), got.distance), "since-J2000 form differs");
        }
        // there and back, with the elements at the other end
        let k2 = elements(want, v);
        let lim = 1e-12 + 1e-15 * amp * amp;
        if k2.dec.abs() < 89.99 && k.dec.abs() < 89.99 && k2.plx > 0.0 {
            let back = propagate_space_motion(pos(&k2, 1.0), motion(&k2), JulianDate::new(*epoch), JulianDate::new(jd)).map_err(|e| format!("{e}"))?;
            ensure!(angle(vec_of(&back), p0) < lim + tol(p0) + tol(want), "back to the first epoch: {:e} rad off", angle(vec_of(&back), p0));
        }
        Ok(if *yr == 0.0 { "-zero" } else if angle(p0, want) < MAS { "-slow" } else if angle(p0, want) > 0.1 { "far" } else { "moved" })
    });
    c.prop("linear_proper_motion", 30_000, || (cat(), prop_oneof![-300.0f64..300.0, -20_000.0f64..20_000.0, Just(0.0)], any::<bool>(), logu(-2.0, 9.0)), |(k, yr, star, r)| {
        let jd = J2000 + yr * 365.25;
        let dt = (jd - J2000) / 365.25;
        let (pa, pd) = (DegYr::new(k.pma / 3.6e6), DegYr::new(k.pmd / 3.6e6));
        let pm = if *star { ProperMotion::from_mu_alpha_star(pa, pd) } else { ProperMotion::from_mu_alpha(pa, pd) };
        let got = set_proper_motion_since_j2000(pos(k, *r), pm, JulianDate::new(jd)).map_err(|e| format!("{e}"))?;
        valid(&got)?;
        let ra = k.ra + k.pma / 3.6e6 * dt / if *star { k.dec.to_radians().cos() } else { 1.0 };
        let dec = k.dec + k.pmd / 3.6e6 * dt;
        let want = sph(ra.to_radians(), dec.to_radians());
        let lim = 1e-13 + 1e-15 * (ra.abs() + dec.abs()) + if *star { 4e-15 * (ra - k.ra).to_radians().abs() / k.dec.to_radians().cos().abs() } else { 0.0 };
        ensure!(angle(vec_of(&got), want) < lim, "{:?} ({}) after {} yr: RA {} Dec {}, expected RA {} Dec {}", k, if *star { "mu alpha star" } else { "mu alpha" }, dt, got.ra().value(), got.dec().value(), ra, dec);
        ensure!(got.distance.value() == *r, "distance changed");
        // mas/yr declares the same motion
        let (ma, md) = (MasYr::new(k.pma), MasYr::new(k.pmd));
        let pm2 = if *star { ProperMotion::from_mu_alpha_star(ma, md) } else { ProperMotion::from_mu_alpha(ma, md) };
        let g2 = set_proper_motion_since_j2000(pos(k, *r), pm2, JulianDate::new(jd)).map_err(|e| format!("{e}"))?;
        ensure!(angle(vec_of(&got), vec_of(&g2)) < lim, "the unit of the rate matters");
        // two steps equal one for the true rate
        if !*star && dec.abs() < 89.0 {
            let half = J2000 + (jd - J2000) / 2.0;
            let pm = || ProperMotion::from_mu_alpha(pa, pd);
            let h = set_proper_motion_since_j2000(pos(k, *r), pm(), JulianDate::new(half)).unwrap();
            let h2 = set_proper_motion_since_j2000(h, pm(), JulianDate::new(half)).unwrap();
            ensure!(angle(vec_of(&h2), vec_of(&got)) < 2.0 * lim, "two half steps differ from one");
        }
        Ok(if *yr == 0.0 { "-zero" } else if *star { "mu alpha star" } else { "mu alpha" })
    });
    c.prop("poles_and_bad_parallax", 4_000, || (cat(), any::<bool>(), -300.0f64..300.0, 0u8..3), |(k, north, yr, what)| {
        let jd = JulianDate::new(J2000 + yr * 365.25);
        let mut k = k.clone();
        match what {
            0 => {
                k.dec = if *north { 90.0 } else { -90.0 };
                let pm = ProperMotion::from_mu_alpha_star(MasYr::new(k.pma), MasYr::new(k.pmd));
                ensure!(set_proper_motion_since_j2000(pos(&k, 1.0), pm, jd).is_err(), "mu alpha star at the pole accepted");
                ensure!(propagate_space_motion(pos(&k, 1.0), motion(&k), jd, JulianDate::new(J2000)).is_err(), "space motion at the pole accepted");
                let pm = ProperMotion::from_mu_alpha(MasYr::new(k.pma), MasYr::new(k.pmd));
                let g = set_proper_motion_since_j2000(pos(&k, 1.0), pm, jd).map_err(|e| format!("{e}"))?;
                valid(&g)?;
            }
            1 => { k.plx = 0.0; ensure!(propagate_space_motion(pos(&k, 1.0), motion(&k), jd, JulianDate::new(J2000)).is_err(), "zero parallax accepted"); }
            _ => { k.plx = -k.plx; ensure!(propagate_space_motion(pos(&k, 1.0), motion(&k), jd, JulianDate::new(J2000)).is_err(), "negative parallax accepted"); }
        }
        Ok("refused")
    });
    // A catalogue star uses the rigorous model exactly when it has everything for it.
    c.prop("star_position_at", 20_000, || (cat(), -500.0f64..500.0, any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), logu(0.0, 4.0)), |(k, yr, has_plx, has_rv, has_pm, star, ly)| {
        let jd = J2000 + yr * 365.25;
        let dt = (jd - J2000) / 365.25;
        let cos = k.dec.to_radians().cos();
        // the declared rate on the chosen convention, for a motion of k.pma on the great circle
        let rate = if *star { k.pma } else { k.pma / cos };
        if rate.abs() > 1e7 { return Ok("-absurd rate"); }
        let pm = if *star { ProperMotion::from_mu_alpha_star(MasYr::new(rate), MasYr::new(k.pmd)) } else { ProperMotion::from_mu_alpha(MasYr::new(rate), MasYr::new(k.pmd)) };
        let p = position::EquatorialMeanJ2000::<LightYear>::new(Degrees::new(k.ra), Degrees::new(k.dec), *ly);
        let coord = if *has_pm { CoordinateWithPM::new(p, siderust::J2000, pm) } else { CoordinateWithPM::new_static(p, siderust::J2000) };
        let mut s = Star::new("s", LightYears::new(*ly), SolarMasses::new(1.0), Quantity::new(1.0), SolarLuminosities::new(1.0), coord);
        if *has_plx { s = s.with_parallax(MilliArcseconds::new(k.plx)); }
        if *has_rv { s = s.with_radial_velocity(Quantity::new(k.rv)); }
        let got = s.position_at(JulianDate::new(jd)).map_err(|e| format!("{e}"))?;
        valid(&got)?;
        ensure!(s.has_full_space_motion() == (*has_plx && *has_rv && *has_pm), "has_full_space_motion");
        let au_ly = 299_792.458 * 365.25 * 86400.0 / 149_597_870.7;
        let (want, label) = if *has_plx && *has_rv && *has_pm {
            let (p0, v) = state(k);
            (add(p0, scale(v, dt)), "rigorous")
        } else if *has_pm {
            (scale(sph((k.ra + k.pma / 3.6e6 * dt / cos).to_radians(), (k.dec + k.pmd / 3.6e6 * dt).to_radians()), ly * au_ly), "linear")
        } else {
            (scale(sph(k.ra.to_radians(), k.dec.to_radians()), ly * au_ly), "-fixed")
        };
        ensure!(angle(vec_of(&got), want) < tol(want) + 1e-12 + 1e-15 * ((got.ra().value() - k.ra).to_radians() + k.pma / 3.6e6 * dt / cos).abs() / cos, "{:?} parallax {} rv {} pm {}: {:?}, expected {:?} ({:e} rad)", k, has_plx, has_rv, has_pm, vec_of(&got), want, angle(vec_of(&got), want));
        ensure!((got.distance.value() / norm(want) - 1.0).abs() < 1e-12, "distance {} AU, expected {}", got.distance.value(), norm(want));
        Ok(label)
    });
    c.finish()
}
