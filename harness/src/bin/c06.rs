//! C06: aberration.
use proptest::prelude::*;
use siderust::astro::aberration::*;
use siderust::coordinates::cartesian::{self, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::observation::{Apparent, Astrometric, ObserverState};
use siderust::coordinates::spherical;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris};
use siderust::coordinates::transform::providers::frame_rotation;
use siderust::ephemeris::Ephemeris;
use siderust::qtty::*;
use siderust::JulianDate;
use vharness::frames::{eop_gen, set_eop, site_rotations, Ctx};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type EQ = EquatorialMeanJ2000;
type AuPerDay = Per<AstronomicalUnit, Day>;
/// c in AU/day from the defining constants.
const C: f64 = 299_792_458.0 * 86_400.0 / 149_597_870_700.0;

/// Relativistic aberration by the angle formulas, rotating in the plane of direction and velocity.
fn aberrate(u: V3, beta: V3) -> V3 {
    let b = norm(beta);
    if b == 0.0 { return u; }
    let n = scale(beta, 1.0 / b);
    let across = norm(cross(u, n));
    if across < 1e-13 { return u; }
    let th = across.atan2(dot(u, n));
    // tan(theta'/2) = sqrt((1-b)/(1+b)) tan(theta/2)
    let th2 = 2.0 * ((1.0 - b).sqrt() * (th / 2.0).sin()).atan2((1.0 + b).sqrt() * (th / 2.0).cos());
    let w = unit(sub(u, scale(n, dot(u, n))));
    add(scale(n, th2.cos()), scale(w, th2.sin()))
}
fn d3<F: ReferenceFrame>(d: &cartesian::Direction<F>) -> V3 { [d.x(), d.y(), d.z()] }
fn dir<F: ReferenceFrame>(v: V3) -> cartesian::Direction<F> { cartesian::Direction::<F>::new(v[0], v[1], v[2]) }
fn vel(v: V3) -> Velocity<EQ, AuPerDay> { Velocity::new(v[0], v[1], v[2]) }
/// Earth's barycentric velocity in the equatorial frame by differencing the ephemeris positions.
fn earth_vel(jd: f64) -> V3 {
    let p = |t: f64| { let q = DefaultEphemeris::earth_barycentric(JulianDate::new(t)); [q.x().value(), q.y().value(), q.z().value()] };
    let h = 0.125;
    let d = |k: f64| scale(sub(p(jd + k * h), p(jd - k * h)), 1.0 / (2.0 * k * h));
    let v = sub(scale(d(1.0), 4.0 / 3.0), scale(d(2.0), 1.0 / 3.0));
    let ctx: AstroContext = AstroContext::default();
    mv(frame_rotation::<EclipticMeanJ2000, EQ>(JulianDate::new(jd), &ctx).as_matrix(), v)
}

fn main() {
    let mut c = Check::new("C06", "direction x observer velocity up to 0.999 c (log-uniform speed, any orientation, incl. parallel and perpendicular) or epoch; non-trivial: velocity non-zero and not parallel to the direction");
    c.assume("Earth's velocity is compared with numerical differences of the library's own Earth position (C16 decides that position)");
    let speed = || prop_oneof![4 => logu(-7.0, -2.0), 2 => logu(-2.0, -0.0005), 1 => Just(0.999), 1 => Just(0.0)];
    c.prop("explicit_velocity", 60_000, move || (unit_vec(), unit_vec(), speed(), 0u8..8), |(u, n, b, mode)| {
        let n = match mode { 0 => *u, 1 => scale(*u, -1.0), 2 => { let w = cross(*u, *n); if norm(w) < 1e-3 { *n } else { unit(w) } } _ => *n };
        let beta = scale(n, *b);
        let g2 = 1.0 / (1.0 - b * b);
        let v = vel(scale(beta, C));
        let a = apply_aberration_to_direction_with_velocity(dir::<EQ>(*u), &v);
        let want = aberrate(*u, beta);
        let tol = 4e-15 * (1.0 + g2 * 4.0) ;
        ensure!((norm(d3(&a)) - 1.0).abs() < 1e-13, "not a unit vector: {:?}", d3(&a));
        ensure!(angle(d3(&a), want) <= tol, "direction {:?} with velocity {:?} c: got {:?}, expected {:?}, {:e} rad apart (tol {:e})", u, beta, d3(&a), want, angle(d3(&a), want), tol);
        let r = remove_aberration_from_direction_with_velocity(a, &v);
        ensure!(angle(d3(&r), *u) <= tol * (1.0 + 4.0 * g2.sqrt()), "removing aberration gives {:?} for {:?} (beta {:?})", d3(&r), u, beta);
        let r2 = apply_aberration_to_direction_with_velocity(remove_aberration_from_direction_with_velocity(dir::<EQ>(*u), &v), &v);
        ensure!(angle(d3(&r2), *u) <= tol * (1.0 + 4.0 * g2.sqrt()), "applying after removing gives {:?} for {:?} (beta {:?})", d3(&r2), u, beta);
        ensure!(angle(want, n) <= angle(*u, n) + tol, "reference broken");
        let sep = norm(cross(*u, n));
        Ok(if *b == 0.0 || sep < 1e-9 { "-unmoved" } else if *b > 0.1 { "relativistic" } else { "slow" })
    });
    c.prop("annual", 6_000, || (unit_vec(), jd_wide(), logu(-3.0, 9.0)), |(u, jd, r)| {
        let t = JulianDate::new(*jd);
        let v = earth_vel(*jd);
        ensure!(norm(v) > 0.0160 && norm(v) < 0.0181, "Earth's speed {} AU/day", norm(v));
        let want = aberrate(*u, scale(v, 1.0 / C));
        let a = apply_aberration_to_direction(dir::<EQ>(*u), t);
        // velocity by differences is good to ~1e-9 AU/day
        let tol = 2e-10;
        ensure!(angle(d3(&a), want) <= tol, "JD {}: {:?} -> {:?}, expected {:?} ({:e} rad)", jd, u, d3(&a), want, angle(d3(&a), want));
        let b = remove_aberration_from_direction(a, t);
        ensure!(angle(d3(&b), *u) <= 1e-14, "round trip {:?} -> {:?}", u, d3(&b));
        // positions keep their distance
        let p = cartesian::position::EquatorialMeanJ2000::<Kilometer, Geocentric>::new(u[0] * r, u[1] * r, u[2] * r);
        let q = apply_aberration(p, t);
        let q3 = [q.x().value(), q.y().value(), q.z().value()];
        ensure!((norm(q3) / r - 1.0).abs() < 1e-14 && angle(q3, want) <= tol, "position {:?} km -> {:?}", scale(*u, *r), q3);
        let s = remove_aberration(q, t);
        let s3 = [s.x().value(), s.y().value(), s.z().value()];
        ensure!(dist(s3, scale(*u, *r)) <= 1e-13 * r, "position round trip {:?} -> {:?}", scale(*u, *r), s3);
        let z = cartesian::position::EquatorialMeanJ2000::<Kilometer, Geocentric>::new(0.0, 0.0, 0.0);
        let z2 = apply_aberration(z, t);
        ensure!(z2.x().value() == 0.0 && z2.y().value() == 0.0 && z2.z().value() == 0.0, "the origin moved: {:?}", z2);
        let z3 = remove_aberration(z, t);
        ensure!(z3.x().value() == 0.0 && z3.y().value() == 0.0 && z3.z().value() == 0.0, "the origin moved: {:?}", z3);
        Ok("annual")
    });
    // Typed Astrometric <-> Apparent directions, in every frame that supports them.
    c.prop("typed_observation", 10_000, move || (unit_vec(), unit_vec(), speed(), jd_modern(), 0u8..3), |(u, n, b, jd, f)| {
        let t = JulianDate::new(*jd);
        let beta = scale(*n, *b);
        let g2 = 1.0 / (1.0 - b * b);
        let obs = ObserverState::from_velocity(vel(scale(beta, C)), t);
        ensure!(obs.jd() == t, "epoch lost");
        let ctx: AstroContext = AstroContext::default();
        macro_rules! go { ($f:ty) => {{
            let m = *frame_rotation::<$f, EQ>(t, &ctx).as_matrix();
            let want = mv(&mt(&m), aberrate(mv(&m, *u), beta));
            let tol = 1e-14 * (1.0 + g2 * 4.0);
            let a = Astrometric::new(dir::<$f>(*u)).to_apparent(&obs);
            ensure!(angle(d3(a.direction()), want) <= tol, "cartesian {}: {:?}, expected {:?}", stringify!($f), d3(a.direction()), want);
            let back = a.to_astrometric(&obs);
            ensure!(angle(d3(back.direction()), *u) <= tol * (1.0 + 4.0 * g2.sqrt()), "cartesian {}: back {:?} from {:?}", stringify!($f), d3(back.direction()), u);
            let sd = spherical::Direction::<$f>::from_cartesian(&dir::<$f>(*u));
            let sa: Apparent<spherical::Direction<$f>> = Astrometric::new(sd).to_apparent(&obs);
            // spherical forms lose up to 1e-8 rad next to the poles
            ensure!(angle(d3(&sa.direction().to_cartesian()), want) <= 5e-8 * (1.0 + g2), "spherical {}: {:?}, expected {:?}", stringify!($f), d3(&sa.direction().to_cartesian()), want);
            let sb = sa.to_astrometric(&obs);
            ensure!(angle(d3(&sb.direction().to_cartesian()), *u) <= 5e-8 * (1.0 + 4.0 * g2 * g2), "spherical {}: back {:?} from {:?}", stringify!($f), d3(&sb.direction().to_cartesian()), u);
        }} }
        match f { 0 => go!(ICRS), 1 => go!(EclipticMeanJ2000), _ => go!(EquatorialMeanJ2000) }
        Ok(if *b == 0.0 { "-still" } else { "observer" })
    });
    c.prop("observer_states", 4_000, || (jd_modern(), lon_deg(), lat_deg(), -500.0f64..9000.0, eop_gen()), |(jd, lon, lat, h, eop)| {
        let t = JulianDate::new(*jd);
        set_eop(*eop);
        let ctx: Ctx = Ctx::with_types();
        let g = ObserverState::geocentric(t);
        let gv = [g.velocity().x().value(), g.velocity().y().value(), g.velocity().z().value()];
        let want = earth_vel(*jd);
        ensure!(dist(gv, want) < 3e-8, "geocentric observer at JD {}: {:?} AU/day, expected {:?}", jd, gv, want);
        let site = Geodetic::<ECEF>::new(Degrees::new(*lon), Degrees::new(*lat), Meters::new(*h));
        let o = ObserverState::topocentric_with(&site, t, &ctx);
        let ov = [o.velocity().x().value(), o.velocity().y().value(), o.velocity().z().value()];
        let d = scale(sub(ov, gv), 149_597_870_700.0 / 86_400.0); // m/s
        let r = wgs84_ecef(lon.to_radians(), lat.to_radians(), *h);
        let w = 7.292115e-5;
        let vf = [-w * r[1], w * r[0], 0.0];
        let (good, bad) = site_rotations(t, &ctx);
        let (dg, db) = (dist(d, mv(&good, vf)), dist(d, mv(&bad, vf)));
        // 0.1 mm/s: the differences of two 30 km/s velocities carry ~1e-11 relative rounding
        ensure!(dg < 1e-4 || db < 1e-4, "diurnal velocity at JD {} lon {} lat {} h {}: {:?} m/s, expected {:?}", jd, lon, lat, h, d, mv(&good, vf));
        Ok(if lat.abs() == 90.0 { "-pole" } else { "site" })
    });
    c.prop("correction_policies", 20_000, || (0u8..32, 0u8..32, prop::collection::vec(0usize..4, 0..7)), |(a, b, hist)| {
        use siderust::astro::apparent::*;
        let bits = [1u8, 2, 4, 8];
        let make = |m: u8| (0..4).filter(|i| m & bits[*i] != 0).fold(CorrectionPolicy::GEOMETRIC, |p, i| p | CORRECTION_ORDER[i]);
        let whole = |m: u8| if m >= 16 { 15 } else { m };
        let of = |m: u8| if m >= 16 { CorrectionPolicy::APPARENT } else { make(m) };
        let (x, y) = (of(*a), of(*b));
        let (ma, mb) = (whole(*a), whole(*b));
        let named = [CorrectionPolicy::PROPER_MOTION, CorrectionPolicy::LIGHT_TIME, CorrectionPolicy::ABERRATION, CorrectionPolicy::LIGHT_DEFLECTION];
        ensure!(CORRECTION_ORDER == named, "the documented order is {:?}", CORRECTION_ORDER);
        for (k, n) in named.iter().enumerate() {
            ensure!(x.contains(*n) == (ma & bits[k] != 0), "{:?} contains {:?}: {}", x, n, x.contains(*n));
        }
        ensure!(x.contains(y) == (ma & mb == mb), "{:?} contains {:?}", x, y);
        let mut z = x;
        z |= y;
        ensure!(z == x.union(y) && z == (x | y) && z == make(ma | mb) && z.bits() == x.bits() | y.bits(), "union of {:?} and {:?}", x, y);
        ensure!((x == y) == (ma == mb) && CorrectionPolicy::default() == CorrectionPolicy::GEOMETRIC && CorrectionPolicy::GEOMETRIC.bits() == 0, "equality and default");
        ensure!(x.contains(CorrectionPolicy::GEOMETRIC) && make(15) == CorrectionPolicy::APPARENT, "extremes");
        let mut r = AppliedCorrections::from_request(x);
        ensure!(r.requested == x && r.applied == CorrectionPolicy::GEOMETRIC && r.light_time_iters == 0, "a fresh report says {:?}", r);
        let mut m = 0;
        for h in hist {
            r.record(named[*h]);
            m |= bits[*h];
            ensure!(r.requested == x && r.applied == make(m), "after recording {:?}: {:?}", named[*h], r);
        }
        Ok("policies")
    });
    c.known_finding(|| {
        set_eop([0.0; 5]);
        let ctx: Ctx = Ctx::with_types();
        let t = JulianDate::new(2460000.25);
        let site = Geodetic::<ECEF>::new(Degrees::new(0.0), Degrees::new(0.0), Meters::new(0.0));
        let o = ObserverState::topocentric_with(&site, t, &ctx);
        let g = ObserverState::geocentric(t);
        let d = [o.velocity().x().value() - g.velocity().x().value(), o.velocity().y().value() - g.velocity().y().value(), o.velocity().z().value() - g.velocity().z().value()];
        let (good, _) = site_rotations(t, &ctx);
        (angle(d, mv(&good, [0.0, 1.0, 0.0])) > 1e-6).then(|| "ObserverState::topocentric turns the diurnal velocity with the wrong sign of the Earth rotation angle (same defect as C09)".to_string())
    });
    c.finish()
}
