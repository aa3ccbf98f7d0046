//! C09: topocentric and horizontal transforms.
use proptest::prelude::*;
use siderust::astro::apparent::CorrectionPolicy;
use siderust::astro::earth_rotation::{jd_ut1_from_tt, jd_ut1_from_tt_eop};
use siderust::coordinates::cartesian::{self, Position};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::centers::position::to_topocentric::{to_topocentric_with, to_topocentric_with_ctx};
use siderust::coordinates::transform::centers::TransformCenter;
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::horizontal::{FromHorizontal, ToHorizontal, TopocentricEquatorialExt, TopocentricHorizontalExt};
use siderust::coordinates::transform::providers::frame_rotation_as;
use siderust::coordinates::transform::{DirectionAstroExt, Transform};
use siderust::astro::nutation::Iau2006A;
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::event::horizontal::*;
use siderust::qtty::*;
use siderust::JulianDate;
use vharness::frames::{eop_gen, set_eop, site_rotations, Ctx, TestEop, EOP};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

const AU: f64 = 149_597_870_700.0;
fn site(lon: f64, lat: f64, h: f64) -> Geodetic<ECEF> { Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h)) }
fn d3<F: ReferenceFrame>(d: &cartesian::Direction<F>) -> V3 { [d.x(), d.y(), d.z()] }
/// Greenwich apparent sidereal time.
fn gast(ut1: f64, tt: f64, dpsi: f64) -> f64 { gmst06(ut1, tt) + dpsi * obl06(tt).cos() + eect00(tt) }
/// x north, y east, z up components of an equator-of-date vector for local sidereal angle and latitude.
fn neu(v: V3, lst: f64, lat: f64) -> V3 { let (e, n, u) = enu(lst, lat); [dot(v, n), dot(v, e), dot(v, u)] }
fn un_neu(w: V3, lst: f64, lat: f64) -> V3 { let (e, n, u) = enu(lst, lat); add(scale(n, w[0]), add(scale(e, w[1]), scale(u, w[2]))) }
fn sphd<F: ReferenceFrame>(d: &spherical::Direction<F>) -> V3 { sph(d.azimuth.value().to_radians(), d.polar.value().to_radians()) }
fn height() -> impl Strategy<Value = f64> { prop_oneof![6 => -500.0f64..9000.0, 1 => Just(0.0), 1 => -11_000.0f64..500_000.0] }

/// The library's cartesian directions pass through degrees and asin near the poles.
const DTOL: f64 = 6e-8;

fn main() {
    let mut c = Check::new("C09", "site (any longitude, latitude incl. poles, heights -11 km..500 km) x epoch 1950-2100 x generated EOP x target (directions incl. poles and axes; distances from metres to 1e9 km); non-trivial: target not exactly at the site or the zenith");
    c.assume("UT1 is taken from the library's TT to UT1 conversion (decided by C05/C17), frame rotations by C01/C02");
    // 1) parallax shift in three frames and two units, both directions, all entry points
    c.prop("parallax", 12_000, || (unit_vec(), logu(-3.0, 12.0), (lon_deg(), lat_deg(), height()), jd_modern(), eop_gen(), 0u8..3), |(u, r, (lon, lat, h), jd, eop, f)| {
        set_eop(*eop);
        let ctx: Ctx = Ctx::with_types();
        let t = JulianDate::new(*jd);
        let (good, bad) = site_rotations(t, &ctx);
        let ecef = wgs84_ecef(lon.to_radians(), lat.to_radians(), *h);
        let s = site(*lon, *lat, *h);
        let target = scale(*u, *r);
        macro_rules! go { ($f:ty) => {{
            let m = *frame_rotation_as::<EquatorialMeanJ2000, $f, Iau2006A, _, _>(t, &ctx).as_matrix();
            let g = sub(target, mv(&m, mv(&good, ecef)));
            let b = sub(target, mv(&m, mv(&bad, ecef)));
            let p = Position::<Geocentric, $f, Meter>::new(target[0], target[1], target[2]);
            let q: Position<Topocentric, $f, Meter> = to_topocentric_with_ctx::<$f, Meter, Vsop87Ephemeris, TestEop, Iau2006A>(&p, s, t, &ctx);
            let q3 = [q.x().value(), q.y().value(), q.z().value()];
            let tol = 2e-7 + 4e-16 * r;
            ensure!(dist(q3, g) < tol || dist(q3, b) < tol, "{}: topocentric {:?} m, expected {:?} (off by {:e} m)", stringify!($f), q3, g, dist(q3, g));
            let ps = q.center_params();
            ensure!(ps.lon == s.lon && ps.lat == s.lat && ps.height == s.height, "the site is not kept: {:?}", ps);
            for (w, k) in [
                (to_topocentric_with(&p, s, t, &ctx), "to_topocentric_with"),
                (TransformCenter::<Topocentric, $f, Meter>::to_center_with(&p, s, t, &ctx), "to_center_with"),
                (TransformCenter::<Topocentric, $f, Meter>::to_center_as::<_, _, Iau2006A>(&p, s, t, &ctx), "to_center_as"),
            ] {
                ensure!(dist([w.x().value(), w.y().value(), w.z().value()], q3) <= tol, "{} gives {:?}, to_topocentric_with_ctx {:?}", k, w, q);
            }
            let back: Position<Geocentric, $f, Meter> = TransformCenter::<Geocentric, $f, Meter>::to_center_with(&q, (), t, &ctx);
            ensure!(dist([back.x().value(), back.y().value(), back.z().value()], target) < tol, "{}: back to the geocentre {:?}, started from {:?}", stringify!($f), back, target);
            let pa = Position::<Geocentric, $f, AstronomicalUnit>::new(target[0] / AU, target[1] / AU, target[2] / AU);
            let qa = to_topocentric_with(&pa, s, t, &ctx);
            let qa3 = scale([qa.x().value(), qa.y().value(), qa.z().value()], AU);
            ensure!(dist(qa3, q3) < 1e-6 + 1e-15 * r, "in AU {:?} m, in metres {:?}", qa3, q3);
        }} }
        match f { 0 => go!(EquatorialMeanJ2000), 1 => go!(EclipticMeanJ2000), _ => go!(ICRS) }
        Ok(if *r < 1.0 { "near geocentre" } else { "target" })
    });
    // 2) rigorous horizontal transform of true-of-date directions
    c.prop("true_of_date", 20_000, || (unit_vec(), (lon_deg(), lat_deg(), height()), jd_modern(), -0.9f64..0.9, logu(-6.0, 9.0)), |(u, (lon, lat, h), tt, d, r)| {
        let (jtt, ut1) = (JulianDate::new(*tt), *tt - (69.0 + d) / 86400.0);
        let jut = JulianDate::new(ut1);
        let s = site(*lon, *lat, *h);
        let (dpsi, _) = nut06a(*tt);
        let lst = gast(ut1, *tt, dpsi) + lon.to_radians();
        let want = neu(*u, lst, lat.to_radians());
        let dir = cartesian::Direction::<EquatorialTrueOfDate>::new(u[0], u[1], u[2]);
        let q = ToHorizontal::to_horizontal(&dir, &jut, &jtt, &s);
        ensure!(angle(d3(&q), want) < DTOL, "to_horizontal {:?}, expected north/east/up {:?} ({:e} rad)", d3(&q), want, angle(d3(&q), want));
        if want[2].abs() < 0.999 && u[2].abs() < 0.999 {
            ensure!(angle(d3(&q), want) < 3e-9, "to_horizontal {:?}, expected north/east/up {:?} ({:e} rad)", d3(&q), want, angle(d3(&q), want));
        }
        let q2 = dir.to_horizontal_precise(&jtt, &jut, &s);
        ensure!(dist(d3(&q), d3(&q2)) < 1e-15, "to_horizontal_precise {:?}, to_horizontal {:?}", d3(&q2), d3(&q));
        let b = q.to_equatorial(&jut, &jtt, &s);
        ensure!(angle(d3(&b), *u) < DTOL, "back to equatorial {:?}, started from {:?}", d3(&b), u);
        // the inverse from any horizontal direction
        let hd = cartesian::Direction::<Horizontal>::new(u[0], u[1], u[2]);
        let e = hd.to_equatorial(&jut, &jtt, &s);
        let we = un_neu(*u, lst, lat.to_radians());
        ensure!(angle(d3(&e), we) < DTOL, "to_equatorial {:?}, expected {:?} ({:e} rad)", d3(&e), we, angle(d3(&e), we));
        // positions keep site and distance
        let p = Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::new_with_params(s, u[0] * r, u[1] * r, u[2] * r);
        let hp = p.to_horizontal_position(&jut, &jtt);
        let h3 = [hp.x().value(), hp.y().value(), hp.z().value()];
        ensure!(angle(h3, want) < DTOL && (norm(h3) / r - 1.0).abs() < 1e-13, "position {:?} km, expected {:?}", h3, scale(want, *r));
        ensure!(hp.center_params().lat == s.lat && hp.center_params().lon == s.lon && hp.center_params().height == s.height, "site lost");
        let bp = hp.to_equatorial_position(&jut, &jtt);
        ensure!(dist([bp.x().value(), bp.y().value(), bp.z().value()], scale(*u, *r)) < 2.0 * DTOL * r, "position back {:?}, started from {:?}", bp, scale(*u, *r));
        ensure!(bp.center_params().lat == s.lat && bp.center_params().lon == s.lon && bp.center_params().height == s.height, "site lost");
        Ok(if want[2] > 0.9999999 { "-zenith" } else { "sky" })
    });
    c.prop("default_eop_direction", 2_000, || (unit_vec(), (lon_deg(), lat_deg()), jd_modern()), |(u, (lon, lat), tt)| {
        let jtt = JulianDate::new(*tt);
        let ctx: AstroContext = AstroContext::default();
        let ut1 = jd_ut1_from_tt_eop(jtt, &ctx.eop_at_tt(jtt)).value();
        let lst = gast(ut1, *tt, nut06a(*tt).0) + lon.to_radians();
        let dir = cartesian::Direction::<EquatorialTrueOfDate>::new(u[0], u[1], u[2]);
        let q = DirectionAstroExt::to_horizontal(&dir, &jtt, &site(*lon, *lat, 0.0));
        let want = neu(*u, lst, lat.to_radians());
        ensure!(angle(d3(&q), want) < DTOL, "to_horizontal {:?}, expected {:?}", d3(&q), want);
        Ok("direction")
    });
    // 3) mean-of-date Transform
    c.prop("mean_of_date", 20_000, || (unit_vec(), (lon_deg(), lat_deg(), height()), jd_modern(), logu(-6.0, 9.0)), |(u, (lon, lat, h), tt, r)| {
        let t = JulianDate::new(*tt);
        let s = site(*lon, *lat, *h);
        let lst = gmst06(jd_ut1_from_tt(t).value(), *tt) + lon.to_radians();
        let want = scale(neu(*u, lst, lat.to_radians()), *r);
        let v = scale(*u, *r);
        let p = Position::<Topocentric, EquatorialMeanOfDate, AstronomicalUnit>::new_with_params(s, v[0], v[1], v[2]);
        let q: Position<Topocentric, Horizontal, AstronomicalUnit> = p.transform(t);
        let q3 = [q.x().value(), q.y().value(), q.z().value()];
        ensure!(dist(q3, want) < 3e-9 * r, "horizontal {:?}, expected north/east/up {:?} (relative {:e})", q3, want, dist(q3, want) / r);
        let b: Position<Topocentric, EquatorialMeanOfDate, AstronomicalUnit> = q.transform(t);
        ensure!(dist([b.x().value(), b.y().value(), b.z().value()], v) < 1e-14 * r, "round trip {:?} from {:?}", b, v);
        let hp = Position::<Topocentric, Horizontal, AstronomicalUnit>::new_with_params(s, v[0], v[1], v[2]);
        let e: Position<Topocentric, EquatorialMeanOfDate, AstronomicalUnit> = hp.transform(t);
        let we = scale(un_neu(*u, lst, lat.to_radians()), *r);
        ensure!(dist([e.x().value(), e.y().value(), e.z().value()], we) < 3e-9 * r, "equatorial {:?}, expected {:?}", e, we);
        ensure!(e.center_params().height == s.height && b.center_params().lon == s.lon, "site lost");
        // spherical forms: the printed azimuth and altitude are the ones of the vector
        let sp = spherical::Position::<Topocentric, EquatorialMeanOfDate, AstronomicalUnit>::from_cartesian(&p);
        let sq: spherical::Position<Topocentric, Horizontal, AstronomicalUnit> = sp.transform(t);
        let w = scale(sph(sq.azimuth.value().to_radians(), sq.polar.value().to_radians()), sq.distance.value());
        ensure!(dist(w, want) < 2.0 * DTOL * r, "spherical horizontal az {} alt {} distance {}, expected vector {:?}", sq.azimuth.value(), sq.polar.value(), sq.distance.value(), want);
        let sb: spherical::Position<Topocentric, EquatorialMeanOfDate, AstronomicalUnit> = sq.transform(t);
        let w = scale(sph(sb.azimuth.value().to_radians(), sb.polar.value().to_radians()), sb.distance.value());
        ensure!(dist(w, v) < 3.0 * DTOL * r, "spherical round trip {:?} from {:?}", w, v);
        Ok("mean of date")
    });
    // 4) shared helpers of the event engines
    c.prop("event_helpers", 8_000, || (unit_vec(), logu(0.0, 9.0), (lon_deg(), lat_deg(), height()), jd_modern(), eop_gen()), |(u, r, (lon, lat, h), tt, eop)| {
        set_eop(*eop);
        let t = JulianDate::new(*tt);
        let ctx: Ctx = Ctx::with_types();
        let s = site(*lon, *lat, *h);
        // equatorial true of date to horizontal, with the context's UT1
        let dec = u[2].clamp(-1.0, 1.0).asin();
        let ra = u[1].atan2(u[0]).rem_euclid(std::f64::consts::TAU);
        let p = spherical::Position::<Topocentric, EquatorialTrueOfDate, Kilometer>::new_unchecked_with_params(s, Degrees::new(dec.to_degrees()), Degrees::new(ra.to_degrees()), Kilometers::new(*r));
        let q = equatorial_to_horizontal_true_of_date_with_ctx(&p, s, t, &ctx);
        let ut1 = jd_ut1_from_tt_eop(t, &EOP.with(|e| e.get()).unwrap()).value();
        let lst = gast(ut1, *tt, nut06a(*tt).0) + lon.to_radians();
        let want = neu(sph(ra, dec), lst, lat.to_radians());
        let got = sph(q.azimuth.value().to_radians(), q.polar.value().to_radians());
        ensure!(angle(got, want) < 5e-9, "az {} alt {}, expected {:?} ({:e} rad)", q.azimuth.value(), q.polar.value(), want, angle(got, want));
        ensure!((0.0..360.0 + 1e-9).contains(&q.azimuth.value()) && q.polar.value().abs() <= 90.0, "az {} alt {} out of range", q.azimuth.value(), q.polar.value());
        ensure!(close(q.distance.value(), *r, 0.0, 1e-14), "distance changed");
        // apparent topocentric place
        let m0 = scale(*u, 7.0e3 + *r);
        let g = Position::<Geocentric, EquatorialMeanJ2000, Kilometer>::new(m0[0], m0[1], m0[2]);
        let a = geocentric_j2000_to_apparent_topocentric_with_ctx(&g, s, t, &ctx);
        let (good, bad) = site_rotations(t, &ctx);
        let ecef = scale(wgs84_ecef(lon.to_radians(), lat.to_radians(), *h), 1e-3);
        let (dp, de) = nut06a(*tt);
        // of-date axes without the frame bias (17-25 mas): the library's mean J2000 axes may or may not carry it
        let m = npb(*tt, dp, de);
        let got = scale(sph(a.azimuth.value().to_radians(), a.polar.value().to_radians()), a.distance.value());
        let (wg, wb) = (mv(&m, sub(m0, mv(&good, ecef))), mv(&m, sub(m0, mv(&bad, ecef))));
        let tol = 2e-7;
        ensure!(dist(got, wg) < tol * norm(wg) + 1e-8 || dist(got, wb) < tol * norm(wb) + 1e-8, "apparent topocentric {:?} km, expected {:?} ({:e} relative)", got, wg, dist(got, wg) / norm(wg));
        Ok("helper")
    });
    c.prop("stars", 10_000, || (unit_vec(), (lon_deg(), lat_deg(), height()), jd_modern()), |(u, (lon, lat, h), tt)| {
        let t = JulianDate::new(*tt);
        let s = site(*lon, *lat, *h);
        let dec = u[2].clamp(-1.0, 1.0).asin();
        let ra = u[1].atan2(u[0]).rem_euclid(std::f64::consts::TAU);
        let ctx: AstroContext = AstroContext::default();
        let ut1 = jd_ut1_from_tt_eop(t, &ctx.eop_at_tt(t)).value();
        let (dp, de) = nut00b(*tt);
        let lst = gast(ut1, *tt, dp) + lon.to_radians();
        let (a, b) = (star_horizontal(Degrees::new(ra.to_degrees()), Degrees::new(dec.to_degrees()), &s, t), star_horizontal_with_policy(Degrees::new(ra.to_degrees()), Degrees::new(dec.to_degrees()), &s, t, CorrectionPolicy::GEOMETRIC));
        let v = sph(ra, dec);
        let want = neu(mv(&npb(*tt, dp, de), v), lst, lat.to_radians());
        ensure!(angle(sphd(&a), want) < 2e-7, "apparent star az {} alt {}, expected {:?} ({:e} rad)", a.azimuth.value(), a.polar.value(), want, angle(sphd(&a), want));
        let want = neu(v, lst, lat.to_radians());
        ensure!(angle(sphd(&b), want) < 1e-8, "geometric star az {} alt {}, expected {:?} ({:e} rad)", b.azimuth.value(), b.polar.value(), want, angle(sphd(&b), want));
        Ok("star")
    });
    c.known_finding(|| {
        set_eop([0.0; 5]);
        let ctx: Ctx = Ctx::with_types();
        let t = JulianDate::new(2460000.25);
        let p = Position::<Geocentric, EquatorialMeanJ2000, Meter>::new(0.0, 0.0, 0.0);
        let q = to_topocentric_with(&p, site(0.0, 0.0, 0.0), t, &ctx);
        let (good, _) = site_rotations(t, &ctx);
        (angle([q.x().value(), q.y().value(), q.z().value()], mv(&good, [-1.0, 0.0, 0.0])) > 1e-6).then(|| "to_topocentric puts the observer at the wrong place: the Earth rotation angle enters itrs_to_equatorial_mean_j2000_rotation with the wrong sign".to_string())
    });
    c.finish()
}
