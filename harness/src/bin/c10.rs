//! C10: azimuth conventions, ecliptic of date, spherical/Cartesian forms.
use siderust::coordinates::cartesian::{self, Position};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::horizontal::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::ecliptic_of_date::{FromEclipticTrueOfDate, ToEclipticTrueOfDate};
use siderust::astro::precession;
use siderust::qtty::*;
use siderust::JulianDate;
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

const ORIGINS: [AzimuthOrigin; 4] = [AzimuthOrigin::North, AzimuthOrigin::South, AzimuthOrigin::East, AzimuthOrigin::West];
fn conv(k: u8) -> HorizontalConvention { HorizontalConvention::new(ORIGINS[(k % 4) as usize], if k < 4 { AzimuthSense::Clockwise } else { AzimuthSense::CounterClockwise }) }
/// Unit vector (north, east) named by azimuth `a` (degrees) in a convention: start at the origin's
/// compass point and turn in the sense.
fn compass(a: f64, k: u8) -> [f64; 2] {
    let o: [f64; 2] = [[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]][(k % 4) as usize];
    // clockwise seen from above: north -> east
    let q = if k < 4 { [-o[1], o[0]] } else { [o[1], -o[0]] };
    let (s, c) = a.rem_euclid(360.0).to_radians().sin_cos();
    [o[0] * c + q[0] * s, o[1] * c + q[1] * s]
}
fn d3<F: ReferenceFrame>(d: &cartesian::Direction<F>) -> V3 { [d.x(), d.y(), d.z()] }
const DTOL: f64 = 6e-8;

fn main() {
    let mut c = Check::new("C10", "azimuth (several turns, cardinal angles and neighbours) x every pair of the 8 conventions x altitude x distance; directions incl. poles x epoch 1600-2400; non-trivial: the two conventions differ, or a direction that is not an axis");
    c.prop("azimuth_conventions", 60_000, || (any_deg(), 0u8..8, 0u8..8, 0u8..8, -90.0f64..=90.0, logu(-6.0, 12.0), (lon_deg(), lat_deg(), -100.0f64..5000.0)), |(a, f, t, m, alt, r, (lon, lat, h))| {
        let (cf, ct, cm) = (conv(*f), conv(*t), conv(*m));
        let b = convert_azimuth(Degrees::new(*a), &cf, &ct).value();
        ensure!((0.0..360.0).contains(&b), "azimuth {} not in [0, 360)", b);
        let (p, q) = (compass(*a, *f), compass(b, *t));
        ensure!((p[0] - q[0]).hypot(p[1] - q[1]) < 1e-13 + 1e-15 * a.abs(), "{} {} becomes {} {}: another point of the horizon", a, cf, b, ct);
        let back = convert_azimuth(Degrees::new(b), &ct, &cf).value();
        ensure!(adiff_deg(back, *a) < 1e-12 + 1e-15 * a.abs(), "round trip {} -> {} -> {}", a, b, back);
        let via = convert_azimuth(convert_azimuth(Degrees::new(*a), &cf, &cm), &cm, &ct).value();
        ensure!(adiff_deg(via, b) < 1e-12 + 1e-15 * a.abs(), "via {}: {} instead of {}", cm, via, b);
        let (ns, fs) = (flip_north_south(Degrees::new(*a)).value(), flip_sense(Degrees::new(*a)).value());
        ensure!((0.0..360.0).contains(&ns) && adiff_deg(ns, a + 180.0) < 1e-12 + 1e-15 * a.abs(), "flip_north_south({}) = {}", a, ns);
        ensure!((0.0..360.0).contains(&fs) && adiff_deg(fs, -a) < 1e-12 + 1e-15 * a.abs(), "flip_sense({}) = {}", a, fs);
        // typed directions and positions
        let az0 = a.rem_euclid(360.0);
        let dir = spherical::Direction::<Horizontal>::new_unchecked(Degrees::new(*alt), Degrees::new(az0));
        let nat = convert_azimuth(Degrees::new(az0), &cf, &HorizontalConvention::NORTH_CLOCKWISE).value();
        let to = convert_azimuth(Degrees::new(az0), &cf, &ct).value();
        let fnat = convert_azimuth(Degrees::new(az0), &HorizontalConvention::NORTH_CLOCKWISE, &ct).value();
        let site = Geodetic::<ECEF>::new(Degrees::new(*lon), Degrees::new(*lat), Meters::new(*h));
        let pos = spherical::Position::<Topocentric, Horizontal, Kilometer>::new_unchecked_with_params(site, Degrees::new(*alt), Degrees::new(az0), Kilometers::new(*r));
        for (d, p, w, k) in [
            (direction_to_native(&dir, &cf), position_to_native(&pos, &cf), nat, "to_native"),
            (direction_from_native(&dir, &ct), position_from_native(&pos, &ct), fnat, "from_native"),
            (convert_direction(&dir, &cf, &ct), convert_position(&pos, &cf, &ct), to, "convert"),
        ] {
            ensure!(adiff_deg(d.azimuth.value(), w) < 1e-12 && (d.polar.value() - alt).abs() < 1e-13, "direction {}: az {} alt {}, expected az {} alt {}", k, d.azimuth.value(), d.polar.value(), w, alt);
            ensure!(adiff_deg(p.azimuth.value(), w) < 1e-12 && p.polar.value() == *alt && p.distance.value() == *r, "position {}: {:?}, expected az {} alt {} r {}", k, p, w, alt, r);
            let s = p.center_params();
            ensure!(s.lon == site.lon && s.lat == site.lat && s.height == site.height, "position {}: the site changed", k);
        }
        Ok(if f == t { "-same" } else if (f < &4) != (t < &4) { "sense differs" } else { "origin differs" })
    });
    c.prop("ecliptic_of_date", 20_000, || (unit_vec(), jd_wide()), |(u, jd)| {
        let t = JulianDate::new(*jd);
        let eq2ecl = r1(obl06(*jd));
        let icrs2ecl = mm(&eq2ecl, &pmat06(*jd));
        for (m, w, k) in [(precession::mean_equatorial_to_ecliptic_of_date_matrix(t), eq2ecl, "mean equatorial -> ecliptic of date"), (precession::gcrs_to_ecliptic_of_date_matrix(t), icrs2ecl, "GCRS -> ecliptic of date")] {
            ensure!(mdiff(m.as_matrix(), &w) < 1e-12, "{} at JD {}: {:?}, expected {:?}", k, jd, m.as_matrix(), w);
        }
        macro_rules! go { ($f:ty, $m:expr) => {{
            let e = cartesian::Direction::<$f>::new(u[0], u[1], u[2]).to_ecliptic_of_date(&t);
            let want = mv($m, *u);
            let ext = siderust::coordinates::transform::DirectionAstroExt::to_ecliptic_of_date(&cartesian::Direction::<$f>::new(u[0], u[1], u[2]), &t);
            ensure!(angle(d3(&ext), want) < DTOL && angle(d3(&ext), d3(&e)) < 1e-9, "{} (extension trait): {:?}, expected {:?}", stringify!($f), d3(&ext), want);
            ensure!(angle(d3(&e), want) < DTOL, "{}: {:?}, expected {:?}", stringify!($f), d3(&e), want);
            if u[2].abs() < 0.99 && want[2].abs() < 0.99 { ensure!(angle(d3(&e), want) < 2e-12, "{}: {:?}, expected {:?} ({:e} rad)", stringify!($f), d3(&e), want, angle(d3(&e), want)); }
            e
        }} }
        let e1 = go!(EquatorialMeanOfDate, &eq2ecl);
        let e2 = go!(ICRS, &icrs2ecl);
        let _ = go!(GCRS, &icrs2ecl);
        ensure!(angle(d3(&e1.to_equatorial_mean_of_date(&t)), *u) < 2.0 * DTOL, "round trip through mean equatorial: {:?} from {:?}", d3(&e1.to_equatorial_mean_of_date(&t)), u);
        ensure!(angle(d3(&FromEclipticTrueOfDate::to_icrs(&e2, &t)), *u) < 2.0 * DTOL, "round trip through ICRS: {:?} from {:?}", d3(&FromEclipticTrueOfDate::to_icrs(&e2, &t)), u);
        let d = cartesian::Direction::<EclipticTrueOfDate>::new(u[0], u[1], u[2]);
        for (g, w, k) in [(d3(&d.to_equatorial_mean_of_date(&t)), mv(&mt(&eq2ecl), *u), "to mean equatorial"), (d3(&FromEclipticTrueOfDate::to_icrs(&d, &t)), mv(&mt(&icrs2ecl), *u), "to ICRS")] {
            ensure!(angle(g, w) < DTOL, "{}: {:?}, expected {:?}", k, g, w);
            if u[2].abs() < 0.99 && w[2].abs() < 0.99 { ensure!(angle(g, w) < 2e-12, "{}: {:?}, expected {:?}", k, g, w); }
        }
        Ok(if u.iter().filter(|x| **x == 0.0).count() == 2 { "-axis" } else { "direction" })
    });
    // next to the poles of the ecliptic, where rounding can push |sin latitude| past 1
    c.prop("ecliptic_poles", 20_000, || (jd_wide(), proptest::bool::ANY, proptest::prop_oneof![proptest::strategy::Just(0.0), logu(-17.0, -6.0)], 0.0f64..TAU), |&(jd, north, off, phi)| {
        let t = JulianDate::new(jd);
        let e = [off * phi.cos(), off * phi.sin(), if north { 1.0 } else { -1.0 }];
        let eq2ecl = r1(obl06(jd));
        let icrs2ecl = mm(&eq2ecl, &pmat06(jd));
        macro_rules! go { ($f:ty, $m:expr, $back:expr) => {{
            let u = mv(&mt($m), e);
            let d = cartesian::Direction::<$f>::new(u[0], u[1], u[2]);
            let q = d.to_ecliptic_of_date(&t);
            ensure!(angle(d3(&q), e) < DTOL, concat!(stringify!($f), ": {:?}, expected {:?}"), d3(&q), e);
            let w = mv($m, e);
            let d = cartesian::Direction::<EclipticTrueOfDate>::new(w[0], w[1], w[2]);
            let b = $back(&d);
            ensure!(angle(b, e) < DTOL, concat!(stringify!($f), " from the ecliptic: {:?}, expected {:?}"), b, e);
        }} }
        go!(EquatorialMeanOfDate, &eq2ecl, |d: &cartesian::Direction<EclipticTrueOfDate>| d3(&d.to_equatorial_mean_of_date(&t)));
        go!(ICRS, &icrs2ecl, |d: &cartesian::Direction<EclipticTrueOfDate>| d3(&FromEclipticTrueOfDate::to_icrs(d, &t)));
        go!(GCRS, &icrs2ecl, |d: &cartesian::Direction<EclipticTrueOfDate>| d3(&FromEclipticTrueOfDate::to_icrs(d, &t)));
        Ok(if off == 0.0 { "pole" } else { "next to the pole" })
    });
    // true ecliptic of date (expert matrix): mean ecliptic with the equinox moved by nutation
    c.prop("true_ecliptic_matrix", 3_000, || jd_wide(), |jd| {
        let t = JulianDate::new(*jd);
        let (dp, de) = nut00b(*jd);
        let m = precession::gcrs_to_true_ecliptic_of_date_matrix(t);
        // the mean ecliptic with longitudes counted from the true equinox
        let want = mm(&r3(-dp), &mm(&r1(obl06(*jd)), &pmat06(*jd)));
        ensure!(mdiff(m.as_matrix(), &want) < 1e-12, "JD {}: {:?}, expected {:?}", jd, m.as_matrix(), want);
        for (a, b, k) in [(m, precession::true_ecliptic_of_date_to_gcrs_matrix(t), "true ecliptic"), (precession::gcrs_to_ecliptic_of_date_matrix(t), precession::ecliptic_of_date_to_gcrs_matrix(t), "mean ecliptic"), (precession::mean_equatorial_to_ecliptic_of_date_matrix(t), precession::ecliptic_of_date_to_mean_equatorial_matrix(t), "ecliptic of date")] {
            ensure!(mdiff(&mm(a.as_matrix(), b.as_matrix()), &ID3) < 1e-14, "{} at JD {}: the inverse matrix is not the inverse", k, jd);
        }
        let _ = de;
        Ok("matrix")
    });
    // spherical <-> Cartesian of directions and positions in several typed frames and centers
    c.prop("spherical_cartesian", 40_000, || (unit_vec(), logu(-9.0, 12.0), any_deg(), -90.0f64..=90.0), |(u, r, az, pol)| {
        macro_rules! go { ($c:ty, $f:ty) => {{
            let p = Position::<$c, $f, Kilometer>::new(u[0] * r, u[1] * r, u[2] * r);
            let s = p.to_spherical();
            let s2 = spherical::Position::<$c, $f, Kilometer>::from_cartesian(&p);
            ensure!(s.azimuth == s2.azimuth && s.polar == s2.polar && s.distance == s2.distance, "to_spherical and from_cartesian differ");
            ensure!(close(s.distance.value(), *r, 0.0, 1e-13), "distance {} of {:?}, expected {}", s.distance.value(), p, r);
            ensure!(s.polar.value().abs() <= 90.0 && (-180.0..360.0 + 1e-9).contains(&s.azimuth.value()), "angles out of range: {:?}", s);
            let w = sph(s.azimuth.value().to_radians(), s.polar.value().to_radians());
            ensure!(angle(w, *u) < DTOL, "spherical {:?} of {:?}", s, u);
            let b = s.to_cartesian();
            ensure!(dist([b.x().value(), b.y().value(), b.z().value()], scale(*u, *r)) < DTOL * r, "round trip {:?} from {:?}", b, p);
            let q = spherical::Position::<$c, $f, Kilometer>::new(Degrees::new(*pol), Degrees::new(*az), Kilometers::new(*r));
            let v = Position::<$c, $f, Kilometer>::from_spherical(&q);
            let w = scale(sph(q.azimuth.value().to_radians(), q.polar.value().to_radians()), *r);
            ensure!(dist([v.x().value(), v.y().value(), v.z().value()], w) < 1e-14 * r, "from_spherical({:?}) = {:?}, expected {:?}", q, v, w);
        }} }
        go!(Geocentric, EquatorialMeanJ2000);
        go!(Heliocentric, EclipticMeanJ2000);
        go!(Barycentric, ICRS);
        macro_rules! dirs { ($f:ty) => {{
            let d = spherical::Direction::<$f>::new_unchecked(Degrees::new(*pol), Degrees::new(az.rem_euclid(360.0)));
            let v = d.to_cartesian();
            let w = sph(az.rem_euclid(360.0).to_radians(), pol.to_radians());
            ensure!(dist(d3(&v), w) < 1e-14, "direction {} {} -> {:?}, expected {:?}", az, pol, d3(&v), w);
            let b = v.to_spherical();
            let bw = sph(b.azimuth.value().to_radians(), b.polar.value().to_radians());
            ensure!(angle(bw, w) < DTOL, "direction back {:?} from {} {}", b, az, pol);
        }} }
        dirs!(ICRS); dirs!(EclipticMeanJ2000); dirs!(Horizontal); dirs!(Galactic);
        Ok(if u.iter().filter(|x| **x == 0.0).count() == 2 { "-axis" } else { "point" })
    });
    c.finish()
}
