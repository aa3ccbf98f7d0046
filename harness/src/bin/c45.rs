//! C45: coordinate samples, tracking, aircraft dead reckoning, body builders and preset bodies.
use proptest::prelude::*;
use siderust::astro::orbit::KeplerianOrbit;
use siderust::astro::proper_motion::ProperMotion;
use siderust::bodies::aircraft::{Aircraft, AircraftState, AircraftTrack, MetersPerSecond, WakeCategory};
use siderust::bodies::asteroid::{Asteroid, AsteroidClass};
use siderust::bodies::comet::{Comet, OrbitFrame};
use siderust::bodies::planets::{OrbitExt, Planet, PlanetBuilderError};
use siderust::bodies::{solar_system as ss, Satellite, Star};
use siderust::coordinates::cartesian::Position;
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::Transform;
use siderust::qtty::*;
use siderust::targets::{CoordinateWithPM, Trackable};
use siderust::JulianDate;
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type Au = AstronomicalUnit;
type MasYr = Quantity<Per<MilliArcsecond, Year>>;
fn jd(x: f64) -> JulianDate { JulianDate::new(x) }
fn p3<C: ReferenceCenter, F: ReferenceFrame, U: LengthUnit>(p: &Position<C, F, U>) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }
fn s3<C: ReferenceCenter, F: ReferenceFrame, U: LengthUnit>(p: &spherical::Position<C, F, U>) -> V3 { scale(sph(p.azimuth.value().to_radians(), p.polar.value().to_radians()), p.distance.value()) }
fn motion() -> impl Strategy<Value = Option<ProperMotion>> { proptest::option::of((-2000.0f64..2000.0, -2000.0f64..2000.0, any::<bool>()).prop_map(|(a, d, s)| if s { ProperMotion::from_mu_alpha_star(MasYr::new(a), MasYr::new(d)) } else { ProperMotion::from_mu_alpha(MasYr::new(a), MasYr::new(d)) })) }
fn same_pm(a: Option<&ProperMotion>, b: Option<&ProperMotion>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.pm_ra == b.pm_ra && a.pm_dec == b.pm_dec && a.ra_convention == b.ra_convention, _ => false } }
fn deg(x: f64) -> Degrees { Degrees::new(x) }
fn orbit() -> impl Strategy<Value = KeplerianOrbit> { (logu(-1.0, 2.0), 0.0f64..0.97, 0.0f64..180.0, 0.0f64..360.0, 0.0f64..360.0, 0.0f64..360.0, jd_modern()).prop_map(|(a, e, i, n, w, m, t)| KeplerianOrbit::new(AstronomicalUnits::new(a), e, deg(i), deg(n), deg(w), deg(m), jd(t))) }
fn same_orbit(a: &KeplerianOrbit, b: &KeplerianOrbit) -> bool { format!("{a:?}") == format!("{b:?}") }

/// The Moon preset's semi-major axis is a thousand times too small and pinned by tests/test_bodies.rs.
fn moon_axis_km() -> f64 { ss::MOON.orbit.shape().semi_major_axis().to::<Kilometer>().value() }
/// Moons: parent mass (GM, km3/s2) and sidereal period (days).
const MOONS: [(&str, f64, f64); 7] = [("Moon", 403_503.2, 27.321_661), ("Io", 1.266_865e8, 1.769_138), ("Europa", 1.266_865e8, 3.551_181), ("Ganymede", 1.266_865e8, 7.154_553), ("Callisto", 1.266_865e8, 16.689_017), ("Titan", 3.793_119e7, 15.945_42), ("Triton", 6.836_53e6, 5.876_854)];

fn main() {
    let mut c = Check::new("C45", "samples that are moved, updated or tracked; bodies with every field set");
    c.assume("the VSOP87 and ELP series themselves are decided by C13 and C14, frame rotations by C01 and C02");

    c.prop("samples keep what they are given; updates change position and epoch only", 30_000, || (unit_vec(), logu(-3.0, 6.0), jd_wide(), motion(), proptest::collection::vec((unit_vec(), logu(-3.0, 6.0), jd_wide()), 0..6), 0u8..3), |(u, r, t, m, ups, how)| {
        let pos = |u: &V3, r: f64| Position::<Heliocentric, EclipticMeanJ2000, Au>::new(u[0] * r, u[1] * r, u[2] * r);
        let (how, m) = match (how, m) { (0, None) => (1, None), (1, Some(_)) => (0, m.clone()), _ => (*how, m.clone()) };
        let mut s = match how { 0 => CoordinateWithPM::new(pos(u, *r), jd(*t), m.clone().unwrap()), 1 => CoordinateWithPM::new_static(pos(u, *r), jd(*t)), _ => CoordinateWithPM::new_raw(pos(u, *r), jd(*t), m.clone()) };
        let mut want = (*u, *r, *t);
        for k in 0..=ups.len() {
            ensure!(p3(s.get_position()) == scale(want.0, want.1) && p3(&s.position) == scale(want.0, want.1), "position {:?}, given {:?}", s.get_position(), scale(want.0, want.1));
            ensure!(*s.get_time() == jd(want.2) && s.time == jd(want.2), "epoch {:?}, given {}", s.get_time(), want.2);
            ensure!(same_pm(s.get_proper_motion(), m.as_ref()) && same_pm(s.proper_motion.as_ref(), m.as_ref()), "motion {:?}, given {m:?}", s.get_proper_motion());
            ensure!(p3(&s.track(jd(want.2 + 1e4))) == scale(want.0, want.1), "tracking moved a stored sample");
            let before = s.clone();
            if let Some(x) = ups.get(k) { np("update", || s.update(pos(&x.0, x.1), jd(x.2)))?; want = *x; ensure!(p3(&before.position) != p3(&s.position) || before.time == s.time, "clone follows its original") }
        }
        Ok(if ups.is_empty() { "-constructed" } else { "updated" })
    });

    c.prop("conversions move the position at the stored epoch and keep the rest", 20_000, || (unit_vec(), logu(-2.5, 6.0), jd_modern(), motion(), any::<bool>()), |(u, r, t, m, near)| {
        let v = scale(*u, *r);
        let (earth, sun) = (p3(&ss::Earth::vsop87e(jd(*t))), p3(&ss::Sun::vsop87e(jd(*t))));
        let eps = 84_381.406 * AS2R;
        let v = if *near { add(v, earth) } else { v };
        let tol = 1e-12 * (1.0 + norm(v));
        let keep = |what: &str, t2: JulianDate, m2: Option<&ProperMotion>| -> Result<(), String> { ensure!(t2 == jd(*t), "{what}: epoch becomes {t2:?}"); ensure!(same_pm(m2, m.as_ref()), "{what}: motion becomes {m2:?}"); Ok(()) };
        // Barycentric ecliptic to geocentric and heliocentric, ecliptic and equatorial of J2000.
        let b = CoordinateWithPM::new_raw(Position::<Barycentric, EclipticMeanJ2000, Au>::new(v[0], v[1], v[2]), jd(*t), m.clone());
        let g: CoordinateWithPM<Position<Geocentric, EquatorialMeanJ2000, Au>> = np("From", || (&b).into())?;
        keep("geocentric equatorial", g.time, g.proper_motion.as_ref())?;
        let want = mv(&r1(-eps), sub(v, earth));
        ensure!(dist(p3(&g.position), want) <= tol + 3e-10 * norm(v), "geocentric equatorial {:?}, expected {want:?}", g.position);
        // The same through the transforms themselves, centre first.
        let gc: Position<Geocentric, EclipticMeanJ2000, Au> = b.position.transform(jd(*t)); let gq: Position<Geocentric, EquatorialMeanJ2000, Au> = gc.transform(jd(*t));
        ensure!(dist(p3(&g.position), p3(&gq)) <= 10.0 * tol, "centre first gives {gq:?}, the sample {:?}", g.position);
        let h: CoordinateWithPM<Position<Heliocentric, ICRS, Au>> = np("From", || (&b).into())?;
        keep("heliocentric ICRS", h.time, h.proper_motion.as_ref())?;
        let hc: Position<Heliocentric, EclipticMeanJ2000, Au> = b.position.transform(jd(*t)); let hq: Position<Heliocentric, ICRS, Au> = hc.transform(jd(*t));
        ensure!(dist(p3(&h.position), p3(&hq)) <= 10.0 * tol, "centre first gives {hq:?}, the sample {:?}", h.position);
        ensure!(dist(p3(&h.position), mv(&r1(-eps), sub(v, sun))) <= tol + 2e-7 * (norm(v) + 1.0), "heliocentric ICRS {:?}", h.position);
        // Frame of date: the stored epoch decides.
        let d: CoordinateWithPM<Position<Geocentric, EquatorialMeanOfDate, Au>> = np("From", || (&g).into())?;
        keep("mean equator of date", d.time, d.proper_motion.as_ref())?;
        let dq: Position<Geocentric, EquatorialMeanOfDate, Au> = g.position.transform(jd(*t));
        ensure!(dist(p3(&d.position), mv(&pmat06(*t), p3(&g.position))) <= 3e-7 * (norm(v) + 1.0), "of date {:?} at {t}", d.position);
        ensure!(dist(p3(&d.position), p3(&dq)) <= 10.0 * tol, "of date {:?}, transform at the stored epoch {dq:?}", d.position);
        // Spherical samples are the same points.
        let sb = CoordinateWithPM::new_raw(spherical::Position::<Barycentric, EclipticMeanJ2000, Au>::from_cartesian(&b.position), jd(*t), m.clone());
        let sg: CoordinateWithPM<spherical::Position<Geocentric, EquatorialMeanJ2000, Au>> = np("From", || (&sb).into())?;
        keep("spherical", sg.time, sg.proper_motion.as_ref())?;
        ensure!(dist(s3(&sg.position), p3(&g.position)) <= 10.0 * tol + 6e-8 * (norm(v) + norm(p3(&g.position))), "spherical sample at {:?}, cartesian at {:?}", s3(&sg.position), g.position);
        let sd: CoordinateWithPM<spherical::Position<Geocentric, EquatorialMeanOfDate, Au>> = np("From", || (&sg).into())?;
        keep("spherical of date", sd.time, sd.proper_motion.as_ref())?;
        ensure!(dist(s3(&sd.position), p3(&d.position)) <= 10.0 * tol + 1.2e-7 * (norm(v) + norm(p3(&g.position))), "spherical sample of date at {:?}, cartesian at {:?}", s3(&sd.position), d.position);
        // There and back.
        let back: CoordinateWithPM<Position<Barycentric, EclipticMeanJ2000, Au>> = np("From", || (&g).into())?;
        keep("back", back.time, back.proper_motion.as_ref())?;
        ensure!(dist(p3(&back.position), v) <= 10.0 * tol, "there and back {:?} from {v:?}", back.position);
        Ok(if m.is_some() { "moving" } else { "static" })
    });

    c.prop("tracking a body gives its own ephemeris", 12_000, || (0usize..12, jd_modern(), lon_deg(), lat_deg(), logu(0.0, 4.0), motion()), |(k, t, ra, dec, ly, m)| {
        fn via<T: Trackable>(x: &T, t: JulianDate) -> T::Coords { x.track(t) }
        let t = jd(*t);
        macro_rules! planet { ($b:ident, $n:literal) => {{ let s = np("track", || via(&ss::$b, t))?; ensure!(s.time == t && s.proper_motion.is_none(), concat!($n, ": sample at {:?} with motion {:?}"), s.time, s.proper_motion); ensure!(p3(&s.position) == p3(&ss::$b::vsop87e(t)), concat!($n, " tracked at {:?}, its ephemeris says {:?}"), s.position, ss::$b::vsop87e(t)) }} }
        match k {
            0 => planet!(Sun, "Sun"), 1 => planet!(Mercury, "Mercury"), 2 => planet!(Venus, "Venus"), 3 => planet!(Earth, "Earth"), 4 => planet!(Mars, "Mars"), 5 => planet!(Jupiter, "Jupiter"), 6 => planet!(Saturn, "Saturn"), 7 => planet!(Uranus, "Uranus"), 8 => planet!(Neptune, "Neptune"),
            9 => { let p = np("track", || via(&ss::Moon, t))?; ensure!(p3(&p) == p3(&ss::Moon::get_geo_position::<Kilometer>(t)), "Moon tracked at {p:?}") }
            10 => { let d = spherical::direction::ICRS::new(deg(*ra), deg(*dec)); let g = via(&d, t); ensure!(g.ra() == d.ra() && g.dec() == d.dec() && (g.dec().value() - dec).abs() < 1e-12, "direction {d:?} tracked at {g:?}") }
            _ => {
                let p = spherical::position::EquatorialMeanJ2000::<LightYear>::new(deg(*ra), deg(*dec), *ly);
                let star = Star::new("s", LightYears::new(*ly), SolarMasses::new(1.0), Quantity::new(1.0), SolarLuminosities::new(1.0), CoordinateWithPM::new_raw(p, t, m.clone()));
                let g = np("track", || via(&star, t))?; let e = spherical::direction::ICRS::from(&star);
                ensure!(adiff_deg(g.ra().value(), *ra) < 1e-12 && (g.dec().value() - dec).abs() < 1e-12, "star at ({ra}, {dec}) tracked at {g:?}");
                ensure!(g.ra() == e.ra() && g.dec() == e.dec(), "track {g:?}, conversion {e:?}");
                ensure!(star.name == "s" && star.distance.value() == *ly && same_pm(star.coordinate.get_proper_motion(), m.as_ref()), "star lost a field");
            }
        }
        Ok("tracked")
    });

    c.prop("aircraft hold speed, track and climb", 40_000, || ((lon_deg(), lat_deg(), -400.0f64..20_000.0), prop_oneof![6 => 0.0f64..400.0, 1 => Just(0.0)], prop_oneof![3 => -360.0f64..720.0, 1 => (0u8..5).prop_map(|k| 90.0 * k as f64)], -30.0f64..30.0, jd_modern(), prop_oneof![5 => -900.0f64..900.0, 2 => -20_000.0f64..20_000.0, 1 => Just(0.0)], any::<u32>(), "[A-Z0-9]{0,8}"), |((lon, lat, h), gs, trk, vr, t0, dt, icao, call)| {
        let ac = Aircraft::new(*icao, call.as_str());
        ensure!(ac.icao24() == *icao && ac.callsign() == call && ac.wake_category.is_none(), "aircraft {ac:?}");
        for w in [WakeCategory::Light, WakeCategory::Medium, WakeCategory::Heavy, WakeCategory::Super] { let b = ac.clone().with_wake_category(w); ensure!(b.wake_category == Some(w) && b.icao24() == *icao && b.callsign() == call, "aircraft {b:?}") }
        let p = Geodetic::<ECEF>::new(deg(*lon), deg(*lat), Meters::new(*h));
        let at_rest = AircraftState::new(p, deg(*trk));
        ensure!(at_rest.ground_speed.value() == 0.0 && at_rest.vertical_rate.value() == 0.0 && at_rest.track_angle.value() == *trk && at_rest.barometric_altitude_m().value() == *h, "state {at_rest:?}");
        let s = AircraftState { position: p, ground_speed: MetersPerSecond::new(*gs), track_angle: deg(*trk), vertical_rate: MetersPerSecond::new(*vr) };
        let tr = AircraftTrack::new(s.clone(), jd(*t0));
        ensure!(tr.track(jd(*t0)).position.height.value() == *h, "moved at its own epoch");
        let t1 = jd(t0 + dt / 86_400.0);
        let el = ((t0 + dt / 86_400.0) - t0) * 86_400.0;
        let g = np("track", || tr.track(t1))?;
        ensure!(g.ground_speed == s.ground_speed && g.track_angle == s.track_angle && g.vertical_rate == s.vertical_rate, "speeds changed: {g:?}");
        ensure!((g.position.height.value() - (h + vr * el)).abs() < 1e-3 * (1.0 + vr.abs() * 0.1), "height {}, expected {}", g.position.height, h + vr * el);
        let (th, phi) = (trk.to_radians(), lat.to_radians());
        let (dlat, dlon) = (gs * el * th.cos() / 6_371_000.0, gs * el * th.sin() / (6_371_000.0 * phi.cos().max(1e-9)));
        // Crossing a pole comes down the other side.
        let want = sph(lon.to_radians() + dlon, phi + dlat);
        let got = sph(g.position.lon.value().to_radians(), g.position.lat.value().to_radians());
        let slack = 1e-10 + gs * 1e-4 / 6_371_000.0 + dlon.abs() * 1e-9;
        if dlon.abs() < 1e4 { ensure!(dist(want, got) < slack, "{dt} s at {gs} m/s along {trk}: {:?}, expected {want:?} ({:e} rad off)", g.position, dist(want, got)) }
        // Out and back by dead reckoning.
        if (lat + dlat.to_degrees()).abs() < 90.0 { ensure!(g.position.lat.value().abs() <= 90.0 && (g.position.lat.value() - lat - dlat.to_degrees()).abs() < slack.to_degrees(), "latitude {}", g.position.lat) }
        Ok(if *gs * *dt == 0.0 { "still" } else { "moving" })
    });

    c.prop("bodies keep every field they are built with", 20_000, || (orbit(), logu(15.0, 28.0), logu(0.0, 6.0), proptest::option::of(0.0f64..1.0), "[A-Za-z0-9 /()-]{0,14}", "[A-Za-z0-9 ]{0,9}", 0u8..64, 0u8..6, any::<bool>()), |(o, mass, radius, albedo, name, des, set, class, bary)| {
        let on = |k: u8| set >> k & 1 == 1;
        let (m, r) = (Kilograms::new(*mass), Kilometers::new(*radius));
        // Planet.
        let mut b = Planet::builder();
        if on(0) { b = b.mass(m) } if on(1) { b = b.radius(r) } if on(2) { b = b.orbit(*o) } if let Some(a) = albedo { b = b.albedo(Albedos::new(*a)) }
        let full = |p: &Planet| p.mass == m && p.radius == r && same_orbit(&p.orbit, o) && p.albedo.map(|a| a.value()) == *albedo;
        match np("try_build", || b.clone().try_build())? {
            Ok(p) => { ensure!(set & 7 == 7, "built from {:b}", set & 7); ensure!(full(&p) && full(&b.clone().build()) && full(&b.clone().build_unchecked()), "planet {p:?}, asked for {b:?}") }
            Err(e) => { let ok = match e { PlanetBuilderError::MissingMass => !on(0), PlanetBuilderError::MissingRadius => !on(1), PlanetBuilderError::MissingOrbit => !on(2) }; ensure!(ok, "{e:?} from fields {:b}", set & 7) }
        }
        let mut p = Planet::new_const(m, r, *o); if let Some(a) = albedo { p = p.with_albedo(Albedos::new(*a)) } ensure!(full(&p), "new_const planet {p:?}");
        // Kepler's third law.
        let a = o.shape().semi_major_axis().value();
        ensure!(close(o.period().value() / 86_400.0, 365.256_898_3 * a.powf(1.5), 0.0, 1e-7), "period {} for a = {a} au", o.period());
        // Satellite.
        let mut s = Satellite::new(name.clone(), m, r, *o); ensure!(s.albedo.is_none(), "albedo from nowhere"); if let Some(a) = albedo { s = s.with_albedo(Albedos::new(*a)) }
        ensure!(s.name == *name && s.mass == m && s.radius == r && same_orbit(&s.orbit, o) && s.albedo.map(|a| a.value()) == *albedo, "satellite {s:?}");
        // Asteroid.
        let kinds = [AsteroidClass::MainBelt, AsteroidClass::NearEarth, AsteroidClass::Trojan, AsteroidClass::Centaur, AsteroidClass::TransNeptunian, AsteroidClass::DwarfPlanet];
        let k = kinds[*class as usize];
        let mut b = Asteroid::builder().name(name).designation(des).orbit(*o);
        if on(3) { b = b.class(k) } if on(4) { b = b.composition(des) } if let Some(a) = albedo { b = b.albedo(Albedos::new(*a)) }
        let x = np("build", || b.build())?;
        ensure!(x.name == name && x.designation == des && same_orbit(&x.orbit, o) && x.class == if on(3) { k } else { AsteroidClass::MainBelt } && x.composition == if on(4) { des.as_str() } else { "Unknown" } && x.albedo.map(|a| a.value()) == *albedo, "asteroid {x:?}");
        let y = Asteroid::new_const(name, des, "c", k, *o).with_albedo(Albedos::new(0.5)); ensure!(y.name == name && y.designation == des && y.composition == "c" && y.class == k && same_orbit(&y.orbit, o) && y.albedo.map(|a| a.value()) == Some(0.5), "asteroid {y:?}");
        // Comet.
        let f = if *bary { OrbitFrame::Barycentric } else { OrbitFrame::Heliocentric };
        let mut b = Comet::builder().name(name).tail_length(r).orbit(*o); if on(5) { b = b.reference(f) }
        let x = np("build", || b.build())?;
        ensure!(x.name == name && x.tail_length == r && same_orbit(&x.orbit, o) && x.reference == if on(5) { f } else { OrbitFrame::Heliocentric }, "comet {x:?}");
        let y = Comet::new_const(name, r, *o, f); ensure!(y.name == name && y.tail_length == r && y.reference == f && same_orbit(&y.orbit, o), "comet {y:?}");
        // Stars.
        let at = CoordinateWithPM::new_static(spherical::position::EquatorialMeanJ2000::<LightYear>::new(deg(10.0), deg(20.0), 5.0), siderust::J2000);
        let st = Star::new(name.clone(), LightYears::new(*radius), SolarMasses::new(2.0), Quantity::new(3.0), SolarLuminosities::new(4.0), at);
        ensure!(st.name == *name && st.distance.value() == *radius && st.mass.value() == 2.0 && st.radius.value() == 3.0 && st.luminosity.value() == 4.0 && st.parallax.is_none() && st.radial_velocity.is_none(), "star {st:?}");
        let st = st.with_parallax(MilliArcseconds::new(7.0)).with_radial_velocity(Quantity::new(-8.0)); ensure!(st.parallax.unwrap().value() == 7.0 && st.radial_velocity.unwrap().value() == -8.0 && st.mass.value() == 2.0 && !st.has_full_space_motion(), "star {st:?}");
        Ok(if set & 7 == 7 && albedo.is_some() { "complete" } else { "partial" })
    });

    c.prop("preset planets, Sun and moons are where and what they are", 3000, || (0usize..8, -100.0f64..100.0, 0usize..7), |(k, yr, moon)| {
        let t = jd(J2000 + yr * 365.25);
        let ps = [&ss::MERCURY, &ss::VENUS, &ss::EARTH, &ss::MARS, &ss::JUPITER, &ss::SATURN, &ss::URANUS, &ss::NEPTUNE];
        let v = match k { 0 => p3(&ss::Mercury::vsop87a(t)), 1 => p3(&ss::Venus::vsop87a(t)), 2 => p3(&ss::Earth::vsop87a(t)), 3 => p3(&ss::Mars::vsop87a(t)), 4 => p3(&ss::Jupiter::vsop87a(t)), 5 => p3(&ss::Saturn::vsop87a(t)), 6 => p3(&ss::Uranus::vsop87a(t)), _ => p3(&ss::Neptune::vsop87a(t)) };
        let g = p3(&ps[*k].orbit.kepler_position(t));
        let off = angle(g, v).to_degrees();
        // Fixed J2000 ellipses; their mean motions leave out secular perturbations of up to two degrees a century.
        let lim = [0.4, 0.2, 0.25, 1.5, 3.0, 1.2, 1.0, 0.6][*k];
        ensure!(off < lim && (norm(g) / norm(v) - 1.0).abs() < 0.006, "planet {k} at J2000{yr:+} y: orbit {g:?}, ephemeris {v:?} ({off} degrees)");
        ensure!(std::ptr::eq(ss::SOLAR_SYSTEM.planets[*k], ss::PLANETS[*k]) && ss::PLANETS[*k].mass == ps[*k].mass, "planet list out of order at {k}");
        // The Sun as a star stands where the Earth sees it at its epoch.
        let d = ss::SUN.track(t);
        let e = p3(&ss::Earth::vsop87a(siderust::J2000)); let s = mv(&r1(-84_381.406 * AS2R), scale(e, -1.0));
        let sun = angle(sph(d.ra().value().to_radians(), d.dec().value().to_radians()), s).to_degrees();
        ensure!(sun < 1.0, "SUN at {d:?}, {sun} degrees from the Sun of J2000");
        ensure!(close(s3(ss::SUN.coordinate.get_position())[2].asin().sin(), s3(ss::SUN.coordinate.get_position())[2], 1e-9, 0.0) && (s3(ss::SUN.coordinate.get_position())[2] / ss::SUN.coordinate.get_position().distance.value() - s[2] / norm(s)).abs() < 0.02, "SUN declination {:?}", ss::SUN.coordinate.get_position());
        let (name, gm, days) = MOONS[*moon];
        let m = ss::MAJOR_MOONS[*moon];
        ensure!(m.name == name, "moon {moon} is {}", m.name);
        let want = (gm * (days * 86_400.0 / std::f64::consts::TAU).powi(2)).cbrt();
        let a = m.orbit.shape().semi_major_axis().to::<Kilometer>().value();
        ensure!(close(a, want, 0.0, 5e-3) || name == "Moon" && close(a, want * 1e-3, 0.0, 5e-3), "{name}: semi-major axis {a} km, its period asks for {want} km");
        // L1 and L2 both lie on the Sun-Earth line, a hundredth either side of the Earth.
        let l: Vec<V3> = ss::LAGRANGE_POINTS.iter().map(|p| s3(&p.position)).collect();
        ensure!(l.len() == 2 && angle(l[0], l[1]) < 1e-6 && close(norm(l[0]), 0.99, 1e-3, 0.0) && close(norm(l[1]), 1.01, 1e-3, 0.0), "heliocentric L1 and L2 at {l:?}");
        Ok("preset")
    });
    c.known_finding(|| (moon_axis_km() < 300_000.0).then(|| format!("the MOON preset's orbit has a semi-major axis of {:.1} km (2.566881e-6 au, a thousandth of the Moon's; pinned by tests/test_bodies.rs)", moon_axis_km())));
    c.finish()
}
