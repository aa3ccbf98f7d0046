//! C03: center changes add exactly the ephemeris offset.
use proptest::prelude::*;
use siderust::astro::orbit::KeplerianOrbit;
use siderust::bodies::solar_system as ss;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::providers::{center_shift_as, frame_rotation_as, CenterShiftProvider, FrameRotationProvider};
use siderust::coordinates::transform::{PositionAstroExt, UsingEngine, TransformCenter};
use siderust::ephemeris::lagrange::{solver::solve_sun_earth_lagrange, try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint as LP};
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::astro::nutation::*;
use siderust::qtty::*;
use siderust::JulianDate;
use std::cell::Cell;
use vharness::frames::{eop_gen, set_eop, TestEop};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type Ecl = EclipticMeanJ2000;
/// Sun barycentric, Earth barycentric (AU), Moon geocentric (km): affine in time, chosen by the test.
#[derive(Clone, Copy, Debug, Default)]
struct Scene { s: V3, e: V3, m: V3, rate: f64 }
thread_local! { static SCENE: Cell<Scene> = const { Cell::new(Scene { s: [0.0; 3], e: [0.0; 3], m: [0.0; 3], rate: 0.0 }) }; }
fn sc(jd: JulianDate) -> (Scene, f64) { let s = SCENE.with(|x| x.get()); (s, 1.0 + s.rate * (jd.raw().value() - J2000)) }
#[derive(Debug, Clone, Copy, Default)]
struct TestEph;
impl Ephemeris for TestEph {
    fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, Ecl, AstronomicalUnit> { let (s, k) = sc(jd); Position::new(s.s[0] * k, s.s[1] * k, s.s[2] * k) }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, Ecl, AstronomicalUnit> { let (s, k) = sc(jd); Position::new(s.e[0] * k, s.e[1] * k, s.e[2] * k) }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, Ecl, AstronomicalUnit> { let (s, k) = sc(jd); let d = scale(sub(s.e, s.s), k); Position::new(d[0], d[1], d[2]) }
    fn earth_barycentric_velocity(_: JulianDate) -> Velocity<Ecl, Per<AstronomicalUnit, Day>> { Velocity::new(0.0, 0.0, 0.0) }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, Ecl, Kilometer> { let (s, k) = sc(jd); Position::new(s.m[0] * k, s.m[1] * k, s.m[2] * k) }
}
const KM_AU: f64 = 149_597_870.7;

fn a3<C: ReferenceCenter, F: ReferenceFrame, U: LengthUnit>(p: &Position<C, F, U>) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }

/// Two-body position from elements by bisection on Kepler's equation, independent of the library.
fn kepler_pos(a: f64, e: f64, inc: f64, node: f64, argp: f64, m0: f64, n_per_day: f64, dt: f64) -> V3 {
    let m = wrap_pi(m0.to_radians() + n_per_day * dt);
    let (mut lo, mut hi) = (-std::f64::consts::PI * 1.0001, std::f64::consts::PI * 1.0001);
    for _ in 0..80 { let mid = 0.5 * (lo + hi); if mid - e * mid.sin() < m { lo = mid } else { hi = mid } }
    let ea = 0.5 * (lo + hi);
    let (x, y) = (a * (ea.cos() - e), a * (1.0 - e * e).sqrt() * ea.sin());
    mv(&mm(&r3(-node.to_radians()), &mm(&r1(-inc.to_radians()), &r3(-argp.to_radians()))), [x, y, 0.0])
}

const NC: usize = 17;
const NAMES: [&str; NC] = ["Barycentric", "Heliocentric", "Geocentric", "Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto", "Moon", "L1", "L2", "L3", "L4", "L5"];
/// Barycentric ecliptic location of each center (AU) under ephemeris E.
fn loc<E: Ephemeris>(c: usize, jd: JulianDate) -> V3 {
    let v = |p: Position<Barycentric, Ecl, AstronomicalUnit>| a3(&p);
    let lp = |p: LP| v(try_sun_earth_lagrange_barycentric(p, jd).unwrap_or_else(|_| solve_sun_earth_lagrange::<E>(p, jd).unwrap().position.to_unit::<AstronomicalUnit>()));
    match c {
        0 => [0.0; 3],
        1 => v(E::sun_barycentric(jd)),
        2 => v(E::earth_barycentric(jd)),
        3 => v(ss::Mercury::vsop87e(jd)),
        4 => v(ss::Venus::vsop87e(jd)),
        5 => v(ss::Mars::vsop87e(jd)),
        6 => v(ss::Jupiter::vsop87e(jd)),
        7 => v(ss::Saturn::vsop87e(jd)),
        8 => v(ss::Uranus::vsop87e(jd)),
        9 => v(ss::Neptune::vsop87e(jd)),
        10 => {
            let o = &ss::PLUTO.orbit;
            let k = 0.01720209895; // Gauss's constant
            let a = o.shape().semi_major_axis().value();
            let (i, n, w) = (o.orientation().inclination().value(), o.orientation().longitude_of_ascending_node().value(), o.orientation().argument_of_periapsis().value());
            let h = kepler_pos(a, o.shape().eccentricity(), i, n, w, o.mean_anomaly_at_epoch.value(), k / a.powf(1.5), jd.raw().value() - J2000);
            add(h, v(E::sun_barycentric(jd)))
        }
        11 => { let m = E::moon_geocentric(jd); add(v(E::earth_barycentric(jd)), scale(a3(&m), 1.0 / KM_AU)) }
        12 => lp(LP::L1), 13 => lp(LP::L2), 14 => lp(LP::L3), 15 => lp(LP::L4), _ => lp(LP::L5),
    }
}

/// What the library does for one pair and frame under ephemeris E and nutation model.
struct Got { shift: V3, moved_km: V3, back_km: V3, using: V3, rot: M3 }
fn run<E: Ephemeris, A, B, F>(jd: JulianDate, model: usize, p: V3) -> Got
where A: ReferenceCenter<Params = ()>, B: ReferenceCenter<Params = ()>, F: ReferenceFrame + affn::ReferenceFrame,
    (): CenterShiftProvider<A, B, F> + CenterShiftProvider<B, A, F> + FrameRotationProvider<Ecl, F>,
{
    let ctx: AstroContext<E, TestEop> = AstroContext::with_types();
    let q = Position::<A, F, Kilometer>::new(p[0], p[1], p[2]);
    macro_rules! go { ($n:ty) => {{
        let sh = center_shift_as::<A, B, F, $n, E, TestEop>(jd, &ctx);
        let mv: Position<B, F, Kilometer> = q.to_center_as::<E, TestEop, $n>((), jd, &ctx);
        let bk: Position<A, F, Kilometer> = mv.to_center_as::<E, TestEop, $n>((), jd, &ctx);
        let m = ctx.with_model::<$n>();
        let us: Position<B, F, Kilometer> = q.to_center_with((), jd, &m);
        let m2 = ctx.with_model::<$n>();
        let w: Position<B, F, Kilometer> = q.using(&m2).to_center(&jd);
        assert_eq!(a3(&w), a3(&us), "using(context).to_center differs from to_center_with");
        Got { shift: [sh[0].value(), sh[1].value(), sh[2].value()], moved_km: a3(&mv), back_km: a3(&bk), using: a3(&us), rot: *frame_rotation_as::<Ecl, F, $n, E, TestEop>(jd, &ctx).as_matrix() }
    }} }
    match model { 0 => go!(Iau2000A), 1 => go!(Iau2000B), 2 => go!(Iau2006), _ => go!(Iau2006A) }
}
type RunFn = fn(JulianDate, usize, V3) -> Got;
struct Entry { from: usize, to: usize, frame: &'static str, test: RunFn, real: RunFn }
fn table() -> Vec<Entry> {
    let mut t = vec![];
    macro_rules! frame { ($f:ident, $a:ty, $ai:expr, $b:ty, $bi:expr) => { t.push(Entry { from: $ai, to: $bi, frame: stringify!($f), test: run::<TestEph, $a, $b, $f>, real: run::<Vsop87Ephemeris, $a, $b, $f> }); } }
    macro_rules! pair { ($a:ty, $ai:expr, $b:ty, $bi:expr) => {
        frame!(EclipticMeanJ2000, $a, $ai, $b, $bi); frame!(ICRS, $a, $ai, $b, $bi); frame!(EquatorialMeanJ2000, $a, $ai, $b, $bi);
        frame!(GCRS, $a, $ai, $b, $bi); frame!(CIRS, $a, $ai, $b, $bi); frame!(TIRS, $a, $ai, $b, $bi); frame!(ITRF, $a, $ai, $b, $bi); frame!(Galactic, $a, $ai, $b, $bi); frame!(MoonPrincipalAxes, $a, $ai, $b, $bi);
    } }
    macro_rules! both { ($a:ty, $ai:expr, $b:ty, $bi:expr) => { pair!($a, $ai, $b, $bi); pair!($b, $bi, $a, $ai); } }
    macro_rules! hub { ($($b:ty, $bi:expr);*) => { $( both!(Barycentric, 0, $b, $bi); both!(Heliocentric, 1, $b, $bi); both!(Geocentric, 2, $b, $bi); )* } }
    both!(Barycentric, 0, Heliocentric, 1); both!(Barycentric, 0, Geocentric, 2); both!(Heliocentric, 1, Geocentric, 2);
    pair!(Geocentric, 2, Geocentric, 2);
    hub!(Mercurycentric, 3; Venuscentric, 4; Marscentric, 5; Jovicentric, 6; Saturnocentric, 7; Uranocentric, 8; Neptunocentric, 9; Plutocentric, 10; Selenocentric, 11;
         SunEarthL1, 12; SunEarthL2, 13; SunEarthL3, 14; SunEarthL4, 15; SunEarthL5, 16);
    t
}

fn expect<E: Ephemeris>(e: &Entry, g: &Got, jd: JulianDate, p: V3) -> Result<(), String> {
    // A position P from A is at loc(A) + P; from B it is that minus loc(B).
    let d = sub(loc::<E>(e.from, jd), loc::<E>(e.to, jd));
    let want = mv(&g.rot, d);
    let size = norm(loc::<E>(e.from, jd)) + norm(loc::<E>(e.to, jd));
    // Pluto's elements use the solar GM in km^3/s^2 instead of Gauss's constant: 2e-10 relative in phase per radian.
    let tol = 1e-12 + 4e-15 * size + if e.from == 10 || e.to == 10 { 2e-7 } else { 0.0 };
    ensure!(dist(g.shift, want) <= tol, "{} -> {} in {} at JD {}: shift {:?} AU, expected {:?} (diff {:e})", NAMES[e.from], NAMES[e.to], e.frame, jd.raw().value(), g.shift, want, dist(g.shift, want));
    let tk = tol * KM_AU + 1e-15 * norm(p);
    let wk = add(p, scale(want, KM_AU));
    ensure!(dist(g.moved_km, wk) <= tk * 2.0 + 4e-15 * norm(wk), "{} -> {} in {}: moved {:?} km, expected {:?} km", NAMES[e.from], NAMES[e.to], e.frame, g.moved_km, wk);
    ensure!(dist(g.using, g.moved_km) <= 1e-6 + 1e-15 * norm(wk), "to_center_with and to_center_as differ: {:?} {:?}", g.using, g.moved_km);
    ensure!(dist(g.back_km, p) <= 1e-15 * (norm(p) + norm(wk)) * 4.0 + 1e-6, "{} -> {} -> {}: {:?} became {:?}", NAMES[e.from], NAMES[e.to], NAMES[e.from], p, g.back_km);
    Ok(())
}
fn vec3(a: f64, b: f64) -> BoxedStrategy<V3> { (unit_vec(), logu(a, b)).prop_map(|(u, r)| scale(u, r)).boxed() }
fn scene() -> impl Strategy<Value = Scene> { (vec3(-4.0, -1.8), vec3(-0.3, 0.3), vec3(5.3, 5.8), -1e-5f64..1e-5).prop_map(|(s, e, m, rate)| Scene { s, e, m, rate }) }

fn main() {
    let mut c = Check::new("C03", "center pair (127 pairs x 9 frames), nutation model, epoch 1900-2100, generated ephemeris (or VSOP87/ELP) and position; non-trivial: the two centers differ");
    c.assume("the rotation from the ecliptic to the position's frame is the one decided by C01/C02; planet locations are those decided by C16, Lagrange locations by C30");
    let n = table().len();
    c.prop("generated_ephemeris", 60_000, move || (0..n, jd_modern(), 0usize..4, scene(), eop_gen(), vec3(0.0, 11.0)), |(i, jd, model, s, eop, p)| {
        thread_local! { static T: Vec<Entry> = table(); }
        set_eop(*eop);
        SCENE.with(|x| x.set(*s));
        T.with(|t| {
            let e = &t[*i];
            let g = (e.test)(JulianDate::new(*jd), *model, *p);
            expect::<TestEph>(e, &g, JulianDate::new(*jd), *p)?;
            Ok(if e.from == e.to { "-identity" } else if e.from >= 12 || e.to >= 12 { "lagrange" } else if e.from > 2 || e.to > 2 { "body" } else { "hub" })
        })
    });
    c.prop("default_ephemeris", 6_000, move || (0..n, jd_wide(), 0usize..4, eop_gen(), vec3(0.0, 11.0)), |(i, jd, model, eop, p)| {
        thread_local! { static T: Vec<Entry> = table(); }
        set_eop(*eop);
        T.with(|t| {
            let e = &t[*i];
            if (e.from >= 12 || e.to >= 12) && !(2_415_020.5..2_488_070.5).contains(jd) { return Ok("-lagrange outside archive"); }
            let g = (e.real)(JulianDate::new(*jd), *model, *p);
            expect::<Vsop87Ephemeris>(e, &g, JulianDate::new(*jd), *p)?;
            Ok(if e.from == e.to { "-identity" } else { "real" })
        })
    });
    // Center and frame together: the result equals changing the frame of the moved position and moving the position in the other frame.
    c.prop("center_and_frame", 8_000, || (jd_modern(), scene(), eop_gen(), vec3(3.0, 10.0)), |(jd, s, eop, p)| {
        set_eop(*eop);
        SCENE.with(|x| x.set(*s));
        let ctx: AstroContext<TestEph, TestEop> = AstroContext::with_types();
        let t = JulianDate::new(*jd);
        let q = Position::<Heliocentric, EquatorialMeanJ2000, Kilometer>::new(p[0], p[1], p[2]);
        let direct: Position<Geocentric, CIRS, Kilometer> = q.to_with(&t, &ctx);
        let c1: Position<Geocentric, EquatorialMeanJ2000, Kilometer> = q.to_center_with((), t, &ctx);
        let a: Position<Geocentric, CIRS, Kilometer> = c1.to_frame_with(&t, &ctx);
        let f1: Position<Heliocentric, CIRS, Kilometer> = q.to_frame_with(&t, &ctx);
        let b: Position<Geocentric, CIRS, Kilometer> = f1.to_center_with((), t, &ctx);
        // and through a third center
        let m: Position<Selenocentric, CIRS, Kilometer> = f1.to_center_with((), t, &ctx);
        let b2: Position<Geocentric, CIRS, Kilometer> = m.to_center_with((), t, &ctx);
        let tol = 1e-13 * (norm(*p) + 3e8) + 1e-5;
        for (n, x) in [("frame after center", &a), ("center after frame", &b), ("via the Moon", &b2)] {
            ensure!(dist(a3(&direct), a3(x)) <= tol, "{}: {:?} but direct {:?}", n, a3(x), a3(&direct));
        }
        Ok("combined")
    });
    // Body-centered origins from Keplerian elements about the Sun, the Earth or the barycentre.
    c.prop("bodycentric", 12_000, || (jd_modern(), scene(), (logu(-4.5, 1.0), 0.0f64..0.9, 0.0f64..180.0, 0.0f64..360.0, 0.0f64..360.0, 0.0f64..360.0), -3000.0f64..3000.0, 0usize..3, 0usize..3, 0usize..3, vec3(-4.0, 1.5)), |(jd, s, (a, e, i, n, w, m), dt, oc, from, frame, p)| {
        set_eop([0.0; 5]);
        SCENE.with(|x| x.set(*s));
        let ctx: AstroContext<TestEph, TestEop> = AstroContext::with_types();
        let t = JulianDate::new(*jd);
        let orbit = KeplerianOrbit::new(AstronomicalUnits::new(*a), *e, Degrees::new(*i), Degrees::new(*n), Degrees::new(*w), Degrees::new(*m), JulianDate::new(*jd - *dt));
        let (prm, gm, host) = match oc { 0 => (BodycentricParams::barycentric(orbit), GM_SUN, [0.0; 3]), 1 => (BodycentricParams::heliocentric(orbit), GM_SUN, a3(&TestEph::sun_barycentric(t))), _ => (BodycentricParams::geocentric(orbit), GM_EARTH, a3(&TestEph::earth_barycentric(t))) };
        let nn = (gm.value() / (a * KM_AU).powi(3)).sqrt() * 86400.0;
        // Phase rounding of the elapsed mean motion bounds what can be compared.
        let phase = 1e-14 * (nn * dt).abs() + 1e-11 / (1.0 - e) / (1.0 - e);
        let body = add(host, kepler_pos(*a, *e, *i, *n, *w, *m, nn, (*jd) - (*jd - *dt)));
        let size = norm(*p) + 4.0;
        let tol = 1e-12 * size + a * phase * 4.0 / (1.0 - e) + a * nn * 1e-9;
        macro_rules! go { ($f:ident) => {{
            let rot = *frame_rotation_as::<Ecl, $f, Iau2006A, TestEph, TestEop>(t, &ctx).as_matrix();
            macro_rules! from { ($c:ident, $l:expr) => {{
                let q = Position::<$c, $f, AstronomicalUnit>::new(p[0], p[1], p[2]);
                let g: Position<Bodycentric, $f, AstronomicalUnit> = q.to_center_with(prm, t, &ctx);
                let want = add(*p, mv(&rot, sub($l, body)));
                ensure!(dist(a3(&g), want) <= tol, "{} -> bodycentric (orbit about {}) in {}: {:?}, expected {:?} (diff {:e}, tol {:e})", stringify!($c), oc, stringify!($f), a3(&g), want, dist(a3(&g), want), tol);
                let back: Position<Geocentric, $f, AstronomicalUnit> = g.to_center_with((), t, &ctx);
                let wb = add(*p, mv(&rot, sub($l, a3(&TestEph::earth_barycentric(t)))));
                ensure!(dist(a3(&back), wb) <= 1e-13 * (size + a), "bodycentric -> geocentric: {:?}, expected {:?}", a3(&back), wb);
            }} }
            match from { 0 => from!(Barycentric, [0.0; 3]), 1 => from!(Heliocentric, a3(&TestEph::sun_barycentric(t))), _ => from!(Geocentric, a3(&TestEph::earth_barycentric(t))) }
        }} }
        match frame { 0 => go!(EclipticMeanJ2000), 1 => go!(EquatorialMeanJ2000), _ => go!(ICRS) }
        Ok(if *oc == *from { "same host" } else { "different host" })
    });
    c.finish()
}
