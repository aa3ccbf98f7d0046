//! C16: analytic ephemerides evaluate their series, and velocities are derivatives.
use proptest::prelude::*;
use siderust::bodies::solar_system as ss;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::*;
use siderust::ephemeris::pluto::Pluto;
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::event::lunar::meeus_ch47::moon_position_meeus_ch47;
use siderust::qtty::*;
use siderust::targets::Trackable;
use siderust::JulianDate;
use siderust_archive::elp::{constants as k, elp_data as e, EarthPert, MainProblem, PlanetPert};
use siderust_archive::pluto::pluto_data as pd;
use siderust_archive::vsop::{vsop87a_data as va, vsop87e_data as ve, Vsop87};
use vharness::gen::*;
use vharness::refs::*;
use vharness::*;

type Ecl = EclipticMeanJ2000;
type Vel = Velocity<Ecl, Per<AstronomicalUnit, Day>>;
type Tab = [[&'static [Vsop87]; 6]; 3];
fn p3<C: ReferenceCenter, U: LengthUnit>(p: &Position<C, Ecl, U>) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }
fn v3(p: &Vel) -> V3 { [p.x().value(), p.y().value(), p.z().value()] }
/// Julian millennia TDB.
fn millennia(jd: f64) -> f64 {
    let d = jd - J2000;
    let g = (357.53 + 0.985_600_28 * d).to_radians();
    let tdb = 0.001_657 * g.sin() + 0.000_014 * (2.0 * g).sin();
    (d + tdb / 86400.0) / 365_250.0
}
/// Sum over T^k a cos(b + cT) and its derivative per day.
fn series(t: &Tab, jd: f64) -> (V3, V3) {
    let x = millennia(jd);
    let (mut p, mut v) = ([0.0; 3], [0.0; 3]);
    for a in 0..3 {
        for (k, terms) in t[a].iter().enumerate() {
            let (tk, dk) = (x.powi(k as i32), if k == 0 { 0.0 } else { k as f64 * x.powi(k as i32 - 1) });
            for q in terms.iter() {
                let arg = q.b.value() + q.c * x;
                p[a] += tk * q.a.value() * arg.cos();
                v[a] += dk * q.a.value() * arg.cos() - tk * q.a.value() * q.c * arg.sin();
            }
        }
    }
    (p, scale(v, 1.0 / 365_250.0))
}
type PosVel<C> = (Position<C, Ecl, AstronomicalUnit>, Vel);
struct Body { name: &'static str, a: Option<(Tab, fn(JulianDate) -> Position<Heliocentric, Ecl, AstronomicalUnit>, fn(JulianDate) -> Vel, fn(JulianDate) -> PosVel<Heliocentric>)>, e: (Tab, fn(JulianDate) -> Position<Barycentric, Ecl, AstronomicalUnit>, Option<(fn(JulianDate) -> Vel, fn(JulianDate) -> PosVel<Barycentric>)>), track: fn(JulianDate) -> V3 }
fn bodies() -> Vec<Body> {
    vec![
        Body { name: "Sun", a: None,
            e: ([[&ve::SUN_X0[..], &ve::SUN_X1[..], &ve::SUN_X2[..], &ve::SUN_X3[..], &ve::SUN_X4[..], &ve::SUN_X5[..]], [&ve::SUN_Y0[..], &ve::SUN_Y1[..], &ve::SUN_Y2[..], &ve::SUN_Y3[..], &ve::SUN_Y4[..], &ve::SUN_Y5[..]], [&ve::SUN_Z0[..], &ve::SUN_Z1[..], &ve::SUN_Z2[..], &ve::SUN_Z3[..], &ve::SUN_Z4[..], &ve::SUN_Z5[..]]], ss::Sun::vsop87e, None),
            track: |j| p3(&ss::Sun.track(j).position) },
        Body { name: "Mercury", a: Some(([[&va::MERCURY_X0[..], &va::MERCURY_X1[..], &va::MERCURY_X2[..], &va::MERCURY_X3[..], &va::MERCURY_X4[..], &va::MERCURY_X5[..]], [&va::MERCURY_Y0[..], &va::MERCURY_Y1[..], &va::MERCURY_Y2[..], &va::MERCURY_Y3[..], &va::MERCURY_Y4[..], &va::MERCURY_Y5[..]], [&va::MERCURY_Z0[..], &va::MERCURY_Z1[..], &va::MERCURY_Z2[..], &va::MERCURY_Z3[..], &va::MERCURY_Z4[..], &va::MERCURY_Z5[..]]], ss::Mercury::vsop87a, ss::Mercury::vsop87a_vel, ss::Mercury::vsop87a_pos_vel)),
            e: ([[&ve::MERCURY_X0[..], &ve::MERCURY_X1[..], &ve::MERCURY_X2[..], &ve::MERCURY_X3[..], &ve::MERCURY_X4[..], &ve::MERCURY_X5[..]], [&ve::MERCURY_Y0[..], &ve::MERCURY_Y1[..], &ve::MERCURY_Y2[..], &ve::MERCURY_Y3[..], &ve::MERCURY_Y4[..], &ve::MERCURY_Y5[..]], [&ve::MERCURY_Z0[..], &ve::MERCURY_Z1[..], &ve::MERCURY_Z2[..], &ve::MERCURY_Z3[..], &ve::MERCURY_Z4[..], &ve::MERCURY_Z5[..]]], ss::Mercury::vsop87e, Some((ss::Mercury::vsop87e_vel, ss::Mercury::vsop87e_pos_vel))),
            track: |j| p3(&ss::Mercury.track(j).position) },
        Body { name: "Venus", a: Some(([[&va::VENUS_X0[..], &va::VENUS_X1[..], &va::VENUS_X2[..], &va::VENUS_X3[..], &va::VENUS_X4[..], &va::VENUS_X5[..]], [&va::VENUS_Y0[..], &va::VENUS_Y1[..], &va::VENUS_Y2[..], &va::VENUS_Y3[..], &va::VENUS_Y4[..], &va::VENUS_Y5[..]], [&va::VENUS_Z0[..], &va::VENUS_Z1[..], &va::VENUS_Z2[..], &va::VENUS_Z3[..], &va::VENUS_Z4[..], &va::VENUS_Z5[..]]], ss::Venus::vsop87a, ss::Venus::vsop87a_vel, ss::Venus::vsop87a_pos_vel)),
            e: ([[&ve::VENUS_X0[..], &ve::VENUS_X1[..], &ve::VENUS_X2[..], &ve::VENUS_X3[..], &ve::VENUS_X4[..], &ve::VENUS_X5[..]], [&ve::VENUS_Y0[..], &ve::VENUS_Y1[..], &ve::VENUS_Y2[..], &ve::VENUS_Y3[..], &ve::VENUS_Y4[..], &ve::VENUS_Y5[..]], [&ve::VENUS_Z0[..], &ve::VENUS_Z1[..], &ve::VENUS_Z2[..], &ve::VENUS_Z3[..], &ve::VENUS_Z4[..], &ve::VENUS_Z5[..]]], ss::Venus::vsop87e, Some((ss::Venus::vsop87e_vel, ss::Venus::vsop87e_pos_vel))),
            track: |j| p3(&ss::Venus.track(j).position) },
        Body { name: "Earth", a: Some(([[&va::EARTH_X0[..], &va::EARTH_X1[..], &va::EARTH_X2[..], &va::EARTH_X3[..], &va::EARTH_X4[..], &va::EARTH_X5[..]], [&va::EARTH_Y0[..], &va::EARTH_Y1[..], &va::EARTH_Y2[..], &va::EARTH_Y3[..], &va::EARTH_Y4[..], &va::EARTH_Y5[..]], [&va::EARTH_Z0[..], &va::EARTH_Z1[..], &va::EARTH_Z2[..], &va::EARTH_Z3[..], &va::EARTH_Z4[..], &va::EARTH_Z5[..]]], ss::Earth::vsop87a, ss::Earth::vsop87a_vel, ss::Earth::vsop87a_pos_vel)),
            e: ([[&ve::EARTH_X0[..], &ve::EARTH_X1[..], &ve::EARTH_X2[..], &ve::EARTH_X3[..], &ve::EARTH_X4[..], &ve::EARTH_X5[..]], [&ve::EARTH_Y0[..], &ve::EARTH_Y1[..], &ve::EARTH_Y2[..], &ve::EARTH_Y3[..], &ve::EARTH_Y4[..], &ve::EARTH_Y5[..]], [&ve::EARTH_Z0[..], &ve::EARTH_Z1[..], &ve::EARTH_Z2[..], &ve::EARTH_Z3[..], &ve::EARTH_Z4[..], &ve::EARTH_Z5[..]]], ss::Earth::vsop87e, Some((ss::Earth::vsop87e_vel, ss::Earth::vsop87e_pos_vel))),
            track: |j| p3(&ss::Earth.track(j).position) },
        Body { name: "Mars", a: Some(([[&va::MARS_X0[..], &va::MARS_X1[..], &va::MARS_X2[..], &va::MARS_X3[..], &va::MARS_X4[..], &va::MARS_X5[..]], [&va::MARS_Y0[..], &va::MARS_Y1[..], &va::MARS_Y2[..], &va::MARS_Y3[..], &va::MARS_Y4[..], &va::MARS_Y5[..]], [&va::MARS_Z0[..], &va::MARS_Z1[..], &va::MARS_Z2[..], &va::MARS_Z3[..], &va::MARS_Z4[..], &va::MARS_Z5[..]]], ss::Mars::vsop87a, ss::Mars::vsop87a_vel, ss::Mars::vsop87a_pos_vel)),
            e: ([[&ve::MARS_X0[..], &ve::MARS_X1[..], &ve::MARS_X2[..], &ve::MARS_X3[..], &ve::MARS_X4[..], &ve::MARS_X5[..]], [&ve::MARS_Y0[..], &ve::MARS_Y1[..], &ve::MARS_Y2[..], &ve::MARS_Y3[..], &ve::MARS_Y4[..], &ve::MARS_Y5[..]], [&ve::MARS_Z0[..], &ve::MARS_Z1[..], &ve::MARS_Z2[..], &ve::MARS_Z3[..], &ve::MARS_Z4[..], &ve::MARS_Z5[..]]], ss::Mars::vsop87e, Some((ss::Mars::vsop87e_vel, ss::Mars::vsop87e_pos_vel))),
            track: |j| p3(&ss::Mars.track(j).position) },
        Body { name: "Jupiter", a: Some(([[&va::JUPITER_X0[..], &va::JUPITER_X1[..], &va::JUPITER_X2[..], &va::JUPITER_X3[..], &va::JUPITER_X4[..], &va::JUPITER_X5[..]], [&va::JUPITER_Y0[..], &va::JUPITER_Y1[..], &va::JUPITER_Y2[..], &va::JUPITER_Y3[..], &va::JUPITER_Y4[..], &va::JUPITER_Y5[..]], [&va::JUPITER_Z0[..], &va::JUPITER_Z1[..], &va::JUPITER_Z2[..], &va::JUPITER_Z3[..], &va::JUPITER_Z4[..], &va::JUPITER_Z5[..]]], ss::Jupiter::vsop87a, ss::Jupiter::vsop87a_vel, ss::Jupiter::vsop87a_pos_vel)),
            e: ([[&ve::JUPITER_X0[..], &ve::JUPITER_X1[..], &ve::JUPITER_X2[..], &ve::JUPITER_X3[..], &ve::JUPITER_X4[..], &ve::JUPITER_X5[..]], [&ve::JUPITER_Y0[..], &ve::JUPITER_Y1[..], &ve::JUPITER_Y2[..], &ve::JUPITER_Y3[..], &ve::JUPITER_Y4[..], &ve::JUPITER_Y5[..]], [&ve::JUPITER_Z0[..], &ve::JUPITER_Z1[..], &ve::JUPITER_Z2[..], &ve::JUPITER_Z3[..], &ve::JUPITER_Z4[..], &ve::JUPITER_Z5[..]]], ss::Jupiter::vsop87e, Some((ss::Jupiter::vsop87e_vel, ss::Jupiter::vsop87e_pos_vel))),
            track: |j| p3(&ss::Jupiter.track(j).position) },
        Body { name: "Saturn", a: Some(([[&va::SATURN_X0[..], &va::SATURN_X1[..], &va::SATURN_X2[..], &va::SATURN_X3[..], &va::SATURN_X4[..], &va::SATURN_X5[..]], [&va::SATURN_Y0[..], &va::SATURN_Y1[..], &va::SATURN_Y2[..], &va::SATURN_Y3[..], &va::SATURN_Y4[..], &va::SATURN_Y5[..]], [&va::SATURN_Z0[..], &va::SATURN_Z1[..], &va::SATURN_Z2[..], &va::SATURN_Z3[..], &va::SATURN_Z4[..], &va::SATURN_Z5[..]]], ss::Saturn::vsop87a, ss::Saturn::vsop87a_vel, ss::Saturn::vsop87a_pos_vel)),
            e: ([[&ve::SATURN_X0[..], &ve::SATURN_X1[..], &ve::SATURN_X2[..], &ve::SATURN_X3[..], &ve::SATURN_X4[..], &ve::SATURN_X5[..]], [&ve::SATURN_Y0[..], &ve::SATURN_Y1[..], &ve::SATURN_Y2[..], &ve::SATURN_Y3[..], &ve::SATURN_Y4[..], &ve::SATURN_Y5[..]], [&ve::SATURN_Z0[..], &ve::SATURN_Z1[..], &ve::SATURN_Z2[..], &ve::SATURN_Z3[..], &ve::SATURN_Z4[..], &ve::SATURN_Z5[..]]], ss::Saturn::vsop87e, Some((ss::Saturn::vsop87e_vel, ss::Saturn::vsop87e_pos_vel))),
            track: |j| p3(&ss::Saturn.track(j).position) },
        Body { name: "Uranus", a: Some(([[&va::URANUS_X0[..], &va::URANUS_X1[..], &va::URANUS_X2[..], &va::URANUS_X3[..], &va::URANUS_X4[..], &[]], [&va::URANUS_Y0[..], &va::URANUS_Y1[..], &va::URANUS_Y2[..], &va::URANUS_Y3[..], &va::URANUS_Y4[..], &[]], [&va::URANUS_Z0[..], &va::URANUS_Z1[..], &va::URANUS_Z2[..], &va::URANUS_Z3[..], &[], &[]]], ss::Uranus::vsop87a, ss::Uranus::vsop87a_vel, ss::Uranus::vsop87a_pos_vel)),
            e: ([[&ve::URANUS_X0[..], &ve::URANUS_X1[..], &ve::URANUS_X2[..], &ve::URANUS_X3[..], &ve::URANUS_X4[..], &[]], [&ve::URANUS_Y0[..], &ve::URANUS_Y1[..], &ve::URANUS_Y2[..], &ve::URANUS_Y3[..], &ve::URANUS_Y4[..], &[]], [&ve::URANUS_Z0[..], &ve::URANUS_Z1[..], &ve::URANUS_Z2[..], &ve::URANUS_Z3[..], &[], &[]]], ss::Uranus::vsop87e, Some((ss::Uranus::vsop87e_vel, ss::Uranus::vsop87e_pos_vel))),
            track: |j| p3(&ss::Uranus.track(j).position) },
        Body { name: "Neptune", a: Some(([[&va::NEPTUNE_X0[..], &va::NEPTUNE_X1[..], &va::NEPTUNE_X2[..], &va::NEPTUNE_X3[..], &va::NEPTUNE_X4[..], &[]], [&va::NEPTUNE_Y0[..], &va::NEPTUNE_Y1[..], &va::NEPTUNE_Y2[..], &va::NEPTUNE_Y3[..], &va::NEPTUNE_Y4[..], &[]], [&va::NEPTUNE_Z0[..], &va::NEPTUNE_Z1[..], &va::NEPTUNE_Z2[..], &va::NEPTUNE_Z3[..], &[], &[]]], ss::Neptune::vsop87a, ss::Neptune::vsop87a_vel, ss::Neptune::vsop87a_pos_vel)),
            e: ([[&ve::NEPTUNE_X0[..], &ve::NEPTUNE_X1[..], &ve::NEPTUNE_X2[..], &ve::NEPTUNE_X3[..], &ve::NEPTUNE_X4[..], &[]], [&ve::NEPTUNE_Y0[..], &ve::NEPTUNE_Y1[..], &ve::NEPTUNE_Y2[..], &ve::NEPTUNE_Y3[..], &ve::NEPTUNE_Y4[..], &[]], [&ve::NEPTUNE_Z0[..], &ve::NEPTUNE_Z1[..], &ve::NEPTUNE_Z2[..], &ve::NEPTUNE_Z3[..], &[], &[]]], ss::Neptune::vsop87e, Some((ss::Neptune::vsop87e_vel, ss::Neptune::vsop87e_pos_vel))),
            track: |j| p3(&ss::Neptune.track(j).position) },
    ]
}
/// ELP2000-82B, term by term (angles rad, km).
fn elp(jd: f64) -> V3 {
    let t1 = (jd - J2000) / 36525.0;
    let t = [1.0, t1, t1 * t1, t1.powi(3), t1.powi(4)];
    let poly = |c: &[Radians]| c.iter().zip(t).map(|(c, t)| c.value() * t).sum::<f64>();
    let del: Vec<f64> = (0..4).map(|i| poly(&k::DEL[i])).collect();
    let dl: Vec<f64> = (0..4).map(|i| poly(&k::DEL[i][..2])).collect();
    let pl: Vec<f64> = (0..8).map(|i| poly(&k::P_ARGS[i])).collect();
    let zeta = poly(&k::ZETA);
    let main = |s: &[MainProblem], ph: f64| -> f64 { s.iter().map(|x| {
        let c = x.a + (x.b[0] + k::DTASM * x.b[4]) * (k::DELNP.value() - k::AM * k::DELNU.value()) + x.b[1] * k::DELG.value() + x.b[2] * k::DELE.value() + x.b[3] * k::DELEP.value();
        c * ((0..4).map(|i| x.ilu[i] as f64 * del[i]).sum::<f64>() + ph).sin() }).sum() };
    let fig = |s: &[EarthPert], f: f64| -> f64 { s.iter().map(|x| f * x.a * (x.o.to_radians() + x.iz * zeta + (0..4).map(|i| x.ilu[i] as f64 * dl[i]).sum::<f64>()).sin()).sum() };
    let pla = |s: &[PlanetPert], f: f64, second: bool| -> f64 { s.iter().map(|x| {
        let mut y = x.theta.to_radians();
        if second { for i in 0..7 { y += x.ipla[i] as f64 * pl[i] } for i in 0..4 { y += x.ipla[i + 7] as f64 * dl[i] } }
        else { for i in 0..8 { y += x.ipla[i] as f64 * pl[i] } y += x.ipla[8] as f64 * dl[0] + x.ipla[9] as f64 * dl[2] + x.ipla[10] as f64 * dl[3]; }
        f * x.o * y.sin() }).sum() };
    let h = std::f64::consts::FRAC_PI_2;
    let mut r = [main(&e::ELP1[..], 0.0), main(&e::ELP2[..], 0.0), main(&e::ELP3[..], h)];
    let t2 = t1 * t1;
    let figs: [[(&[EarthPert], f64); 6]; 3] = [
        [(&e::ELP4[..], 1.0), (&e::ELP7[..], t1), (&e::ELP22[..], 1.0), (&e::ELP25[..], t1), (&e::ELP28[..], 1.0), (&e::ELP31[..], 1.0)],
        [(&e::ELP5[..], 1.0), (&e::ELP8[..], t1), (&e::ELP23[..], 1.0), (&e::ELP26[..], t1), (&e::ELP29[..], 1.0), (&e::ELP32[..], 1.0)],
        [(&e::ELP6[..], 1.0), (&e::ELP9[..], t1), (&e::ELP24[..], 1.0), (&e::ELP27[..], t1), (&e::ELP30[..], 1.0), (&e::ELP33[..], 1.0)]];
    let late: [&[EarthPert]; 3] = [&e::ELP34[..], &e::ELP35[..], &e::ELP36[..]];
    let plas: [[(&[PlanetPert], f64, bool); 4]; 3] = [
        [(&e::ELP10[..], 1.0, false), (&e::ELP13[..], t1, false), (&e::ELP16[..], 1.0, true), (&e::ELP19[..], t1, true)],
        [(&e::ELP11[..], 1.0, false), (&e::ELP14[..], t1, false), (&e::ELP17[..], 1.0, true), (&e::ELP20[..], t1, true)],
        [(&e::ELP12[..], 1.0, false), (&e::ELP15[..], t1, false), (&e::ELP18[..], 1.0, true), (&e::ELP21[..], t1, true)]];
    for i in 0..3 {
        for (s, f) in figs[i] { r[i] += fig(s, f) }
        for (s, f, b) in plas[i] { r[i] += pla(s, f, b) }
        r[i] += fig(late[i], t2);
    }
    let lon = r[0] * AS2R + poly(&k::W1);
    let v = scale(sph(lon, r[1] * AS2R), r[2] * k::A0.value() / k::ATH.value());
    // Mean ecliptic of date with ELP's origin to J2000 (Laskar's P and Q).
    let p = t1 * (k::P1 + t1 * (k::P2 + t1 * (k::P3 + t1 * (k::P4 + t1 * k::P5))));
    let q = t1 * (k::Q1 + t1 * (k::Q2 + t1 * (k::Q3 + t1 * (k::Q4 + t1 * k::Q5))));
    let s = 2.0 * (1.0 - p * p - q * q).sqrt();
    mv(&[[1.0 - 2.0 * p * p, 2.0 * p * q, p * s], [2.0 * p * q, 1.0 - 2.0 * q * q, -q * s], [-p * s, q * s, 1.0 - 2.0 * p * p - 2.0 * q * q]], v)
}
/// Meeus chapter 37.
fn pluto(jd: f64) -> V3 {
    let t = (jd - J2000) / 36525.0;
    let (j, s, p) = (34.35 + 3034.9057 * t, 50.08 + 1222.1138 * t, 238.96 + 144.96 * t);
    let (mut l, mut b, mut r) = (0.0, 0.0, 0.0);
    for i in 0..pd::PLUTO_ARGUMENTS.len() {
        let a = &pd::PLUTO_ARGUMENTS[i];
        let x = (a.j * j + a.s * s + a.p * p).to_radians();
        l += pd::PLUTO_LONGITUDE_TERMS[i].a * x.sin() + pd::PLUTO_LONGITUDE_TERMS[i].b * x.cos();
        b += pd::PLUTO_LATITUDE_TERMS[i].a * x.sin() + pd::PLUTO_LATITUDE_TERMS[i].b * x.cos();
        r += pd::PLUTO_RADIUS_TERMS[i].a * x.sin() + pd::PLUTO_RADIUS_TERMS[i].b * x.cos();
    }
    scale(sph((238.958116 + 144.96 * t + l * 1e-6).to_radians(), (-3.908239 + b * 1e-6).to_radians()), 40.7241346 + r * 1e-7)
}
fn main() {
    let mut c = Check::new("C16", "all bodies with random TT epochs, 1600-2400 for the planets and Moon (plus -2000..+6000 at lower weight), 1885-2099 for Pluto; every case is non-trivial");
    c.assume("the coefficient tables themselves come from the external crate siderust-archive and are taken as published");
    let jd = || prop_oneof![5 => jd_wide(), 1 => 990_000.0f64..3_910_000.0];
    c.prop("planets", 9_000, move || (0usize..9, jd()), |(b, jd)| {
        thread_local! { static B: Vec<Body> = bodies(); }
        B.with(|bs| {
            let b = &bs[*b];
            let j = JulianDate::new(*jd);
            let check = |what: &str, t: &Tab, p: V3, v: V3, pv: (V3, V3)| -> Result<(), String> {
                let (rp, rv) = series(t, *jd);
                ensure!(dist(p, rp) < 3e-11 * (1.0 + norm(rp)) + 4e-9 * norm(rv), "{} {}: position {:?}, the series says {:?}", b.name, what, p, rp);
                ensure!(dist(v, rv) < 3e-12 + 1e-9 * norm(rv), "{} {}: velocity {:?}, the series says {:?}", b.name, what, v, rv);
                ensure!(dist(pv.0, p) < 1e-12 * (1.0 + norm(p)) && dist(pv.1, v) < 1e-13, "{} {}: position and velocity together differ: {:?}", b.name, what, pv);
                Ok(())
            };
            if let Some((t, p, v, pv)) = &b.a {
                let q = pv(j);
                check("heliocentric", t, p3(&p(j)), v3(&v(j)), (p3(&q.0), v3(&q.1)))?;
                // Heliocentric = barycentric minus the Sun's (the two theories agree to a microradian).
                let d = sub(p3(&(b.e.1)(j)), p3(&ss::Sun::vsop87e(j)));
                if (2_305_447.5..2_597_641.5).contains(jd) { ensure!(dist(d, p3(&p(j))) < 2e-7 * norm(d), "{}: VSOP87A and VSOP87E differ by {:e} AU", b.name, dist(d, p3(&p(j)))); }
            }
            ensure!((b.track)(j) == p3(&(b.e.1)(j)), "{}: tracked position differs", b.name);
            let Some((vel, pv)) = b.e.2 else {
                let (p, (rp, rv)) = (p3(&(b.e.1)(j)), series(&b.e.0, *jd));
                ensure!(dist(p, rp) < 3e-11 * (1.0 + norm(rp)) + 4e-9 * norm(rv), "{}: position {:?}, the series says {:?}", b.name, p, rp);
                return Ok(b.name)
            };
            let q = pv(j);
            check("barycentric", &b.e.0, p3(&(b.e.1)(j)), v3(&vel(j)), (p3(&q.0), v3(&q.1)))?;
            // Velocity is the derivative of the position as given.
            let h = 0.25;
            let f = |x: f64| p3(&(b.e.1)(JulianDate::new(jd + x)));
            let fd = scale(sub(scale(sub(f(h), f(-h)), 8.0), sub(f(2.0 * h), f(-2.0 * h))), 1.0 / (12.0 * h));
            ensure!(dist(fd, v3(&vel(j))) < 5e-8, "{}: velocity {:?}, finite difference {:?}", b.name, v3(&vel(j)), fd);
            Ok(b.name)
        })
    });
    c.prop("moon", 700, move || jd(), |jd| {
        let j = JulianDate::new(*jd);
        let p = p3(&ss::Moon::get_geo_position::<Kilometer>(j));
        let r = elp(*jd);
        ensure!(dist(p, r) < 2e-3, "Moon {:?}, ELP2000-82B says {:?} ({} km apart)", p, r, dist(p, r));
        let m = p3(&ss::Moon::get_geo_position::<Meter>(j));
        ensure!(dist(scale(m, 1e-3), p) < 1e-6, "in metres {:?}", m);
        ensure!(p3(&ss::Moon.track(j)) == p, "tracked position differs");
        if (2_305_447.5..2_597_641.5).contains(jd) {
            // Meeus' abridged theory, referred to the equinox of date; six terms only.
            let q = moon_position_meeus_ch47(j);
            let v = sph(q.ecl_lon.value(), q.ecl_lat.value());
            let t = centuries(*jd);
            let pa = (5028.796195 * t + 1.1054348 * t * t) * AS2R;
            let w = unit(p);
            let of_date = mv(&r3(-pa), w);
            ensure!(angle(v, of_date) < 0.016, "Meeus chapter 47: {:.5} rad from ELP2000", angle(v, of_date));
            ensure!((q.dist.value() - norm(p)).abs() < 2_500.0, "Meeus distance {} vs {}", q.dist.value(), norm(p));
            let eq = sph(q.ra.value(), q.dec.value());
            let want = mv(&r1(-obl06(*jd)), v);
            ensure!(angle(eq, want) < 1e-9, "equatorial {:?} from ecliptic {:?}", (q.ra, q.dec), (q.ecl_lon, q.ecl_lat));
        }
        Ok("moon")
    });
    c.prop("meeus", 6_000, jd_wide, |jd| {
        let q = moon_position_meeus_ch47(JulianDate::new(*jd));
        let t = centuries(*jd);
        let p = |c: [f64; 5]| (c[0] + t * (c[1] + t * (c[2] + t * (c[3] + t * c[4])))).to_radians();
        let lp = p([218.3164477, 481267.88123421, -0.0015786, 1.0 / 538841.0, -1.0 / 65194000.0]);
        let d = p([297.8501921, 445267.1114034, -0.0018819, 1.0 / 545868.0, -1.0 / 113065000.0]);
        let m = p([357.5291092, 35999.0502909, -0.0001536, 1.0 / 24490000.0, 0.0]);
        let mp = p([134.9633964, 477198.8675055, 0.0087414, 1.0 / 69699.0, -1.0 / 14712000.0]);
        let f = p([93.2720950, 483202.0175233, -0.0036539, -1.0 / 3526000.0, 1.0 / 863310000.0]);
        // Table 47.A and 47.B: the terms above 0.1 deg (longitude, latitude) and 500 km.
        let l = [(0., 0., 1., 0., 6288774.0), (2., 0., -1., 0., 1274027.0), (2., 0., 0., 0., 658314.0), (0., 0., 2., 0., 213618.0), (0., 1., 0., 0., -185116.0), (0., 0., 0., 2., -114332.0)];
        let b = [(0., 0., 0., 1., 5128122.0), (0., 0., 1., 1., 280602.0), (0., 0., 1., -1., 277693.0), (2., 0., 0., -1., 173237.0)];
        let r = [(0., 0., 1., 0., -20905355.0), (2., 0., -1., 0., -3699111.0), (2., 0., 0., 0., -2955968.0), (0., 0., 2., 0., -569925.0)];
        let arg = |x: &(f64, f64, f64, f64, f64)| x.0 * d + x.1 * m + x.2 * mp + x.3 * f;
        let lon = lp + (l.iter().map(|x| x.4 * arg(x).sin()).sum::<f64>() * 1e-6).to_radians();
        let lat = (b.iter().map(|x| x.4 * arg(x).sin()).sum::<f64>() * 1e-6).to_radians();
        let dd = 385000.56 + r.iter().map(|x| x.4 * arg(x).cos()).sum::<f64>() * 1e-3;
        // An eccentricity factor on the solar term (up to 0.01 of 0.185 deg) is within the abridgement.
        ensure!(adiff(q.ecl_lon.value(), lon) < 4.5e-5 && adiff(q.ecl_lat.value(), lat) < 1e-7 && (q.dist.value() - dd).abs() < 1e-2, "{:?} expected {} {} {}", (q.ecl_lon, q.ecl_lat, q.dist), wrap_tau(lon), lat, dd);
        let want = mv(&r1(-obl06(*jd)), sph(q.ecl_lon.value(), q.ecl_lat.value()));
        ensure!(angle(sph(q.ra.value(), q.dec.value()), want) < 1e-9, "equatorial place");
        Ok("meeus")
    });
    c.prop("pluto", 12_000, || prop_oneof![3 => 2_409_543.0f64..2_488_069.0, 1 => jd_wide()], |jd| {
        let p = p3(&Pluto::get_heliocentric(JulianDate::new(*jd)));
        ensure!(dist(p, pluto(*jd)) < 1e-9, "Pluto {:?}, the series says {:?}", p, pluto(*jd));
        Ok("pluto")
    });
    c.prop("backend views", 2_500, jd_wide, |jd| {
        let j = JulianDate::new(*jd);
        type E = Vsop87Ephemeris;
        let d: &dyn siderust::ephemeris::DynEphemeris = &Vsop87Ephemeris;
        let (s, eb, eh, v, m) = (p3(&E::sun_barycentric(j)), p3(&E::earth_barycentric(j)), p3(&E::earth_heliocentric(j)), v3(&E::earth_barycentric_velocity(j)), p3(&E::moon_geocentric(j)));
        ensure!(s == p3(&ss::Sun::vsop87e(j)) && eb == p3(&ss::Earth::vsop87e(j)) && eh == p3(&ss::Earth::vsop87a(j)) && v == v3(&ss::Earth::vsop87e_vel(j)) && m == p3(&ss::Moon::get_geo_position::<Kilometer>(j)), "static backend differs from the bodies");
        ensure!(s == p3(&d.sun_barycentric(j)) && eb == p3(&d.earth_barycentric(j)) && eh == p3(&d.earth_heliocentric(j)) && v == v3(&d.earth_barycentric_velocity(j)) && m == p3(&d.moon_geocentric(j)), "dynamic backend differs");
        let t = (p3(&E::try_sun_barycentric(j).unwrap()), p3(&E::try_earth_barycentric(j).unwrap()), p3(&E::try_earth_heliocentric(j).unwrap()), v3(&E::try_earth_barycentric_velocity(j).unwrap()), p3(&E::try_moon_geocentric(j).unwrap()));
        ensure!(t == (s, eb, eh, v, m), "checked static calls differ");
        let t = (p3(&d.try_sun_barycentric(j).unwrap()), p3(&d.try_earth_barycentric(j).unwrap()), p3(&d.try_earth_heliocentric(j).unwrap()), v3(&d.try_earth_barycentric_velocity(j).unwrap()), p3(&d.try_moon_geocentric(j).unwrap()));
        ensure!(t == (s, eb, eh, v, m), "checked dynamic calls differ");
        ensure!(dist(sub(eb, s), eh) < 2e-7, "Earth: barycentric minus Sun {:?}, heliocentric {:?}", sub(eb, s), eh);
        Ok("views")
    });
    c.finish()
}
