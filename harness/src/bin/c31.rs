//! C31: orbit force models give the physical accelerations.
use principia::{AccelerationModel, CompositeModel, GravityFieldProvider, PrincipiaError, TwoBody, J2};
use proptest::prelude::*;
use siderust::astro::dynamics::context::{DynamicsContext, DynamicsContextBuilder};
use siderust::astro::dynamics::density::*;
use siderust::astro::dynamics::errors::DynamicsError;
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::gravity::{LowDegreeEarth, TwoBodyEarth};
use siderust::astro::dynamics::{OrbitState, Position, SpacecraftProperties, Velocity};
use siderust::astro::earth_rotation::jd_ut1_from_tt;
use siderust::coordinates::cartesian::{Position as CartPosition, Velocity as CartVelocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, GCRS};
use siderust::ephemeris::{AuPerDay, DynEphemeris, EphemerisError};
use siderust::pod::force::{EmpiricalPeriodicAcceleration, PeriodicHarmonic};
use siderust::qtty::{AreaToMass, AstronomicalUnit, DragCoefficient, InverseSeconds, Kilograms, KilogramsPerCubicMeter, Kilometer, Kilometers, KmPerSecondsSquared, Ratios, SquareMeters, SrpCoefficient};
use siderust::time::JulianDate;
use siderust::astro::dynamics::units::GravitationalParameter;
use std::sync::Arc;
use vharness::gen::*;
use vharness::*;

type V = [f64; 3];
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn norm(a: V) -> f64 { dot(a, a).sqrt() }
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn mul(k: f64, a: V) -> V { a.map(|x| k * x) }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn unit(a: V) -> V { mul(1.0 / norm(a), a) }

type Acc = Result<V, PrincipiaError>;
fn state(jd: f64, r: V, v: V) -> OrbitState { OrbitState::new(JulianDate::new(jd).to_j2000s(), Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(v[0], v[1], v[2])) }
fn eval<M: AccelerationModel<DynamicsContext, tempoch::TT, Geocentric, GCRS>>(m: &M, s: &OrbitState, ctx: &DynamicsContext) -> Result<Acc, String> {
    let v = |a: siderust::astro::dynamics::Acceleration| [a.x().value(), a.y().value(), a.z().value()];
    np("acceleration", || m.acceleration(s, ctx)).map(|r| r.map(v))
}
fn near(what: &str, g: V, w: V, rel: f64, abs: f64) -> Result<(), String> { ensure!(norm(sub(g, w)) <= rel * norm(w) + abs, "{what}: {g:?}, expected {w:?} (off by {:e} of {:e})", norm(sub(g, w)), norm(w)); Ok(()) }

/// Positions from low Earth orbit to beyond the Moon.
fn pos() -> impl Strategy<Value = V> { (unit_vec(), prop_oneof![4 => 6_500.0f64..9_000.0, 3 => logu(3.82, 4.8), 1 => logu(4.8, 6.0)]).prop_map(|(u, r)| mul(r, u)) }
fn vel() -> impl Strategy<Value = V> { (unit_vec(), prop_oneof![6 => 0.1f64..12.0, 1 => Just(0.0)]).prop_map(|(u, r)| mul(r, u)) }

// ------------------------------------------------------------------ providers
struct Eph { sun: V, earth: V, moon: V }
macro_rules! both { ($t:ident, $n:ident, $r:ty, $e:expr) => {
    fn $t(&self, t: JulianDate) -> Result<$r, EphemerisError> { let f: fn(&Eph) -> $r = $e; Ok(f(&self.at(t))) }
    fn $n(&self, t: JulianDate) -> $r { let f: fn(&Eph) -> $r = $e; f(&self.at(t)) }
} }
/// Every body moves, each at its own pace, so that the date asked for matters.
fn moved(e: &(V, V, V), jd: f64) -> (V, V, V) { let w = |k: f64| 1.0 + 0.02 * (k * (jd - 2_451_545.0)).sin(); (e.0.map(|x| x * w(0.9)), e.1.map(|x| x * w(0.13)), e.2.map(|x| x * w(1.7))) }
impl Eph { fn at(&self, t: JulianDate) -> Eph { let (sun, earth, moon) = moved(&(self.sun, self.earth, self.moon), t.raw().value()); Eph { sun, earth, moon } } }
impl DynEphemeris for Eph {
    both!(try_sun_barycentric, sun_barycentric, CartPosition<Barycentric, EclipticMeanJ2000, AstronomicalUnit>, |e| CartPosition::new(e.sun[0], e.sun[1], e.sun[2]));
    both!(try_earth_barycentric, earth_barycentric, CartPosition<Barycentric, EclipticMeanJ2000, AstronomicalUnit>, |e| CartPosition::new(e.earth[0], e.earth[1], e.earth[2]));
    both!(try_earth_heliocentric, earth_heliocentric, CartPosition<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>, |e| CartPosition::new(e.earth[0] - e.sun[0], e.earth[1] - e.sun[1], e.earth[2] - e.sun[2]));
    both!(try_earth_barycentric_velocity, earth_barycentric_velocity, CartVelocity<EclipticMeanJ2000, AuPerDay>, |_| CartVelocity::new(0.0, 0.0, 0.0));
    both!(try_moon_geocentric, moon_geocentric, CartPosition<Geocentric, EclipticMeanJ2000, Kilometer>, |e| CartPosition::new(e.moon[0], e.moon[1], e.moon[2]));
}
const AU: f64 = 149_597_870.7;
/// Mean obliquity of J2000 (84381.406").
fn to_equator(v: V) -> V { let e = (84_381.406f64 / 3600.0).to_radians(); [v[0], v[1] * e.cos() - v[2] * e.sin(), v[1] * e.sin() + v[2] * e.cos()] }
fn eph() -> impl Strategy<Value = (V, V, V)> {
    let b = || [-0.02f64..0.02, -0.02f64..0.02, -0.02f64..0.02];
    (b(), unit_vec(), 0.97f64..1.03, unit_vec(), 350_000.0f64..410_000.0).prop_map(|(sun, u, d, m, dm)| (sun, sub(sun, mul(d, u)), mul(dm, m)))
}
fn with_eph(e: &(V, V, V)) -> DynamicsContext { DynamicsContextBuilder::new().with_ephemeris(Arc::new(Eph { sun: e.0, earth: e.1, moon: e.2 })).build() }
fn sun_km(e: &(V, V, V)) -> V { to_equator(mul(AU, sub(e.0, e.1))) }
/// The frame bias between the mean equator of J2000 and GCRS is some 20 mas.
const BIAS: f64 = 3e-7;

struct Field { mu: f64, re: f64, n: usize, c: Vec<f64>, s: Vec<f64> }
impl GravityFieldProvider for Field {
    fn mu(&self) -> GravitationalParameter { GravitationalParameter::new(self.mu) }
    fn reference_radius(&self) -> Kilometers { Kilometers::new(self.re) }
    fn max_degree(&self) -> usize { self.n }
    fn c_normalized(&self, n: usize, m: usize) -> Result<f64, PrincipiaError> { Ok(self.c[n * (n + 1) / 2 + m]) }
    fn s_normalized(&self, n: usize, m: usize) -> Result<f64, PrincipiaError> { Ok(self.s[n * (n + 1) / 2 + m]) }
}
/// Cunningham's recursion for the gradient of the potential, in Cartesian coordinates and unnormalised coefficients.
fn cunningham(mu: f64, re: f64, deg: usize, ord: usize, cs: &dyn Fn(usize, usize) -> (f64, f64), r: V) -> V {
    let n = deg + 2;
    let r2 = dot(r, r);
    let (x0, y0, z0, rho) = (re * r[0] / r2, re * r[1] / r2, re * r[2] / r2, re * re / r2);
    let mut v = vec![vec![0.0; n + 1]; n + 1]; let mut w = v.clone();
    v[0][0] = re / r2.sqrt();
    for m in 0..=n {
        if m > 0 { let k = 2.0 * m as f64 - 1.0; v[m][m] = k * (x0 * v[m - 1][m - 1] - y0 * w[m - 1][m - 1]); w[m][m] = k * (x0 * w[m - 1][m - 1] + y0 * v[m - 1][m - 1]) }
        for l in m + 1..=n {
            let (a, b) = ((2 * l - 1) as f64 / (l - m) as f64, (l + m - 1) as f64 / (l - m) as f64);
            v[l][m] = a * z0 * v[l - 1][m] - if l >= m + 2 { b * rho * v[l - 2][m] } else { 0.0 };
            w[l][m] = a * z0 * w[l - 1][m] - if l >= m + 2 { b * rho * w[l - 2][m] } else { 0.0 };
        }
    }
    let mut a = [0.0; 3];
    for l in 0..=deg { for m in 0..=l.min(ord) {
        let (c, s) = cs(l, m);
        // Unnormalise.
        let mut f = (2 * l + 1) as f64 * if m == 0 { 1.0 } else { 2.0 };
        for k in l - m + 1..=l + m { f /= k as f64 }
        let (c, s) = (c * f.sqrt(), s * f.sqrt());
        if m == 0 { a[0] -= c * v[l + 1][1]; a[1] -= c * w[l + 1][1] } else {
            let k = ((l - m + 1) * (l - m + 2)) as f64;
            a[0] += 0.5 * (-c * v[l + 1][m + 1] - s * w[l + 1][m + 1] + k * (c * v[l + 1][m - 1] + s * w[l + 1][m - 1]));
            a[1] += 0.5 * (-c * w[l + 1][m + 1] + s * v[l + 1][m + 1] + k * (-c * w[l + 1][m - 1] + s * v[l + 1][m - 1]));
        }
        a[2] += (l - m + 1) as f64 * (-c * v[l + 1][m] - s * w[l + 1][m]);
    } }
    mul(mu / (re * re), a)
}
/// IAU 2000 Earth rotation angle.
fn era(ut1: f64) -> f64 { let t = ut1 - 2_451_545.0; std::f64::consts::TAU * (0.779_057_273_264_0 + 0.002_737_811_911_354_48 * t + t.fract()).rem_euclid(1.0) }
fn rz(a: f64, v: V) -> V { [a.cos() * v[0] - a.sin() * v[1], a.sin() * v[0] + a.cos() * v[1], v[2]] }

/// EGM2008 tide-free coefficients, from the published model; the table itself belongs to another crate (siderust-archive) and is only compared to 1%.
const EGM: [(usize, usize, f64, f64); 12] = [(2, 0, -0.484165143790815e-3, 0.0), (2, 1, -0.206615509074176e-9, 0.138441389137979e-8), (2, 2, 0.243938357328313e-5, -0.140027370385934e-5), (3, 0, 0.957161207093473e-6, 0.0), (3, 1, 0.203046201047864e-5, 0.248200415856872e-6), (3, 2, 0.904787894809528e-6, -0.619005475177618e-6), (3, 3, 0.721321757121568e-6, 0.141434926192941e-5), (4, 0, 0.539965866638991e-6, 0.0), (4, 1, -0.536157389388867e-6, -0.473567346518086e-6), (4, 2, 0.350501623962649e-6, 0.662480026275829e-6), (4, 3, 0.990856766672321e-6, -0.200956723567452e-6), (4, 4, -0.188519633023033e-6, 0.308803882149194e-6)];
/// Known finding: the table's C(4,3), C(4,4) and S(4,4) are a tenth of the published values.
const KNOWN_44: (f64, f64) = (-1.88844e-8, 3.088772e-8);
const KNOWN_C43: f64 = 9.908551e-8;
fn egm(n: usize, m: usize) -> (f64, f64) { if n == 0 { return (1.0, 0.0) } EGM.iter().find(|x| (x.0, x.1) == (n, m)).map_or((0.0, 0.0), |x| (x.2, x.3)) }

struct Layer { rho: f64, slope: f64 }
impl DensityProvider for Layer {
    fn name(&self) -> &'static str { "layer" }
    fn density(&self, h: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> { Ok(KilogramsPerCubicMeter::new(self.rho * (1.0 + self.slope * h.value()))) }
}
const A: f64 = 6_378.137;
const F: f64 = 1.0 / 298.257_223_563;
fn geodetic(lat: f64, lon: f64, h: f64, a: f64, f: f64) -> V { let e2 = f * (2.0 - f); let n = a / (1.0 - e2 * lat.sin().powi(2)).sqrt(); [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2) + h) * lat.sin()] }

/// Visible fraction of a disc of radius `s` behind one of radius `e`, centres `c` apart, by strips.
fn lit(s: f64, e: f64, c: f64) -> f64 {
    let n = 4000;
    let mut hidden = 0.0;
    for k in 0..n { let t = std::f64::consts::PI * (k as f64 + 0.5) / n as f64; let (x, hs) = (-s * t.cos(), s * t.sin()); let d = c - x; if d.abs() < e { hidden += hs.min((e * e - d * d).sqrt()) * 2.0 * hs * std::f64::consts::PI / n as f64 } }
    1.0 - hidden / (std::f64::consts::PI * s * s)
}
fn shadow<S: EclipseModel>(r: V, sun: V) -> f64 { use affn::cartesian::Displacement as D; S::eclipse_factor(D::<GCRS, Kilometer>::new(r[0], r[1], r[2]), D::<GCRS, Kilometer>::new(sun[0], sun[1], sun[2])).value() }

fn main() {
    let mut c = Check::new("C31", "cases with a non-zero acceleration or a refusal that was due");
    c.assume("Earth-fixed gravity is rotated by the Earth rotation angle of UT1 alone and drag altitude by no rotation, as documented");
    c.assume("UT1 comes from the library's own time scale conversion (decided by C10)");

    c.prop("geopotential is the gradient of the spherical-harmonic potential", 6000, || (pos(), jd_modern(), 0usize..13, 0usize..13, proptest::collection::vec((-1.0f64..1.0, -1.0f64..1.0), 91), logu(3.0, 7.0), 1000.0f64..6_400.0, any::<bool>()), |(r, jd, deg, ord, k, mu, re, flat)| {
        let (deg, ord) = if *flat { (*deg, 0) } else { (*deg, *ord) };
        let scale = |i: usize| if i == 0 { 1.0 } else { 1e-2 };
        let f = Field { mu: *mu, re: *re, n: 12, c: k.iter().enumerate().map(|(i, x)| if i == 0 { 1.0 } else { x.0 * scale(i) }).collect(), s: { let mut v = vec![]; for n in 0..13 { for m in 0..=n { let i = n * (n + 1) / 2 + m; v.push(if m == 0 { 0.0 } else { k[i].1 * scale(i) }) } } v } };
        let cosphi = r[0].hypot(r[1]) / norm(*r);
        if cosphi < 1e-8 { return Ok("-on the axis") }
        let s = state(*jd, *r, [0.0, 7.0, 1.0]);
        let cs = |n: usize, m: usize| (f.c[n * (n + 1) / 2 + m], f.s[n * (n + 1) / 2 + m]);
        let ut1 = jd_ut1_from_tt(s.epoch.to::<tempoch::JD>()).value();
        let th = era(ut1);
        let want = if ord == 0 { cunningham(*mu, *re, deg, 0, &cs, *r) } else { rz(th, cunningham(*mu, *re, deg, ord, &cs, rz(-th, *r))) };
        let ctx = DynamicsContextBuilder::new().with_gravity(Arc::new(Field { mu: f.mu, re: f.re, n: f.n, c: f.c.clone(), s: f.s.clone() })).build();
        let got = eval(&Geopotential::new(deg, ord), &s, &ctx)?;
        if ord > deg { ensure!(got.is_err(), "degree {deg} order {ord} gives {got:?}"); return Ok("order above degree") }
        let got = got.map_err(|e| format!("degree {deg} order {ord}: {e}"))?;
        // Day fractions of a Julian date carry 4e-5 s, that is 3e-9 rad of rotation of the non-central part; the kernel (principia) drops the transverse part within 1e-12 of the axis and starts its recursion from a root of three good to 6e-10.
        near(&format!("degree {deg} order {ord}"), got, want, 1e-10, 3e-9 * 0.02 * mu / dot(*r, *r) * ((deg + 1) * (deg + 1)) as f64 / cosphi)?;
        if ord == deg { ensure!(eval(&Geopotential::full(deg), &s, &ctx)?.map_err(|e| e.to_string())? == got, "full({deg}) differs") }
        ensure!(eval(&Geopotential::new(13, ord), &s, &ctx)?.is_err(), "degree 13 of a degree-12 field is evaluated");
        Ok(if deg >= 2 { "harmonics" } else { "central" })
    });
    c.prop("built-in Earth gravity fields", 2000, || (pos(), jd_modern(), 0usize..5, 0usize..5), |(r, jd, deg, ord)| {
        if norm(*r) < 6_400.0 || ord > deg { return Ok("-not evaluated") }
        let s = state(*jd, *r, [0.0, 7.0, 1.0]);
        let th = era(jd_ut1_from_tt(s.epoch.to::<tempoch::JD>()).value());
        let low = DynamicsContextBuilder::new().with_gravity(Arc::new(LowDegreeEarth)).build();
        let own = |n: usize, m: usize| (LowDegreeEarth.c_normalized(n, m).unwrap(), LowDegreeEarth.s_normalized(n, m).unwrap());
        let want = rz(th, cunningham(398_600.441_8, A, *deg, *ord, &own, rz(-th, *r)));
        if r[0].hypot(r[1]) < 1e-3 * norm(*r) { return Ok("-on the axis") }
        near("LowDegreeEarth", eval(&Geopotential::new(*deg, *ord), &s, &low)?.map_err(|e| e.to_string())?, want, 1e-9, 0.0)?;
        let two = DynamicsContextBuilder::new().with_gravity(Arc::new(TwoBodyEarth)).build();
        near("TwoBodyEarth", eval(&Geopotential::new(0, 0), &s, &two)?.map_err(|e| e.to_string())?, mul(-398_600.441_8 / norm(*r).powi(3), *r), 1e-13, 0.0)?;
        for n in 0..9 { for m in 0..9 {
            let w = if m > n { (0.0, 0.0) } else { egm(n, m) };
            let g = (LowDegreeEarth.c_normalized(n, m).map_err(|e| e.to_string())?, LowDegreeEarth.s_normalized(n, m).map_err(|e| e.to_string())?);
            let listed = [((4, 3), KNOWN_C43, g.1), ((4, 4), KNOWN_44.0, KNOWN_44.1)].iter().any(|k| k.0 == (n, m) && (k.1, k.2) == g && (m == 4 || close(g.1, w.1, 0.0, 1e-2))); ensure!(listed || close(g.0, w.0, 1e-12, 1e-2) && close(g.1, w.1, 1e-12, 1e-2), "coefficients ({n}, {m}) are {g:?}, EGM2008 has {w:?}");
        } }
        Ok("earth field")
    });

    c.known_finding(|| { let g = LowDegreeEarth.c_normalized(4, 3).unwrap(); (!close(g, egm(4, 3).0, 0.0, 1e-2)).then(|| format!("LowDegreeEarth serves C(4,3) = {g:e}, EGM2008 has {:e}; C(4,4) and S(4,4) are a tenth of theirs too (coefficient table of siderust-archive)", egm(4, 3).0)) });

    c.prop("third bodies attract the satellite relative to the Earth", 8000, || (pos(), eph(), jd_modern(), 1u8..8, logu(0.0, 9.0), unit_vec(), logu(4.0, 9.0)), |(r, e, jd, which, mu, u, d)| {
        struct Fixed(f64, V);
        impl ThirdBodyProvider for Fixed {
            fn name(&self) -> &'static str { "made up" }
            fn gm(&self) -> GravitationalParameter { GravitationalParameter::new(self.0) }
            fn position_relative_to_origin(&self, _: &Arc<dyn DynEphemeris + Send + Sync>, _: JulianDate) -> Result<affn::cartesian::Displacement<GCRS, Kilometer>, DynamicsError> { Ok(affn::cartesian::Displacement::new(self.1[0], self.1[1], self.1[2])) }
        }
        let s = state(*jd, *r, [1.0, 2.0, 3.0]);
        let ctx = with_eph(e);
        let e = &moved(e, *jd);
        let mut m = ThirdBody::new();
        let mut parts: Vec<(f64, V, f64)> = vec![];
        if which & 1 == 1 { m = m.with_sun(); parts.push((1.327_124_4e11, sun_km(e), BIAS + 1e-7)) }
        if which & 2 == 2 { m = m.with_moon(); parts.push((4_902.8, to_equator(e.2), BIAS + 1e-4)) }
        if which & 4 == 4 { m = m.with(Box::new(Fixed(*mu, mul(*d, *u)))); parts.push((*mu, mul(*d, *u), 0.0)) }
        let mut want = [0.0; 3]; let mut tol = 1e-30;
        for (gm, b, t) in &parts {
            let x = sub(*b, *r);
            let (nx, nb) = (norm(x), norm(*b));
            if nx < 0.02 * nb { return Ok("-collision") }
            // mu (d/|d|^3 - b/|b|^3), with the small difference of the two written out.
            let q = (2.0 * dot(*b, *r) - dot(*r, *r)) / (nb * nb); // 1 - (nx/nb)^2
            let y = 1.0 - q; let k = q * (1.0 + y + y * y) / (y.powf(1.5) * (1.0 + y.powf(1.5))); // (nb/nx)^3 - 1
            let a = mul(gm / nb.powi(3), sub(mul(k, *b), mul(1.0 + k, *r)));
            want = add(want, a);
            tol += norm(a) * (1e-11 + 20.0 * t) + gm / nb.powi(3) * norm(*r) * (t * 20.0) * (nb / nx).powi(4) + 2e-15 * gm / (nx * nx) * (nb / nx).powi(3) + 1e-14 * gm / (nb * nb);
        }
        near("third body", eval(&m, &s, &ctx)?.map_err(|e| e.to_string())?, want, 0.0, tol)?;
        ensure!(eval(&ThirdBody::new(), &s, &DynamicsContext::empty())?.ok() == Some([0.0; 3]), "no bodies, some acceleration");
        ensure!(eval(&m, &s, &DynamicsContext::empty())?.is_err(), "bodies without an ephemeris");
        if which & 3 == 3 && which & 4 == 0 { ensure!(eval(&ThirdBody::sun_and_moon(), &s, &ctx)?.ok() == eval(&m, &s, &ctx)?.ok(), "sun_and_moon differs") }
        Ok("attraction")
    });

    c.prop("drag opposes the velocity relative to the rotating air", 8000, || (lat_deg(), lon_deg(), prop_oneof![4 => 80.0f64..1500.0, 1 => 0.001f64..80.0, 1 => -200.0f64..-0.001, 1 => 1500.0f64..36_000.0], vel(), 0.0f64..4.0, logu(-4.0, 0.0), logu(-15.0, 0.0), -1e-6f64..1e-6, [-1e-4f64..1e-4, -1e-4f64..1e-4, -1e-4f64..1e-4], any::<bool>()), |(lat, lon, h, v, cd, am, rho, slope, om, full)| {
        let r = geodetic(lat.to_radians(), lon.to_radians(), *h, A, F);
        let s = state(2_451_545.0, r, *v);
        let ctx = DynamicsContextBuilder::new().with_atmosphere(Arc::new(Layer { rho: *rho, slope: *slope })).build();
        let mut m = DragForce::with_omega(DragCoefficient::new(*cd), AreaToMass::new(*am), InverseSeconds::new(om[2]));
        let mut w = [0.0, 0.0, om[2]];
        if *full { m.omega_earth = affn::cartesian::Vector::new(om[0], om[1], om[2]); w = *om }
        let got = eval(&m, &s, &ctx)?;
        if *h < 0.0 { ensure!(got.is_err(), "drag {h} km below the surface: {got:?}"); return Ok("below the surface") }
        let rel = sub(*v, cross(w, r));
        let want = mul(-0.5 * cd * am * rho * (1.0 + slope * h) * norm(rel) * 1000.0, rel);
        near("drag", got.map_err(|e| e.to_string())?, want, 1e-9, 1e-25)?;
        ensure!(eval(&m, &s, &DynamicsContext::empty())?.is_err(), "drag without an atmosphere");
        if !*full { let d = eval(&DragForce::new(DragCoefficient::new(*cd), AreaToMass::new(*am)), &s, &ctx)?.map_err(|e| e.to_string())?; let rel = sub(*v, cross([0.0, 0.0, 7.292_115_146_706_979e-5], r)); near("drag with the Earth's rotation", d, mul(-0.5 * cd * am * rho * (1.0 + slope * h) * norm(rel) * 1000.0, rel), 1e-6, 1e-20)? }
        Ok(if norm(want) > 0.0 { "drag" } else { "-no drag" })
    });
    c.prop("geodetic altitude and density models", 6000, || (lat_deg(), lon_deg(), -50.0f64..40_000.0, 0.0f64..0.01, 1000.0f64..7000.0, 0.0f64..1100.0, 0.0f64..1100.0, (logu(-16.0, 0.0), 0.0f64..800.0, 5.0f64..100.0)), |(lat, lon, h, f, a, h1, h2, ex)| {
        for (a, f, h) in [(A, F, *h), (*a, *f, h * a / A)] {
            let r = geodetic(lat.to_radians(), lon.to_radians(), h, a, f);
            let g = np("geodetic_altitude", || geodetic_altitude(&Position::<GCRS>::new(r[0], r[1], r[2]), Kilometers::new(a), Ratios::new(f)))?.value();
            // Sub-millimetre; within metres of the axis p/cos(lat) loses digits.
            let polar = 1e-15 * norm(r) / lat.to_radians().cos().abs().max(1e-10);
            ensure!((g - h).abs() <= 1e-6 + polar, "altitude {g} km, expected {h} (latitude {lat}, a {a}, f {f})");
        }
        let e = ExponentialAtmosphere { rho0: KilogramsPerCubicMeter::new(ex.0), h0: Kilometers::new(ex.1), scale_height: Kilometers::new(ex.2) };
        let d = |m: &dyn DensityProvider, h: f64| m.density(Kilometers::new(h)).map(|x| x.value());
        let g = d(&e, *h1).map_err(|e| e.to_string())?;
        ensure!(close(g, ex.0 * ((ex.1 - h1) / ex.2).exp(), 0.0, 1e-13), "exponential density {g} at {h1}");
        ensure!(d(&ConstantDensity { rho: KilogramsPerCubicMeter::new(ex.0) }, *h1).ok() == Some(ex.0), "constant density");
        ensure!(d(&e, -h1 - 1e-9).is_err() && d(&Nrlmsise00LiteApprox, -h1 - 1e-9).is_err(), "density below the surface");
        // Log-linear table: positive, decreasing, and linear in the logarithm between neighbouring nodes.
        let n = |h: f64| d(&Nrlmsise00LiteApprox, h).map_err(|e| e.to_string());
        let (lo, hi) = (h1.min(*h2), h1.max(*h2));
        ensure!(n(lo)? >= n(hi)? && n(hi)? > 0.0, "density rises from {} at {lo} to {} at {hi}", n(lo)?, n(hi)?);
        ensure!(n(hi)? < 2.0 && n(hi)? > 1e-17, "density {} kg/m3 at {hi} km", n(hi)?);
        let t = (lo / 10.0).floor() * 10.0; // nodes are multiples of 10 km
        if lo >= 50.0 { let (a, b, m) = (n(t)?.ln(), n(t + 10.0)?.ln(), n(lo)?.ln()); ensure!(close(m, a + (b - a) * (lo - t) / 10.0, 1e-9, 0.0), "density not log-linear at {lo} km") }
        Ok("altitude")
    });

    c.prop("shadow factors", 5000, || (unit_vec(), unit_vec(), prop_oneof![3 => logu(3.81, 5.6), 1 => logu(5.6, 7.0)], 0.97f64..1.03, -0.02f64..1.5, prop::bool::weighted(0.6)), |(u, p, r, d, k, edge)| {
        let sun = mul(d * AU, *u);
        // Aim at the shadow's edge: distance k Earth radii from the axis.
        let side = { let s = sub(*p, mul(dot(*p, *u), *u)); if norm(s) < 1e-3 { return Ok("-aligned") } unit(s) };
        let x = if *edge { let q = (k * A).abs(); if q >= *r { return Ok("-out of reach") } add(mul(-(r * r - q * q).sqrt(), *u), mul(q, side)) } else { mul(*r, *p) };
        ensure!(shadow::<NoEclipse>(x, sun) == 1.0, "NoEclipse");
        let along = dot(x, *u); let perp = norm(sub(x, mul(along, *u)));
        let g = shadow::<Cylindrical>(x, sun);
        if (perp - A).abs() > 1e-3 && along.abs() > 1e-3 { ensure!(g == if along < 0.0 && perp < A { 0.0 } else { 1.0 }, "cylindrical shadow {g} at {along} along, {perp} across") }
        let d = sub(sun, x);
        let (s, e) = ((695_700.0 / norm(d)).asin(), (A / norm(x)).asin());
        let c = norm(cross(unit(mul(-1.0, x)), unit(d))).atan2(-dot(unit(x), unit(d)));
        let g = shadow::<Conical>(x, sun);
        let w = lit(s, e, c);
        ensure!((0.0..=1.0).contains(&g) && (g - w).abs() <= 1e-4, "conical shadow {g}, overlap gives {w} (radii {s} {e}, distance {c})");
        if c > s + e + 1e-7 { ensure!(g == 1.0, "lit satellite has shadow factor {g}") }
        if s > e && c < s - e - 1e-7 { ensure!(close(g, 1.0 - (e / s).powi(2), 1e-12, 1e-9), "annular eclipse: shadow factor {g}"); return Ok("annular") }
        if e > s && c < e - s - 1e-7 { ensure!(g == 0.0, "umbra has shadow factor {g}") }
        Ok(if w > 0.01 && w < 0.99 { "penumbra" } else if w < 0.5 { "umbra" } else { "-sunlight" })
    });
    c.prop("solar radiation pushes away from the Sun", 6000, || (pos(), eph(), jd_modern(), 0.0f64..2.5, logu(-4.0, 1.0)), |(r, e, jd, cr, am)| {
        let s = state(*jd, *r, [1.0, 2.0, 3.0]);
        let ctx = with_eph(e);
        let sun = sun_km(&moved(e, *jd));
        let x = sub(*r, sun);
        let want = mul(cr * am * 4.56e-6 * (AU / norm(x)).powi(2) / 1000.0, unit(x));
        let g = |nu: f64| mul(nu, want);
        let (cr, am) = (SrpCoefficient::new(*cr), AreaToMass::new(*am));
        near("unshadowed", eval(&CannonballSrp::<NoEclipse>::new(cr, am), &s, &ctx)?.map_err(|e| e.to_string())?, want, 1e-6, 1e-30)?;
        let (nc, nk) = (shadow::<Cylindrical>(*r, sun), shadow::<Conical>(*r, sun));
        near("conical", eval(&CannonballSrp::<Conical>::new(cr, am), &s, &ctx)?.map_err(|e| e.to_string())?, g(nk), 1e-6, 2e-3 * norm(want))?;
        let b = norm(cross(unit(sun), *r));
        if (b - A).abs() > 1.0 { near("cylindrical", eval(&CannonballSrp::<Cylindrical>::new(cr, am), &s, &ctx)?.map_err(|e| e.to_string())?, g(nc), 1e-6, 1e-30)? }
        ensure!(eval(&CannonballSrp::<Conical>::new(cr, am), &s, &DynamicsContext::empty())?.is_err(), "SRP without an ephemeris");
        Ok(if norm(want) > 0.0 { "push" } else { "-nothing" })
    });

    c.prop("relativity and empirical terms", 8000, || (pos(), vel(), logu(2.0, 6.0), [-1e-6f64..1e-6, -1e-6f64..1e-6, -1e-6f64..1e-6], [-1e-6f64..1e-6, -1e-6f64..1e-6, -1e-6f64..1e-6], jd_modern(), -3.0f64..3.0, logu(3.5, 5.0), any::<bool>()), |(r, v, gm, k, k2, jd, days, period, twice)| {
        let s = state(*jd, *r, *v);
        let ctx = DynamicsContext::empty();
        let rel = CentralBodyRelativity1Pn { gm: GravitationalParameter::new(*gm), ..CentralBodyRelativity1Pn::earth() };
        let c2 = 299_792.458f64.powi(2);
        let pn = |gm: f64| mul(gm / (c2 * norm(*r).powi(3)), add(mul(4.0 * gm / norm(*r) - dot(*v, *v), *r), mul(4.0 * dot(*r, *v), *v)));
        let scale = |gm: f64| gm / (c2 * norm(*r).powi(2)) * (4.0 * gm / norm(*r) + 5.0 * dot(*v, *v));
        near("1PN", eval(&rel, &s, &ctx)?.map_err(|e| e.to_string())?, pn(*gm), 0.0, 1e-13 * scale(*gm))?;
        near("1PN of the Earth", eval(&CentralBodyRelativity1Pn::earth(), &s, &ctx)?.map_err(|e| e.to_string())?, pn(398_600.441_8), 0.0, 1e-9 * scale(398_600.441_8))?;
        let n = cross(*r, *v);
        let q = |x: f64| KmPerSecondsSquared::new(x);
        let e = EmpiricalAcceleration::rtn(q(k[0]), q(k[1]), q(k[2]));
        let t0 = jd + days;
        let p = EmpiricalPeriodicAcceleration::new(if *twice { PeriodicHarmonic::TwicePerRev } else { PeriodicHarmonic::OncePerRev }, JulianDate::new(t0), siderust::qtty::Seconds::new(*period), q(k[0]), q(k2[0]), q(k[1]), q(k2[1]), q(k[2]), q(k2[2]));
        if norm(n) == 0.0 { ensure!(eval(&e, &s, &ctx)?.is_err() && eval(&p, &s, &ctx)?.is_err(), "RTN components of a state without a plane"); return Ok("no plane") }
        let sin = norm(n) / norm(*r) / norm(*v);
        if sin < 1e-6 { return Ok("-nearly radial") }
        let (ur, un) = (unit(*r), unit(n)); let ut = cross(un, ur);
        let rtn = |k: V| add(add(mul(k[0], ur), mul(k[1], ut)), mul(k[2], un));
        near("empirical", eval(&e, &s, &ctx)?.map_err(|e| e.to_string())?, rtn(*k), 1e-13 / sin, 0.0)?;
        let th = (jd - t0) * 86_400.0 * std::f64::consts::TAU / period * if *twice { 2.0 } else { 1.0 };
        let mix = [0, 1, 2].map(|i| k[i] * th.cos() + k2[i] * th.sin());
        near("periodic empirical", eval(&p, &s, &ctx)?.map_err(|e| e.to_string())?, rtn(mix), 1e-12 / sin, (norm(*k) + norm(*k2)) * (1e-3 / period + 1e-12 / sin))?;
        Ok("terms")
    });
    c.prop("a composite is the sum of its parts and needs every part's context", 4000, || (pos(), vel(), eph(), jd_modern(), proptest::collection::vec(0usize..8, 0..7)), |(r, v, e, jd, parts)| {
        type M = Box<dyn AccelerationModel<DynamicsContext, tempoch::TT, Geocentric, GCRS>>;
        if norm(*r) < 6_600.0 { return Ok("-too low") }
        let make = |k: usize| -> M { match k {
            0 => Box::new(TwoBody::new(GM_EARTH)), 1 => Box::new(J2::new(GM_EARTH, R_EARTH, EARTH_J2)), 2 => Box::new(Geopotential::full(4)), 3 => Box::new(ThirdBody::sun_and_moon()),
            4 => Box::new(DragForce::new(DragCoefficient::new(2.2), AreaToMass::new(0.01))), 5 => Box::new(CannonballSrp::<Conical>::new(SrpCoefficient::new(1.3), AreaToMass::new(0.02))), 6 => Box::new(CentralBodyRelativity1Pn::earth()),
            _ => Box::new(EmpiricalAcceleration::rtn(KmPerSecondsSquared::new(1e-9), KmPerSecondsSquared::new(2e-9), KmPerSecondsSquared::new(3e-9))) } };
        let full = || DynamicsContextBuilder::new().with_ephemeris(Arc::new(Eph { sun: e.0, earth: e.1, moon: e.2 })).with_gravity(Arc::new(LowDegreeEarth)).with_atmosphere(Arc::new(ExponentialAtmosphere::LEO_500KM));
        let s = state(*jd, *r, *v);
        if norm(cross(*r, *v)) == 0.0 { return Ok("-no plane") }
        let mut m = CompositeModel::empty();
        let mut sum = [0.0; 3]; let mut size = 0.0;
        let ctx = full().build();
        for k in parts { let x = make(*k); let a = x.acceleration(&s, &ctx).map_err(|e| format!("part {k}: {e}"))?; let a = [a.x().value(), a.y().value(), a.z().value()]; sum = add(sum, a); size += norm(a); m = m.push(x) }
        near("composite", eval(&m, &s, &ctx)?.map_err(|e| e.to_string())?, sum, 0.0, 1e-14 * size)?;
        let bare = eval(&m, &s, &DynamicsContext::empty())?;
        ensure!(bare.is_err() == parts.iter().any(|k| [2, 3, 4, 5].contains(k)), "without a context, parts {parts:?} give {bare:?}");
        Ok(if parts.len() > 1 { "composite" } else { "-single" })
    });
    c.prop("spacecraft properties", 2000, || ([-1.0f64..1e4, -0.2f64..50.0, -0.2f64..4.0, -0.2f64..50.0, -0.2f64..3.0], 0usize..12), |(x, bad)| {
        let mut x = *x;
        if *bad < 5 { x[*bad] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, f64::NAN][*bad] }
        let ok = x.iter().all(|v| v.is_finite() && *v >= 0.0) && x[0] > 0.0;
        let p = SpacecraftProperties::try_new(Kilograms::new(x[0]), SquareMeters::new(x[1]), DragCoefficient::new(x[2]), SquareMeters::new(x[3]), SrpCoefficient::new(x[4]));
        ensure!(p.is_ok() == ok, "{x:?}: {p:?}");
        if let Ok(p) = p { ensure!(close(p.drag_area_to_mass().value(), x[1] / x[0], 0.0, 1e-15) && close(p.srp_area_to_mass().value(), x[3] / x[0], 0.0, 1e-15) && p.mass.value() == x[0] && p.cd.value() == x[2] && p.cr.value() == x[4], "{x:?}: {p:?}") }
        Ok(if ok { "valid" } else { "refused" })
    });
    c.finish()
}
