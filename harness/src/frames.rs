//! Every frame pair the library provides a rotation for, as a table of function pointers.
//! (Generated once by probing which pairs compile.)
use crate::refs::M3;
use siderust::astro::eop::{EopProvider, EopValues};
use siderust::astro::nutation::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::providers::{frame_rotation_as, FrameRotationProvider};
use siderust::coordinates::cartesian;
use siderust::coordinates::transform::{DirectionAstroExt, PositionAstroExt, VectorAstroExt, SphericalDirectionAstroExt};
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::JulianDate;
use std::cell::Cell;

thread_local! { pub static EOP: Cell<Option<EopValues>> = const { Cell::new(None) }; }
/// EOP source whose values the test chooses (per thread).
#[derive(Debug, Clone, Copy, Default)]
pub struct TestEop;
impl EopProvider for TestEop {
    fn eop_at(&self, _jd: JulianDate) -> EopValues { EOP.with(|e| e.get()).unwrap_or_default() }
}
pub type Ctx = AstroContext<Vsop87Ephemeris, TestEop>;
pub const FRAMES: &[&str] = &["ICRS","ICRF","GCRS","EclipticMeanJ2000","EquatorialMeanJ2000","EME2000","EquatorialMeanOfDate","EquatorialTrueOfDate","CIRS","TIRS","ITRF","ECEF","TEME","Galactic","FK4B1950","MercuryFixed","VenusFixed","MarsFixed","MoonPrincipalAxes","JupiterSystemIII","SaturnFixed","UranusFixed","NeptuneFixed","PlutoFixed"];

/// One directed frame pair.
pub struct Pair {
    pub from: usize,
    pub to: usize,
    /// Rotation matrix for nutation model 0..4 (2000A, 2000B, 2006, 2006A).
    pub rot: fn(JulianDate, &Ctx, usize) -> M3,
    /// The same conversion through the extension traits (default model): direction, vector, position, spherical direction.
    pub ext: fn(JulianDate, &Ctx, [f64; 3]) -> [[f64; 3]; 4],
}
fn rot<A, B>(jd: JulianDate, ctx: &Ctx, model: usize) -> M3 where (): FrameRotationProvider<A, B> {
    *match model {
        0 => frame_rotation_as::<A, B, Iau2000A, _, _>(jd, ctx),
        1 => frame_rotation_as::<A, B, Iau2000B, _, _>(jd, ctx),
        2 => frame_rotation_as::<A, B, Iau2006, _, _>(jd, ctx),
        _ => frame_rotation_as::<A, B, Iau2006A, _, _>(jd, ctx),
    }.as_matrix()
}
fn ext<A: ReferenceFrame, B: ReferenceFrame>(jd: JulianDate, ctx: &Ctx, v: [f64; 3]) -> [[f64; 3]; 4]
where (): FrameRotationProvider<A, B> {
    use siderust::qtty::*;
    let n = crate::refs::norm(v);
    let d = cartesian::Direction::<A>::new(v[0], v[1], v[2]);
    let d2: cartesian::Direction<B> = d.to_frame_with(&jd, ctx);
    let w = cartesian::Vector::<A, Kilometer>::new(v[0], v[1], v[2]);
    let w2: cartesian::Vector<B, Kilometer> = w.to_frame_with(&jd, ctx);
    let p = cartesian::Position::<siderust::coordinates::centers::Geocentric, A, AstronomicalUnit>::new(v[0], v[1], v[2]);
    let p2: cartesian::Position<siderust::coordinates::centers::Geocentric, B, AstronomicalUnit> = p.to_frame_with(&jd, ctx);
    let s = siderust::coordinates::spherical::Direction::<A>::from_cartesian(&d);
    let s2: siderust::coordinates::spherical::Direction<B> = s.to_frame_with(&jd, ctx);
    let c2 = s2.to_cartesian();
    [
        [d2.x() * n, d2.y() * n, d2.z() * n],
        [w2.x().value(), w2.y().value(), w2.z().value()],
        [p2.x().value(), p2.y().value(), p2.z().value()],
        [c2.x() * n, c2.y() * n, c2.z() * n],
    ]
}
pub fn pairs() -> Vec<Pair> {
    vec![
        Pair { from: 0, to: 1, rot: rot::<ICRS, ICRF>, ext: ext::<ICRS, ICRF> },
        Pair { from: 0, to: 2, rot: rot::<ICRS, GCRS>, ext: ext::<ICRS, GCRS> },
        Pair { from: 0, to: 3, rot: rot::<ICRS, EclipticMeanJ2000>, ext: ext::<ICRS, EclipticMeanJ2000> },
        Pair { from: 0, to: 4, rot: rot::<ICRS, EquatorialMeanJ2000>, ext: ext::<ICRS, EquatorialMeanJ2000> },
        Pair { from: 0, to: 5, rot: rot::<ICRS, EME2000>, ext: ext::<ICRS, EME2000> },
        Pair { from: 0, to: 6, rot: rot::<ICRS, EquatorialMeanOfDate>, ext: ext::<ICRS, EquatorialMeanOfDate> },
        Pair { from: 0, to: 7, rot: rot::<ICRS, EquatorialTrueOfDate>, ext: ext::<ICRS, EquatorialTrueOfDate> },
        Pair { from: 0, to: 8, rot: rot::<ICRS, CIRS>, ext: ext::<ICRS, CIRS> },
        Pair { from: 0, to: 9, rot: rot::<ICRS, TIRS>, ext: ext::<ICRS, TIRS> },
        Pair { from: 0, to: 10, rot: rot::<ICRS, ITRF>, ext: ext::<ICRS, ITRF> },
        Pair { from: 0, to: 11, rot: rot::<ICRS, ECEF>, ext: ext::<ICRS, ECEF> },
        Pair { from: 0, to: 12, rot: rot::<ICRS, TEME>, ext: ext::<ICRS, TEME> },
        Pair { from: 0, to: 13, rot: rot::<ICRS, Galactic>, ext: ext::<ICRS, Galactic> },
        Pair { from: 0, to: 14, rot: rot::<ICRS, FK4B1950>, ext: ext::<ICRS, FK4B1950> },
        Pair { from: 0, to: 15, rot: rot::<ICRS, MercuryFixed>, ext: ext::<ICRS, MercuryFixed> },
        Pair { from: 0, to: 16, rot: rot::<ICRS, VenusFixed>, ext: ext::<ICRS, VenusFixed> },
        Pair { from: 0, to: 17, rot: rot::<ICRS, MarsFixed>, ext: ext::<ICRS, MarsFixed> },
        Pair { from: 0, to: 18, rot: rot::<ICRS, MoonPrincipalAxes>, ext: ext::<ICRS, MoonPrincipalAxes> },
        Pair { from: 0, to: 19, rot: rot::<ICRS, JupiterSystemIII>, ext: ext::<ICRS, JupiterSystemIII> },
        Pair { from: 0, to: 20, rot: rot::<ICRS, SaturnFixed>, ext: ext::<ICRS, SaturnFixed> },
        Pair { from: 0, to: 21, rot: rot::<ICRS, UranusFixed>, ext: ext::<ICRS, UranusFixed> },
        Pair { from: 0, to: 22, rot: rot::<ICRS, NeptuneFixed>, ext: ext::<ICRS, NeptuneFixed> },
        Pair { from: 0, to: 23, rot: rot::<ICRS, PlutoFixed>, ext: ext::<ICRS, PlutoFixed> },
        Pair { from: 1, to: 0, rot: rot::<ICRF, ICRS>, ext: ext::<ICRF, ICRS> },
        Pair { from: 1, to: 3, rot: rot::<ICRF, EclipticMeanJ2000>, ext: ext::<ICRF, EclipticMeanJ2000> },
        Pair { from: 1, to: 4, rot: rot::<ICRF, EquatorialMeanJ2000>, ext: ext::<ICRF, EquatorialMeanJ2000> },
        Pair { from: 1, to: 5, rot: rot::<ICRF, EME2000>, ext: ext::<ICRF, EME2000> },
        Pair { from: 1, to: 6, rot: rot::<ICRF, EquatorialMeanOfDate>, ext: ext::<ICRF, EquatorialMeanOfDate> },
        Pair { from: 1, to: 7, rot: rot::<ICRF, EquatorialTrueOfDate>, ext: ext::<ICRF, EquatorialTrueOfDate> },
        Pair { from: 1, to: 8, rot: rot::<ICRF, CIRS>, ext: ext::<ICRF, CIRS> },
        Pair { from: 1, to: 9, rot: rot::<ICRF, TIRS>, ext: ext::<ICRF, TIRS> },
        Pair { from: 1, to: 10, rot: rot::<ICRF, ITRF>, ext: ext::<ICRF, ITRF> },
        Pair { from: 1, to: 11, rot: rot::<ICRF, ECEF>, ext: ext::<ICRF, ECEF> },
        Pair { from: 2, to: 0, rot: rot::<GCRS, ICRS>, ext: ext::<GCRS, ICRS> },
        Pair { from: 2, to: 3, rot: rot::<GCRS, EclipticMeanJ2000>, ext: ext::<GCRS, EclipticMeanJ2000> },
        Pair { from: 2, to: 4, rot: rot::<GCRS, EquatorialMeanJ2000>, ext: ext::<GCRS, EquatorialMeanJ2000> },
        Pair { from: 2, to: 5, rot: rot::<GCRS, EME2000>, ext: ext::<GCRS, EME2000> },
        Pair { from: 2, to: 7, rot: rot::<GCRS, EquatorialTrueOfDate>, ext: ext::<GCRS, EquatorialTrueOfDate> },
        Pair { from: 2, to: 8, rot: rot::<GCRS, CIRS>, ext: ext::<GCRS, CIRS> },
        Pair { from: 2, to: 9, rot: rot::<GCRS, TIRS>, ext: ext::<GCRS, TIRS> },
        Pair { from: 2, to: 10, rot: rot::<GCRS, ITRF>, ext: ext::<GCRS, ITRF> },
        Pair { from: 2, to: 11, rot: rot::<GCRS, ECEF>, ext: ext::<GCRS, ECEF> },
        Pair { from: 3, to: 0, rot: rot::<EclipticMeanJ2000, ICRS>, ext: ext::<EclipticMeanJ2000, ICRS> },
        Pair { from: 3, to: 1, rot: rot::<EclipticMeanJ2000, ICRF>, ext: ext::<EclipticMeanJ2000, ICRF> },
        Pair { from: 3, to: 2, rot: rot::<EclipticMeanJ2000, GCRS>, ext: ext::<EclipticMeanJ2000, GCRS> },
        Pair { from: 3, to: 4, rot: rot::<EclipticMeanJ2000, EquatorialMeanJ2000>, ext: ext::<EclipticMeanJ2000, EquatorialMeanJ2000> },
        Pair { from: 3, to: 5, rot: rot::<EclipticMeanJ2000, EME2000>, ext: ext::<EclipticMeanJ2000, EME2000> },
        Pair { from: 3, to: 8, rot: rot::<EclipticMeanJ2000, CIRS>, ext: ext::<EclipticMeanJ2000, CIRS> },
        Pair { from: 3, to: 9, rot: rot::<EclipticMeanJ2000, TIRS>, ext: ext::<EclipticMeanJ2000, TIRS> },
        Pair { from: 3, to: 10, rot: rot::<EclipticMeanJ2000, ITRF>, ext: ext::<EclipticMeanJ2000, ITRF> },
        Pair { from: 3, to: 11, rot: rot::<EclipticMeanJ2000, ECEF>, ext: ext::<EclipticMeanJ2000, ECEF> },
        Pair { from: 3, to: 13, rot: rot::<EclipticMeanJ2000, Galactic>, ext: ext::<EclipticMeanJ2000, Galactic> },
        Pair { from: 3, to: 15, rot: rot::<EclipticMeanJ2000, MercuryFixed>, ext: ext::<EclipticMeanJ2000, MercuryFixed> },
        Pair { from: 3, to: 16, rot: rot::<EclipticMeanJ2000, VenusFixed>, ext: ext::<EclipticMeanJ2000, VenusFixed> },
        Pair { from: 3, to: 17, rot: rot::<EclipticMeanJ2000, MarsFixed>, ext: ext::<EclipticMeanJ2000, MarsFixed> },
        Pair { from: 3, to: 18, rot: rot::<EclipticMeanJ2000, MoonPrincipalAxes>, ext: ext::<EclipticMeanJ2000, MoonPrincipalAxes> },
        Pair { from: 3, to: 19, rot: rot::<EclipticMeanJ2000, JupiterSystemIII>, ext: ext::<EclipticMeanJ2000, JupiterSystemIII> },
        Pair { from: 3, to: 20, rot: rot::<EclipticMeanJ2000, SaturnFixed>, ext: ext::<EclipticMeanJ2000, SaturnFixed> },
        Pair { from: 3, to: 21, rot: rot::<EclipticMeanJ2000, UranusFixed>, ext: ext::<EclipticMeanJ2000, UranusFixed> },
        Pair { from: 3, to: 22, rot: rot::<EclipticMeanJ2000, NeptuneFixed>, ext: ext::<EclipticMeanJ2000, NeptuneFixed> },
        Pair { from: 3, to: 23, rot: rot::<EclipticMeanJ2000, PlutoFixed>, ext: ext::<EclipticMeanJ2000, PlutoFixed> },
        Pair { from: 4, to: 0, rot: rot::<EquatorialMeanJ2000, ICRS>, ext: ext::<EquatorialMeanJ2000, ICRS> },
        Pair { from: 4, to: 1, rot: rot::<EquatorialMeanJ2000, ICRF>, ext: ext::<EquatorialMeanJ2000, ICRF> },
        Pair { from: 4, to: 2, rot: rot::<EquatorialMeanJ2000, GCRS>, ext: ext::<EquatorialMeanJ2000, GCRS> },
        Pair { from: 4, to: 3, rot: rot::<EquatorialMeanJ2000, EclipticMeanJ2000>, ext: ext::<EquatorialMeanJ2000, EclipticMeanJ2000> },
        Pair { from: 4, to: 5, rot: rot::<EquatorialMeanJ2000, EME2000>, ext: ext::<EquatorialMeanJ2000, EME2000> },
        Pair { from: 4, to: 6, rot: rot::<EquatorialMeanJ2000, EquatorialMeanOfDate>, ext: ext::<EquatorialMeanJ2000, EquatorialMeanOfDate> },
        Pair { from: 4, to: 7, rot: rot::<EquatorialMeanJ2000, EquatorialTrueOfDate>, ext: ext::<EquatorialMeanJ2000, EquatorialTrueOfDate> },
        Pair { from: 4, to: 8, rot: rot::<EquatorialMeanJ2000, CIRS>, ext: ext::<EquatorialMeanJ2000, CIRS> },
        Pair { from: 4, to: 9, rot: rot::<EquatorialMeanJ2000, TIRS>, ext: ext::<EquatorialMeanJ2000, TIRS> },
        Pair { from: 4, to: 10, rot: rot::<EquatorialMeanJ2000, ITRF>, ext: ext::<EquatorialMeanJ2000, ITRF> },
        Pair { from: 4, to: 11, rot: rot::<EquatorialMeanJ2000, ECEF>, ext: ext::<EquatorialMeanJ2000, ECEF> },
        Pair { from: 4, to: 13, rot: rot::<EquatorialMeanJ2000, Galactic>, ext: ext::<EquatorialMeanJ2000, Galactic> },
        Pair { from: 4, to: 14, rot: rot::<EquatorialMeanJ2000, FK4B1950>, ext: ext::<EquatorialMeanJ2000, FK4B1950> },
        Pair { from: 5, to: 0, rot: rot::<EME2000, ICRS>, ext: ext::<EME2000, ICRS> },
        Pair { from: 5, to: 1, rot: rot::<EME2000, ICRF>, ext: ext::<EME2000, ICRF> },
        Pair { from: 5, to: 2, rot: rot::<EME2000, GCRS>, ext: ext::<EME2000, GCRS> },
        Pair { from: 5, to: 3, rot: rot::<EME2000, EclipticMeanJ2000>, ext: ext::<EME2000, EclipticMeanJ2000> },
        Pair { from: 5, to: 4, rot: rot::<EME2000, EquatorialMeanJ2000>, ext: ext::<EME2000, EquatorialMeanJ2000> },
        Pair { from: 5, to: 6, rot: rot::<EME2000, EquatorialMeanOfDate>, ext: ext::<EME2000, EquatorialMeanOfDate> },
        Pair { from: 5, to: 7, rot: rot::<EME2000, EquatorialTrueOfDate>, ext: ext::<EME2000, EquatorialTrueOfDate> },
        Pair { from: 5, to: 8, rot: rot::<EME2000, CIRS>, ext: ext::<EME2000, CIRS> },
        Pair { from: 5, to: 9, rot: rot::<EME2000, TIRS>, ext: ext::<EME2000, TIRS> },
        Pair { from: 5, to: 10, rot: rot::<EME2000, ITRF>, ext: ext::<EME2000, ITRF> },
        Pair { from: 5, to: 11, rot: rot::<EME2000, ECEF>, ext: ext::<EME2000, ECEF> },
        Pair { from: 5, to: 15, rot: rot::<EME2000, MercuryFixed>, ext: ext::<EME2000, MercuryFixed> },
        Pair { from: 5, to: 16, rot: rot::<EME2000, VenusFixed>, ext: ext::<EME2000, VenusFixed> },
        Pair { from: 5, to: 17, rot: rot::<EME2000, MarsFixed>, ext: ext::<EME2000, MarsFixed> },
        Pair { from: 5, to: 18, rot: rot::<EME2000, MoonPrincipalAxes>, ext: ext::<EME2000, MoonPrincipalAxes> },
        Pair { from: 5, to: 19, rot: rot::<EME2000, JupiterSystemIII>, ext: ext::<EME2000, JupiterSystemIII> },
        Pair { from: 5, to: 20, rot: rot::<EME2000, SaturnFixed>, ext: ext::<EME2000, SaturnFixed> },
        Pair { from: 5, to: 21, rot: rot::<EME2000, UranusFixed>, ext: ext::<EME2000, UranusFixed> },
        Pair { from: 5, to: 22, rot: rot::<EME2000, NeptuneFixed>, ext: ext::<EME2000, NeptuneFixed> },
        Pair { from: 5, to: 23, rot: rot::<EME2000, PlutoFixed>, ext: ext::<EME2000, PlutoFixed> },
        Pair { from: 6, to: 0, rot: rot::<EquatorialMeanOfDate, ICRS>, ext: ext::<EquatorialMeanOfDate, ICRS> },
        Pair { from: 6, to: 1, rot: rot::<EquatorialMeanOfDate, ICRF>, ext: ext::<EquatorialMeanOfDate, ICRF> },
        Pair { from: 6, to: 4, rot: rot::<EquatorialMeanOfDate, EquatorialMeanJ2000>, ext: ext::<EquatorialMeanOfDate, EquatorialMeanJ2000> },
        Pair { from: 6, to: 5, rot: rot::<EquatorialMeanOfDate, EME2000>, ext: ext::<EquatorialMeanOfDate, EME2000> },
        Pair { from: 6, to: 7, rot: rot::<EquatorialMeanOfDate, EquatorialTrueOfDate>, ext: ext::<EquatorialMeanOfDate, EquatorialTrueOfDate> },
        Pair { from: 6, to: 8, rot: rot::<EquatorialMeanOfDate, CIRS>, ext: ext::<EquatorialMeanOfDate, CIRS> },
        Pair { from: 6, to: 9, rot: rot::<EquatorialMeanOfDate, TIRS>, ext: ext::<EquatorialMeanOfDate, TIRS> },
        Pair { from: 6, to: 10, rot: rot::<EquatorialMeanOfDate, ITRF>, ext: ext::<EquatorialMeanOfDate, ITRF> },
        Pair { from: 6, to: 11, rot: rot::<EquatorialMeanOfDate, ECEF>, ext: ext::<EquatorialMeanOfDate, ECEF> },
        Pair { from: 7, to: 0, rot: rot::<EquatorialTrueOfDate, ICRS>, ext: ext::<EquatorialTrueOfDate, ICRS> },
        Pair { from: 7, to: 1, rot: rot::<EquatorialTrueOfDate, ICRF>, ext: ext::<EquatorialTrueOfDate, ICRF> },
        Pair { from: 7, to: 2, rot: rot::<EquatorialTrueOfDate, GCRS>, ext: ext::<EquatorialTrueOfDate, GCRS> },
        Pair { from: 7, to: 4, rot: rot::<EquatorialTrueOfDate, EquatorialMeanJ2000>, ext: ext::<EquatorialTrueOfDate, EquatorialMeanJ2000> },
        Pair { from: 7, to: 5, rot: rot::<EquatorialTrueOfDate, EME2000>, ext: ext::<EquatorialTrueOfDate, EME2000> },
        Pair { from: 7, to: 6, rot: rot::<EquatorialTrueOfDate, EquatorialMeanOfDate>, ext: ext::<EquatorialTrueOfDate, EquatorialMeanOfDate> },
        Pair { from: 7, to: 8, rot: rot::<EquatorialTrueOfDate, CIRS>, ext: ext::<EquatorialTrueOfDate, CIRS> },
        Pair { from: 7, to: 9, rot: rot::<EquatorialTrueOfDate, TIRS>, ext: ext::<EquatorialTrueOfDate, TIRS> },
        Pair { from: 7, to: 10, rot: rot::<EquatorialTrueOfDate, ITRF>, ext: ext::<EquatorialTrueOfDate, ITRF> },
        Pair { from: 7, to: 11, rot: rot::<EquatorialTrueOfDate, ECEF>, ext: ext::<EquatorialTrueOfDate, ECEF> },
        Pair { from: 7, to: 12, rot: rot::<EquatorialTrueOfDate, TEME>, ext: ext::<EquatorialTrueOfDate, TEME> },
        Pair { from: 8, to: 0, rot: rot::<CIRS, ICRS>, ext: ext::<CIRS, ICRS> },
        Pair { from: 8, to: 1, rot: rot::<CIRS, ICRF>, ext: ext::<CIRS, ICRF> },
        Pair { from: 8, to: 2, rot: rot::<CIRS, GCRS>, ext: ext::<CIRS, GCRS> },
        Pair { from: 8, to: 3, rot: rot::<CIRS, EclipticMeanJ2000>, ext: ext::<CIRS, EclipticMeanJ2000> },
        Pair { from: 8, to: 4, rot: rot::<CIRS, EquatorialMeanJ2000>, ext: ext::<CIRS, EquatorialMeanJ2000> },
        Pair { from: 8, to: 5, rot: rot::<CIRS, EME2000>, ext: ext::<CIRS, EME2000> },
        Pair { from: 8, to: 6, rot: rot::<CIRS, EquatorialMeanOfDate>, ext: ext::<CIRS, EquatorialMeanOfDate> },
        Pair { from: 8, to: 7, rot: rot::<CIRS, EquatorialTrueOfDate>, ext: ext::<CIRS, EquatorialTrueOfDate> },
        Pair { from: 8, to: 9, rot: rot::<CIRS, TIRS>, ext: ext::<CIRS, TIRS> },
        Pair { from: 8, to: 12, rot: rot::<CIRS, TEME>, ext: ext::<CIRS, TEME> },
        Pair { from: 8, to: 13, rot: rot::<CIRS, Galactic>, ext: ext::<CIRS, Galactic> },
        Pair { from: 8, to: 14, rot: rot::<CIRS, FK4B1950>, ext: ext::<CIRS, FK4B1950> },
        Pair { from: 9, to: 0, rot: rot::<TIRS, ICRS>, ext: ext::<TIRS, ICRS> },
        Pair { from: 9, to: 1, rot: rot::<TIRS, ICRF>, ext: ext::<TIRS, ICRF> },
        Pair { from: 9, to: 2, rot: rot::<TIRS, GCRS>, ext: ext::<TIRS, GCRS> },
        Pair { from: 9, to: 3, rot: rot::<TIRS, EclipticMeanJ2000>, ext: ext::<TIRS, EclipticMeanJ2000> },
        Pair { from: 9, to: 4, rot: rot::<TIRS, EquatorialMeanJ2000>, ext: ext::<TIRS, EquatorialMeanJ2000> },
        Pair { from: 9, to: 5, rot: rot::<TIRS, EME2000>, ext: ext::<TIRS, EME2000> },
        Pair { from: 9, to: 6, rot: rot::<TIRS, EquatorialMeanOfDate>, ext: ext::<TIRS, EquatorialMeanOfDate> },
        Pair { from: 9, to: 7, rot: rot::<TIRS, EquatorialTrueOfDate>, ext: ext::<TIRS, EquatorialTrueOfDate> },
        Pair { from: 9, to: 8, rot: rot::<TIRS, CIRS>, ext: ext::<TIRS, CIRS> },
        Pair { from: 9, to: 10, rot: rot::<TIRS, ITRF>, ext: ext::<TIRS, ITRF> },
        Pair { from: 9, to: 12, rot: rot::<TIRS, TEME>, ext: ext::<TIRS, TEME> },
        Pair { from: 9, to: 13, rot: rot::<TIRS, Galactic>, ext: ext::<TIRS, Galactic> },
        Pair { from: 9, to: 14, rot: rot::<TIRS, FK4B1950>, ext: ext::<TIRS, FK4B1950> },
        Pair { from: 10, to: 0, rot: rot::<ITRF, ICRS>, ext: ext::<ITRF, ICRS> },
        Pair { from: 10, to: 1, rot: rot::<ITRF, ICRF>, ext: ext::<ITRF, ICRF> },
        Pair { from: 10, to: 2, rot: rot::<ITRF, GCRS>, ext: ext::<ITRF, GCRS> },
        Pair { from: 10, to: 3, rot: rot::<ITRF, EclipticMeanJ2000>, ext: ext::<ITRF, EclipticMeanJ2000> },
        Pair { from: 10, to: 4, rot: rot::<ITRF, EquatorialMeanJ2000>, ext: ext::<ITRF, EquatorialMeanJ2000> },
        Pair { from: 10, to: 5, rot: rot::<ITRF, EME2000>, ext: ext::<ITRF, EME2000> },
        Pair { from: 10, to: 6, rot: rot::<ITRF, EquatorialMeanOfDate>, ext: ext::<ITRF, EquatorialMeanOfDate> },
        Pair { from: 10, to: 7, rot: rot::<ITRF, EquatorialTrueOfDate>, ext: ext::<ITRF, EquatorialTrueOfDate> },
        Pair { from: 10, to: 9, rot: rot::<ITRF, TIRS>, ext: ext::<ITRF, TIRS> },
        Pair { from: 10, to: 11, rot: rot::<ITRF, ECEF>, ext: ext::<ITRF, ECEF> },
        Pair { from: 10, to: 12, rot: rot::<ITRF, TEME>, ext: ext::<ITRF, TEME> },
        Pair { from: 10, to: 13, rot: rot::<ITRF, Galactic>, ext: ext::<ITRF, Galactic> },
        Pair { from: 10, to: 14, rot: rot::<ITRF, FK4B1950>, ext: ext::<ITRF, FK4B1950> },
        Pair { from: 11, to: 0, rot: rot::<ECEF, ICRS>, ext: ext::<ECEF, ICRS> },
        Pair { from: 11, to: 1, rot: rot::<ECEF, ICRF>, ext: ext::<ECEF, ICRF> },
        Pair { from: 11, to: 2, rot: rot::<ECEF, GCRS>, ext: ext::<ECEF, GCRS> },
        Pair { from: 11, to: 3, rot: rot::<ECEF, EclipticMeanJ2000>, ext: ext::<ECEF, EclipticMeanJ2000> },
        Pair { from: 11, to: 4, rot: rot::<ECEF, EquatorialMeanJ2000>, ext: ext::<ECEF, EquatorialMeanJ2000> },
        Pair { from: 11, to: 5, rot: rot::<ECEF, EME2000>, ext: ext::<ECEF, EME2000> },
        Pair { from: 11, to: 6, rot: rot::<ECEF, EquatorialMeanOfDate>, ext: ext::<ECEF, EquatorialMeanOfDate> },
        Pair { from: 11, to: 7, rot: rot::<ECEF, EquatorialTrueOfDate>, ext: ext::<ECEF, EquatorialTrueOfDate> },
        Pair { from: 11, to: 10, rot: rot::<ECEF, ITRF>, ext: ext::<ECEF, ITRF> },
        Pair { from: 11, to: 12, rot: rot::<ECEF, TEME>, ext: ext::<ECEF, TEME> },
        Pair { from: 11, to: 13, rot: rot::<ECEF, Galactic>, ext: ext::<ECEF, Galactic> },
        Pair { from: 11, to: 14, rot: rot::<ECEF, FK4B1950>, ext: ext::<ECEF, FK4B1950> },
        Pair { from: 12, to: 0, rot: rot::<TEME, ICRS>, ext: ext::<TEME, ICRS> },
        Pair { from: 12, to: 7, rot: rot::<TEME, EquatorialTrueOfDate>, ext: ext::<TEME, EquatorialTrueOfDate> },
        Pair { from: 12, to: 8, rot: rot::<TEME, CIRS>, ext: ext::<TEME, CIRS> },
        Pair { from: 12, to: 9, rot: rot::<TEME, TIRS>, ext: ext::<TEME, TIRS> },
        Pair { from: 12, to: 10, rot: rot::<TEME, ITRF>, ext: ext::<TEME, ITRF> },
        Pair { from: 12, to: 11, rot: rot::<TEME, ECEF>, ext: ext::<TEME, ECEF> },
        Pair { from: 13, to: 0, rot: rot::<Galactic, ICRS>, ext: ext::<Galactic, ICRS> },
        Pair { from: 13, to: 3, rot: rot::<Galactic, EclipticMeanJ2000>, ext: ext::<Galactic, EclipticMeanJ2000> },
        Pair { from: 13, to: 4, rot: rot::<Galactic, EquatorialMeanJ2000>, ext: ext::<Galactic, EquatorialMeanJ2000> },
        Pair { from: 13, to: 8, rot: rot::<Galactic, CIRS>, ext: ext::<Galactic, CIRS> },
        Pair { from: 13, to: 9, rot: rot::<Galactic, TIRS>, ext: ext::<Galactic, TIRS> },
        Pair { from: 13, to: 10, rot: rot::<Galactic, ITRF>, ext: ext::<Galactic, ITRF> },
        Pair { from: 13, to: 11, rot: rot::<Galactic, ECEF>, ext: ext::<Galactic, ECEF> },
        Pair { from: 14, to: 0, rot: rot::<FK4B1950, ICRS>, ext: ext::<FK4B1950, ICRS> },
        Pair { from: 14, to: 4, rot: rot::<FK4B1950, EquatorialMeanJ2000>, ext: ext::<FK4B1950, EquatorialMeanJ2000> },
        Pair { from: 14, to: 8, rot: rot::<FK4B1950, CIRS>, ext: ext::<FK4B1950, CIRS> },
        Pair { from: 14, to: 9, rot: rot::<FK4B1950, TIRS>, ext: ext::<FK4B1950, TIRS> },
        Pair { from: 14, to: 10, rot: rot::<FK4B1950, ITRF>, ext: ext::<FK4B1950, ITRF> },
        Pair { from: 14, to: 11, rot: rot::<FK4B1950, ECEF>, ext: ext::<FK4B1950, ECEF> },
        Pair { from: 15, to: 0, rot: rot::<MercuryFixed, ICRS>, ext: ext::<MercuryFixed, ICRS> },
        Pair { from: 15, to: 3, rot: rot::<MercuryFixed, EclipticMeanJ2000>, ext: ext::<MercuryFixed, EclipticMeanJ2000> },
        Pair { from: 15, to: 5, rot: rot::<MercuryFixed, EME2000>, ext: ext::<MercuryFixed, EME2000> },
        Pair { from: 16, to: 0, rot: rot::<VenusFixed, ICRS>, ext: ext::<VenusFixed, ICRS> },
        Pair { from: 16, to: 3, rot: rot::<VenusFixed, EclipticMeanJ2000>, ext: ext::<VenusFixed, EclipticMeanJ2000> },
        Pair { from: 16, to: 5, rot: rot::<VenusFixed, EME2000>, ext: ext::<VenusFixed, EME2000> },
        Pair { from: 17, to: 0, rot: rot::<MarsFixed, ICRS>, ext: ext::<MarsFixed, ICRS> },
        Pair { from: 17, to: 3, rot: rot::<MarsFixed, EclipticMeanJ2000>, ext: ext::<MarsFixed, EclipticMeanJ2000> },
        Pair { from: 17, to: 5, rot: rot::<MarsFixed, EME2000>, ext: ext::<MarsFixed, EME2000> },
        Pair { from: 18, to: 0, rot: rot::<MoonPrincipalAxes, ICRS>, ext: ext::<MoonPrincipalAxes, ICRS> },
        Pair { from: 18, to: 3, rot: rot::<MoonPrincipalAxes, EclipticMeanJ2000>, ext: ext::<MoonPrincipalAxes, EclipticMeanJ2000> },
        Pair { from: 18, to: 5, rot: rot::<MoonPrincipalAxes, EME2000>, ext: ext::<MoonPrincipalAxes, EME2000> },
        Pair { from: 19, to: 0, rot: rot::<JupiterSystemIII, ICRS>, ext: ext::<JupiterSystemIII, ICRS> },
        Pair { from: 19, to: 3, rot: rot::<JupiterSystemIII, EclipticMeanJ2000>, ext: ext::<JupiterSystemIII, EclipticMeanJ2000> },
        Pair { from: 19, to: 5, rot: rot::<JupiterSystemIII, EME2000>, ext: ext::<JupiterSystemIII, EME2000> },
        Pair { from: 20, to: 0, rot: rot::<SaturnFixed, ICRS>, ext: ext::<SaturnFixed, ICRS> },
        Pair { from: 20, to: 3, rot: rot::<SaturnFixed, EclipticMeanJ2000>, ext: ext::<SaturnFixed, EclipticMeanJ2000> },
        Pair { from: 20, to: 5, rot: rot::<SaturnFixed, EME2000>, ext: ext::<SaturnFixed, EME2000> },
        Pair { from: 21, to: 0, rot: rot::<UranusFixed, ICRS>, ext: ext::<UranusFixed, ICRS> },
        Pair { from: 21, to: 3, rot: rot::<UranusFixed, EclipticMeanJ2000>, ext: ext::<UranusFixed, EclipticMeanJ2000> },
        Pair { from: 21, to: 5, rot: rot::<UranusFixed, EME2000>, ext: ext::<UranusFixed, EME2000> },
        Pair { from: 22, to: 0, rot: rot::<NeptuneFixed, ICRS>, ext: ext::<NeptuneFixed, ICRS> },
        Pair { from: 22, to: 3, rot: rot::<NeptuneFixed, EclipticMeanJ2000>, ext: ext::<NeptuneFixed, EclipticMeanJ2000> },
        Pair { from: 22, to: 5, rot: rot::<NeptuneFixed, EME2000>, ext: ext::<NeptuneFixed, EME2000> },
        Pair { from: 23, to: 0, rot: rot::<PlutoFixed, ICRS>, ext: ext::<PlutoFixed, ICRS> },
        Pair { from: 23, to: 3, rot: rot::<PlutoFixed, EclipticMeanJ2000>, ext: ext::<PlutoFixed, EclipticMeanJ2000> },
        Pair { from: 23, to: 5, rot: rot::<PlutoFixed, EME2000>, ext: ext::<PlutoFixed, EME2000> },
    ]
}

/// Generated Earth-orientation values: [dut1 s, xp as, yp as, dx mas, dy mas].
pub fn set_eop(v: [f64; 5]) {
    use siderust::qtty::*;
    EOP.with(|e| e.set(Some(EopValues {
        dut1: Seconds::new(v[0]), xp: Arcseconds::new(v[1]), yp: Arcseconds::new(v[2]),
        dx: MilliArcseconds::new(v[3]), dy: MilliArcseconds::new(v[4]), lod: Seconds::new(0.0),
    })));
}
pub fn eop_gen() -> proptest::strategy::BoxedStrategy<[f64; 5]> {
    use proptest::prelude::*;
    prop_oneof![
        1 => Just([0.0; 5]),
        1 => (-0.9f64..0.9, -0.6f64..0.6, -0.6f64..0.6).prop_map(|(a, b, c)| [a, b, c, 0.0, 0.0]),
        3 => (-0.9f64..0.9, -0.6f64..0.6, -0.6f64..0.6, -1.0f64..1.0, -1.0f64..1.0).prop_map(|(a, b, c, d, e)| [a, b, c, d, e]),
    ].boxed()
}

/// Earth-fixed to mean-J2000-equatorial rotation: the correct one, and the one the library's
/// topocentric code uses because of the known finding (Earth rotation angle with the wrong sign).
pub fn site_rotations(jd: JulianDate, ctx: &Ctx) -> (M3, M3) {
    use crate::refs::mm;
    let good = rot::<ITRF, EquatorialMeanJ2000>(jd, ctx, 3);
    let bad = mm(&rot::<CIRS, EquatorialMeanJ2000>(jd, ctx, 3), &mm(&rot::<CIRS, TIRS>(jd, ctx, 3), &rot::<ITRF, TIRS>(jd, ctx, 3)));
    (good, bad)
}
