//! C38: force configurations, the force registry, arcs, parameter vectors and covariances.
use principia::{AccelerationModel, TwoBody, J2};
use proptest::collection::vec;
use proptest::prelude::*;
use siderust::astro::dynamics::context::{DynamicsContext, DynamicsContextBuilder};
use siderust::astro::dynamics::density::ExponentialAtmosphere;
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::gravity::LowDegreeEarth;
use siderust::astro::dynamics::{OrbitState, Position, Velocity, EARTH_J2, GM_EARTH, R_EARTH};
use siderust::coordinates::cartesian::{Position as CartPosition, Velocity as CartVelocity};
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, GCRS};
use siderust::ephemeris::{AuPerDay, DynEphemeris, EphemerisError};
use siderust::pod::force::{DynSiderustForceModel, SiderustCompositeModel, EmpiricalPeriodicAcceleration, ForceModelConfig, ForceModelFactory, ForceModelParams, ForceModelRegistry, ForceModelSpec, PeriodicHarmonic};
use siderust::pod::problem::arc::{ArcDefinition, ArcId};
use siderust::pod::problem::covariance::{CovarianceError, ParameterCovariance};
use siderust::pod::problem::parameter::{Parameter, ParameterKind, ParameterOrdering};
use siderust::pod::propagation::pod_error::PodDynamicsError;
use siderust::qtty::{AreaToMass, AstronomicalUnit, DragCoefficient, Kilometer, KmPerSecondsSquared, SrpCoefficient};
use siderust::time::JulianDate;
use std::collections::BTreeMap;
use std::sync::Arc;
use vharness::gen::*;
use vharness::*;

type V = [f64; 3];
type Model = Box<DynSiderustForceModel>;

struct Eph { sun: V, earth: V, moon: V }
macro_rules! both { ($t:ident, $n:ident, $r:ty, $e:expr) => {
    fn $t(&self, _: JulianDate) -> Result<$r, EphemerisError> { let f: fn(&Eph) -> $r = $e; Ok(f(self)) }
    fn $n(&self, _: JulianDate) -> $r { let f: fn(&Eph) -> $r = $e; f(self) }
} }
impl DynEphemeris for Eph {
    both!(try_sun_barycentric, sun_barycentric, CartPosition<Barycentric, EclipticMeanJ2000, AstronomicalUnit>, |e| CartPosition::new(e.sun[0], e.sun[1], e.sun[2]));
    both!(try_earth_barycentric, earth_barycentric, CartPosition<Barycentric, EclipticMeanJ2000, AstronomicalUnit>, |e| CartPosition::new(e.earth[0], e.earth[1], e.earth[2]));
    both!(try_earth_heliocentric, earth_heliocentric, CartPosition<Heliocentric, EclipticMeanJ2000, AstronomicalUnit>, |e| CartPosition::new(e.earth[0] - e.sun[0], e.earth[1] - e.sun[1], e.earth[2] - e.sun[2]));
    both!(try_earth_barycentric_velocity, earth_barycentric_velocity, CartVelocity<EclipticMeanJ2000, AuPerDay>, |_| CartVelocity::new(0.0, 0.0, 0.0));
    both!(try_moon_geocentric, moon_geocentric, CartPosition<Geocentric, EclipticMeanJ2000, Kilometer>, |e| CartPosition::new(e.moon[0], e.moon[1], e.moon[2]));
}

/// What a place in a force list asks for, in the harness's own words.
#[derive(Debug, Clone)]
enum Ask { TwoBody, J2, Geo(usize, usize), Sun, Moon, SunMoon, Drag(f64, f64), Srp(f64, f64, u8), Rel, Const(V), Cpr(bool, f64, f64, [f64; 6]) }
const NAMES: [&str; 12] = ["two_body", "j2", "geopotential", "third_body_sun", "third_body_moon", "third_body_sun_moon", "drag", "srp_cannonball", "relativity", "empirical_constant", "empirical_1cpr", "empirical_2cpr"];
const OWN: [&str; 4] = ["albedo", "tides", "zzz", "drag"];
fn q(x: f64) -> KmPerSecondsSquared { KmPerSecondsSquared::new(x) }
fn shade(k: u8) -> ShadowModel { match k { 0 => ShadowModel::None, 1 => ShadowModel::Cylindrical, _ => ShadowModel::Conical } }
fn harmonic(twice: bool) -> PeriodicHarmonic { if twice { PeriodicHarmonic::TwicePerRev } else { PeriodicHarmonic::OncePerRev } }
impl Ask {
    fn name(&self) -> &'static str { match self { Ask::TwoBody => "two_body", Ask::J2 => "j2", Ask::Geo(..) => "geopotential", Ask::Sun => "third_body_sun", Ask::Moon => "third_body_moon", Ask::SunMoon => "third_body_sun_moon", Ask::Drag(..) => "drag", Ask::Srp(..) => "srp_cannonball", Ask::Rel => "relativity", Ask::Const(_) => "empirical_constant", Ask::Cpr(false, ..) => "empirical_1cpr", Ask::Cpr(true, ..) => "empirical_2cpr" } }
    fn params(&self) -> ForceModelParams { match self {
        Ask::Geo(d, o) => ForceModelParams::Geopotential { degree: *d, order: *o },
        Ask::Drag(c, a) => ForceModelParams::Drag { cd: DragCoefficient::new(*c), area_to_mass: AreaToMass::new(*a) },
        Ask::Srp(c, a, s) => ForceModelParams::SrpCannonball { cr: SrpCoefficient::new(*c), area_to_mass: AreaToMass::new(*a), shadow: shade(*s) },
        Ask::Const(k) => ForceModelParams::EmpiricalConstant { radial: q(k[0]), transverse: q(k[1]), normal: q(k[2]) },
        Ask::Cpr(t, e, p, c) => ForceModelParams::EmpiricalPeriodic { harmonic: harmonic(*t), epoch_ref: JulianDate::new(*e), period: siderust::qtty::Seconds::new(*p), coeffs: c.map(q) },
        _ => ForceModelParams::None,
    } }
    /// The model a user would build by hand.
    fn model(&self) -> Model { match self {
        Ask::TwoBody => Box::new(TwoBody::new(GM_EARTH)), Ask::J2 => Box::new(J2::new(GM_EARTH, R_EARTH, EARTH_J2)), Ask::Geo(d, o) => Box::new(Geopotential::new(*d, *o)),
        Ask::Sun => Box::new(ThirdBody::new().with_sun()), Ask::Moon => Box::new(ThirdBody::new().with_moon()), Ask::SunMoon => Box::new(ThirdBody::new().with_sun().with_moon()),
        Ask::Drag(c, a) => Box::new(DragForce::new(DragCoefficient::new(*c), AreaToMass::new(*a))),
        Ask::Srp(c, a, s) => { let (c, a) = (SrpCoefficient::new(*c), AreaToMass::new(*a)); match s { 0 => Box::new(CannonballSrp::<NoEclipse>::new(c, a)), 1 => Box::new(CannonballSrp::<Cylindrical>::new(c, a)), _ => Box::new(CannonballSrp::<Conical>::new(c, a)) } }
        Ask::Rel => Box::new(CentralBodyRelativity1Pn::earth()),
        Ask::Const(k) => Box::new(EmpiricalAcceleration::rtn(q(k[0]), q(k[1]), q(k[2]))),
        Ask::Cpr(t, e, p, c) => Box::new(EmpiricalPeriodicAcceleration::new(harmonic(*t), JulianDate::new(*e), siderust::qtty::Seconds::new(*p), q(c[0]), q(c[1]), q(c[2]), q(c[3]), q(c[4]), q(c[5]))),
    } }
}
/// A user's force: recognisable by its acceleration.
struct Own(u8, u32);
impl AccelerationModel<DynamicsContext, tempoch::TT, Geocentric, GCRS> for Own {
    fn name(&self) -> &'static str { "own" }
    fn acceleration(&self, _: &OrbitState, _: &DynamicsContext) -> Result<siderust::astro::dynamics::Acceleration, principia::PrincipiaError> { Ok(siderust::astro::dynamics::Acceleration::new(self.0 as f64, self.1 as f64, 1.0)) }
}
/// A user's factory, tagged so that the last registration can be told apart.
struct Factory(u8, u32);
impl ForceModelFactory for Factory {
    fn name(&self) -> &'static str { OWN[self.0 as usize] }
    fn build(&self, p: &ForceModelParams) -> Result<Model, PodDynamicsError> { match p { ForceModelParams::Custom(s) if s == "refuse" => Err(PodDynamicsError::InvalidParameters { name: self.name().into(), reason: "asked to" }), _ => Ok(Box::new(Own(self.0, self.1))) } }
}
fn coeff() -> impl Strategy<Value = f64> { -1e-6f64..1e-6 }
fn ask() -> impl Strategy<Value = Ask> {
    prop_oneof![
        Just(Ask::TwoBody), Just(Ask::J2), Just(Ask::Sun), Just(Ask::Moon), Just(Ask::SunMoon), Just(Ask::Rel),
        (0usize..5).prop_flat_map(|d| (Just(d), 0..d + 1)).prop_map(|(d, o)| Ask::Geo(d, o)),
        (0.0f64..4.0, logu(-4.0, 0.0)).prop_map(|(c, a)| Ask::Drag(c, a)), (0.0f64..2.5, logu(-4.0, 1.0), 0u8..3).prop_map(|(c, a, s)| Ask::Srp(c, a, s)),
        [coeff(), coeff(), coeff()].prop_map(Ask::Const), cpr(false), cpr(true),
    ]
}
fn cpr(t: bool) -> impl Strategy<Value = Ask> { (jd_modern(), logu(3.5, 5.0), [coeff(), coeff(), coeff(), coeff(), coeff(), coeff()]).prop_map(move |(e, p, c)| Ask::Cpr(t, e, p, c)) }

/// A satellite, its surroundings and a clock.
type Scene = (V, V, f64, (V, V, V));
fn scene() -> impl Strategy<Value = Scene> {
    let b = || [-0.02f64..0.02, -0.02f64..0.02, -0.02f64..0.02];
    ((unit_vec(), 6_600.0f64..20_000.0), (unit_vec(), 1.0f64..9.0), jd_modern(), (b(), unit_vec(), 0.97f64..1.03, unit_vec(), 350_000.0f64..410_000.0)).prop_map(|((u, r), (w, v), t, (sun, d, k, m, dm))| (u.map(|x| x * r), w.map(|x| x * v), t, (sun, [0, 1, 2].map(|i| sun[i] - k * d[i]), m.map(|x| x * dm))))
}
fn context(s: &Scene) -> DynamicsContext { DynamicsContextBuilder::new().with_ephemeris(Arc::new(Eph { sun: s.3 .0, earth: s.3 .1, moon: s.3 .2 })).with_gravity(Arc::new(LowDegreeEarth)).with_atmosphere(Arc::new(ExponentialAtmosphere::LEO_500KM)).build() }
fn eval(m: &DynSiderustForceModel, s: &Scene, ctx: &DynamicsContext) -> Result<V, String> {
    let st = OrbitState::new(JulianDate::new(s.2).to_j2000s(), Position::<GCRS>::new(s.0[0], s.0[1], s.0[2]), Velocity::<GCRS>::new(s.1[0], s.1[1], s.1[2]));
    np("acceleration", || m.acceleration(&st, ctx))?.map(|a| [a.x().value(), a.y().value(), a.z().value()]).map_err(|e| e.to_string())
}
/// Two models act alike; a step in the drag altitude (negative near the surface) may refuse on both sides.
fn alike(what: &str, a: &DynSiderustForceModel, b: &DynSiderustForceModel, s: &Scene, ctx: &DynamicsContext) -> Result<(), String> {
    let (x, y) = (eval(a, s, ctx), eval(b, s, ctx));
    match (&x, &y) { (Ok(p), Ok(w)) => { let size = w.iter().fold(0.0f64, |m, x| m.max(x.abs())); ensure!((0..3).all(|i| (p[i] - w[i]).abs() <= 1e-13 * size), "{what}: acceleration {p:?}, the model itself gives {w:?}"); Ok(()) } (Err(_), Err(_)) => Ok(()), _ => Err(format!("{what}: {x:?}, the model itself {y:?}")) }
}
fn tri<S: Strategy + 'static>(s: S) -> impl Strategy<Value = Option<S::Value>> where S::Value: Clone { prop_oneof![1 => Just(None), 1 => s.prop_map(Some)] }

type Config = ((bool, bool, bool, bool, bool), Option<Ask>, Option<Ask>, Option<Ask>, Option<Ask>, Option<Ask>, Option<Ask>);
fn config() -> impl Strategy<Value = Config> {
    let b = any::<bool>;
    ((b(), b(), b(), b(), b()), tri((0usize..5).prop_flat_map(|d| (Just(d), 0..d + 1)).prop_map(|(d, o)| Ask::Geo(d, o))), tri((0.0f64..4.0, logu(-4.0, 0.0)).prop_map(|(c, a)| Ask::Drag(c, a))), tri((0.0f64..2.5, logu(-4.0, 1.0), 0u8..3).prop_map(|(c, a, s)| Ask::Srp(c, a, s))), tri([coeff(), coeff(), coeff()].prop_map(Ask::Const)), tri(cpr(false)), tri(cpr(true)))
}
/// The configuration and, separately, the ordered list a reader of its documentation expects.
fn declared(k: &Config) -> (ForceModelConfig, Vec<Ask>) {
    let ((two, j2, sun, moon, rel), geo, drag, srp, con, c1, c2) = k.clone();
    let mut c = ForceModelConfig { two_body: two, j2, harmonics: None, third_body_sun: sun, third_body_moon: moon, drag: None, srp: None, relativity: rel, empirical_constant: None, empirical_1cpr: None, empirical_2cpr: None };
    let mut w = vec![];
    if two { w.push(Ask::TwoBody) }
    if j2 { w.push(Ask::J2) }
    if let Some(Ask::Geo(d, o)) = geo { c.harmonics = Some((d, o)); w.push(Ask::Geo(d, o)) }
    if sun { w.push(Ask::Sun) }
    if moon { w.push(Ask::Moon) }
    if let Some(Ask::Drag(x, y)) = drag { c.drag = Some((DragCoefficient::new(x), AreaToMass::new(y))); w.push(Ask::Drag(x, y)) }
    if let Some(Ask::Srp(x, y, s)) = srp { c.srp = Some((SrpCoefficient::new(x), AreaToMass::new(y), shade(s))); w.push(Ask::Srp(x, y, s)) }
    if rel { w.push(Ask::Rel) }
    if let Some(Ask::Const(v)) = con { c.empirical_constant = Some((q(v[0]), q(v[1]), q(v[2]))); w.push(Ask::Const(v)) }
    if let Some(Ask::Cpr(_, e, p, x)) = c1 { c.empirical_1cpr = Some((JulianDate::new(e), siderust::qtty::Seconds::new(p), x.map(q))); w.push(Ask::Cpr(false, e, p, x)) }
    if let Some(Ask::Cpr(_, e, p, x)) = c2 { c.empirical_2cpr = Some((JulianDate::new(e), siderust::qtty::Seconds::new(p), x.map(q))); w.push(Ask::Cpr(true, e, p, x)) }
    (c, w)
}
fn same_params(g: &ForceModelParams, w: &ForceModelParams) -> bool { format!("{g:?}") == format!("{w:?}") }

#[derive(Debug, Clone)]
enum Op { Register(u8), Build(Vec<Item>), One(Item), Names, Has(u8) }
#[derive(Debug, Clone)]
enum Item { Good(Ask), Own(u8), Refuse(u8), Unknown(String), Wrong(Ask, Box<Ask>) }
fn item() -> impl Strategy<Value = Item> { prop_oneof![10 => ask().prop_map(Item::Good), 4 => (0u8..4).prop_map(Item::Own), 1 => (0u8..4).prop_map(Item::Refuse), 1 => "[a-z_]{0,9}|Two_body|two_body |two-body|TWO_BODY".prop_map(Item::Unknown), 1 => (ask(), ask()).prop_map(|(a, b)| Item::Wrong(a, Box::new(b)))] }
fn op() -> impl Strategy<Value = Op> { prop_oneof![3 => (0u8..4).prop_map(Op::Register), 3 => vec(item(), 0..8).prop_map(Op::Build), 4 => item().prop_map(Op::One), 1 => Just(Op::Names), 1 => (0u8..16).prop_map(Op::Has)] }
#[derive(Debug, PartialEq, Clone)]
enum Fail { Unknown(String), Params(String), Other }
fn fail(e: &PodDynamicsError) -> Fail { match e { PodDynamicsError::UnknownModel(n) => Fail::Unknown(n.clone()), PodDynamicsError::InvalidParameters { name, .. } => Fail::Params(name.clone()), _ => Fail::Other } }

fn kind() -> impl Strategy<Value = ParameterKind> {
    let s = || "[A-C]{1,2}";
    prop_oneof![Just(ParameterKind::StatePositionX), Just(ParameterKind::StatePositionY), Just(ParameterKind::StateVelocityZ), Just(ParameterKind::DragScale), Just(ParameterKind::SrpScale), s().prop_map(|receiver_id| ParameterKind::ReceiverClockBias { receiver_id }), s().prop_map(|station_id| ParameterKind::SlrRangeBias { station_id }), (s(), s(), s()).prop_map(|(receiver_id, satellite_id, signal)| ParameterKind::CarrierAmbiguity { receiver_id, satellite_id, signal }), (s(), "[RTN]").prop_map(|(frame, c)| ParameterKind::EmpiricalAcceleration { frame, component: c.chars().next().unwrap() }), s().prop_map(ParameterKind::Custom)]
}
fn ordering() -> impl Strategy<Value = ParameterOrdering> { vec((kind(), -10.0f64..10.0, proptest::option::of(0.0f64..1.0)), 0..9).prop_map(|v| ParameterOrdering { params: v.into_iter().map(|(kind, initial_value, apriori_sigma)| Parameter { kind, initial_value, apriori_sigma }).collect() }) }

fn main() {
    let mut c = Check::new("C38", "configurations with at least one force, histories with a build, covariances with at least one parameter");
    c.assume("the force models themselves are decided by C31; here a configured model must act as the same model built by hand");

    c.prop("a configuration declares its forces in order, with their parameters", 60_000, || (config(), scene()), |(k, s)| {
        let (cfg, want) = declared(k);
        let specs = np("to_specs", || cfg.to_specs())?;
        ensure!(specs.iter().map(|s| s.name.as_str()).collect::<Vec<_>>() == want.iter().map(|w| w.name()).collect::<Vec<_>>(), "specs {:?}, declared {:?}", specs.iter().map(|s| &s.name).collect::<Vec<_>>(), want.iter().map(|w| w.name()).collect::<Vec<_>>());
        for (g, w) in specs.iter().zip(&want) { ensure!(same_params(&g.params, &w.params()), "{} is asked with {:?}, declared {:?}", g.name, g.params, w.params()) }
        let reg = ForceModelRegistry::with_builtins();
        let all = np("build", || reg.build(&specs))?.map_err(|e| format!("{cfg:?} is refused: {e}"))?;
        ensure!(all.len() == want.len() && all.is_empty() == want.is_empty(), "{} models built of {} declared", all.len(), want.len());
        let ctx = context(s);
        let mut hand = SiderustCompositeModel::empty();
        for w in &want { alike(w.name(), &*reg.build_one(&ForceModelSpec::with_params(w.name(), w.params())).map_err(|e| e.to_string())?, &*w.model(), s, &ctx)?; hand = hand.push(w.model()) }
        alike("the whole configuration", &all, &hand, s, &ctx)?;
        // Without surroundings a configuration that needs them still refuses.
        let bare = DynamicsContext::empty();
        let needs = want.iter().any(|w| matches!(w, Ask::Geo(..) | Ask::Sun | Ask::Moon | Ask::Drag(..) | Ask::Srp(..)));
        ensure!(eval(&all, s, &bare).is_err() == (needs || eval(&hand, s, &bare).is_err()), "without providers: {:?}", eval(&all, s, &bare));
        Ok(match want.len() { 0 => "-nothing configured", 1 | 2 => "few", _ => "many" })
    });

    c.prop("the default is two-body and J2", 5000, scene, |s| {
        let reg = ForceModelRegistry::default();
        let all = reg.build(&ForceModelConfig::default().to_specs()).map_err(|e| e.to_string())?;
        ensure!(all.len() == 2, "{} default models", all.len());
        alike("default", &all, &SiderustCompositeModel::empty().push(Ask::TwoBody.model()).push(Ask::J2.model()), s, &DynamicsContext::empty())?;
        Ok("default")
    });

    c.prop("histories of registrations and builds", 40_000, || (any::<bool>(), vec(op(), 1..14), scene()), |(builtin, ops, s)| {
        let mut reg = if *builtin { ForceModelRegistry::with_builtins() } else { ForceModelRegistry::new() };
        // Model: name -> None for a built-in, Some(tag) for a user's factory.
        let mut model: BTreeMap<String, Option<(u8, u32)>> = BTreeMap::new();
        if *builtin { for n in NAMES { model.insert(n.into(), None); } }
        let ctx = context(s);
        let mut tag = 0; let mut built = 0;
        let spec = |i: &Item| -> ForceModelSpec { match i {
            Item::Good(a) => if matches!(a.params(), ForceModelParams::None) { ForceModelSpec::named(a.name()) } else { ForceModelSpec::with_params(a.name(), a.params()) },
            Item::Own(k) => ForceModelSpec::with_params(OWN[*k as usize], ForceModelParams::Custom(String::new())), Item::Refuse(k) => ForceModelSpec::with_params(OWN[*k as usize], ForceModelParams::Custom("refuse".into())),
            Item::Unknown(n) => ForceModelSpec::named(n.as_str()), Item::Wrong(a, b) => ForceModelSpec::with_params(a.name(), b.params()) } };
        for o in ops {
            let expect = |m: &BTreeMap<String, Option<(u8, u32)>>, i: &Item| -> Result<Model, Fail> {
                let sp = spec(i);
                match m.get(&sp.name) {
                    None => Err(Fail::Unknown(sp.name)),
                    Some(Some((k, t))) => if matches!(&sp.params, ForceModelParams::Custom(x) if x == "refuse") { Err(Fail::Params(sp.name)) } else { Ok(Box::new(Own(*k, *t))) },
                    Some(None) => match i {
                        Item::Good(a) => Ok(a.model()),
                        // A built-in that takes no parameters ignores what it is given; one that needs them names itself when refusing.
                        Item::Wrong(a, b) => match (a, &**b) {
                            (Ask::TwoBody | Ask::J2 | Ask::Sun | Ask::Moon | Ask::SunMoon | Ask::Rel, _) => Ok(a.model()),
                            (Ask::Geo(..), Ask::Geo(..)) | (Ask::Drag(..), Ask::Drag(..)) | (Ask::Srp(..), Ask::Srp(..)) | (Ask::Const(_), Ask::Const(_)) | (Ask::Cpr(false, ..), Ask::Cpr(false, ..)) | (Ask::Cpr(true, ..), Ask::Cpr(true, ..)) => Ok(b.model()),
                            _ => Err(Fail::Params(sp.name)),
                        },
                        // "drag" carries no custom text, and parameters are never taken from thin air.
                        Item::Own(_) | Item::Refuse(_) => Err(Fail::Params(sp.name)),
                        Item::Unknown(n) => match n.as_str() { "two_body" => Ok(Ask::TwoBody.model()), "j2" => Ok(Ask::J2.model()), "relativity" => Ok(Ask::Rel.model()), _ => Err(Fail::Params(sp.name)) },
                    },
                }
            };
            match o {
                Op::Register(k) => { tag += 1; let f = Box::new(Factory(*k, tag)); np("register", || reg.register(f))?; model.insert(OWN[*k as usize].into(), Some((*k, tag))); }
                Op::Names => { let g = reg.names(); let w: Vec<&str> = model.keys().map(|x| x.as_str()).collect(); ensure!(g == w, "names {g:?}, registered {w:?}") }
                Op::Has(k) => { let n = if *k < 12 { NAMES[*k as usize] } else { OWN[*k as usize - 12] }; ensure!(reg.is_registered(n) == model.contains_key(n), "is_registered({n}) is {}", reg.is_registered(n)) }
                Op::One(i) => {
                    built += 1;
                    match (np("build_one", || reg.build_one(&spec(i)))?, expect(&model, i)) {
                        (Ok(g), Ok(w)) => alike("model", &*g, &*w, s, &ctx)?,
                        (Err(e), Err(w)) => { ensure!(fail(&e) == w, "{i:?} refused with {e:?}, expected {w:?}"); let n = spec(i).name; ensure!(e.to_string().contains(&n), "{e} does not name {n}") }
                        (g, w) => return Err(format!("{i:?}: {}, expected {}", g.map_or_else(|e| e.to_string(), |_| "a model".into()), w.map_or_else(|e| format!("{e:?}"), |_| "a model".into()))),
                    }
                }
                Op::Build(v) => {
                    built += 1;
                    let specs: Vec<_> = v.iter().map(spec).collect();
                    let want: Vec<_> = v.iter().map(|i| expect(&model, i)).collect();
                    let first = want.iter().find_map(|w| w.as_ref().err().cloned());
                    match (np("build", || reg.build(&specs))?, first) {
                        (Err(e), Some(w)) => ensure!(fail(&e) == w, "refused with {e:?}, the first fault is {w:?}"),
                        (Ok(g), None) => {
                            ensure!(g.len() == v.len(), "{} models of {} specs", g.len(), v.len());
                            let mut hand = SiderustCompositeModel::empty();
                            for w in want { hand = hand.push(w.ok().unwrap()) }
                            alike("composite", &g, &hand, s, &ctx)?
                        }
                        (g, w) => return Err(format!("built {:?}, expected {w:?}", g.map(|m| m.len()).map_err(|e| e.to_string()))),
                    }
                }
            }
        }
        Ok(if built > 0 { "history" } else { "-no build" })
    });

    c.prop("arcs run from start to stop", 10_000, || ("[A-Za-z0-9 _.-]{0,20}", jd_modern(), prop_oneof![6 => -40.0f64..40.0, 1 => Just(0.0), 2 => -1e-6f64..1e-6], proptest::option::of(logu(-1.0, 4.0))), |(id, t, d, hint)| {
        let (a, b) = (JulianDate::new(*t).to_j2000s(), JulianDate::new(t + d).to_j2000s());
        let arc = ArcDefinition { id: ArcId::new(id.as_str()), start: a, stop: b, step_hint: hint.map(siderust::qtty::Seconds::new) };
        let (x, y): (f64, f64) = (a.raw().value(), b.raw().value());
        let g = np("duration", || arc.duration())?.value();
        ensure!(close(g, y - x, 1e-6, 1e-15), "duration {g}, epochs {} apart", y - x);
        ensure!(arc.is_valid() == (y >= x), "is_valid {} from {x} to {y}", arc.is_valid());
        ensure!(arc.id.as_str() == id && arc.id.to_string() == *id && arc.id == ArcId::new(id.clone()), "identifier {:?}", arc.id);
        ensure!(arc.step_hint.map(|h| h.value()) == *hint && arc.start == a && arc.stop == b && arc.clone() == arc, "arc changed");
        Ok(if y == x { "point" } else if y > x { "arc" } else { "inverted" })
    });

    c.prop("parameter order is the order given", 20_000, || (ordering(), kind()), |(o, k)| {
        ensure!(o.len() == o.params.len() && o.is_empty() == (o.params.len() == 0), "len {}", o.len());
        for k in o.params.iter().map(|p| &p.kind).chain([k]) {
            let mut want = None; for i in (0..o.params.len()).rev() { if o.params[i].kind == *k { want = Some(i) } }
            let g = np("index_of", || o.index_of(k))?;
            ensure!(g == want, "index_of({k:?}) is {g:?}, expected {want:?} in {:?}", o.params);
        }
        Ok(if o.params.is_empty() { "-empty" } else { "ordering" })
    });

    c.prop("covariances are checked in shape, symmetry and diagonal", 60_000, || (ordering(), vec(-5.0f64..5.0, 81), 0usize..5, 0usize..9, 0usize..9, prop_oneof![Just(0.0), logu(-12.0, 0.0)], prop_oneof![3 => Just(0i32), 1 => -3i32..4], prop_oneof![3 => 0.0f64..2.0, 1 => Just(1.0)]), |(o, raw, fault, fi, fj, tol, extra, k)| {
        let n = o.params.len();
        if n == 0 { let e = ParameterCovariance { params: o.clone(), data: vec![] }; ensure!(e.n() == 0 && e.validate_dim().is_ok() && e.validate_symmetric(*tol).is_ok() && e.validate_diagonal_nonneg().is_ok(), "empty covariance is refused"); return Ok("-empty") }
        let mut d = vec![0.0; n * n];
        for i in 0..n { for j in 0..=i { let x = if i == j { raw[i * 9 + j].abs() } else { raw[i * 9 + j] }; d[i * n + j] = x; d[j * n + i] = x } }
        let (i, j) = (fi % n, fj % n);
        match fault { 1 => d[i * n + j] += k * tol * 2.0, 2 => d[i * n + j] = f64::NAN, 3 => d[i * n + i] = -raw[0].abs() - 1e-300, 4 => { d[i * n + j] += k + 0.1; d[j * n + i] -= 0.1 } _ => {} }
        let mut m = ParameterCovariance { params: o.clone(), data: d };
        ensure!(m.n() == n, "n() is {}", m.n());
        if *extra != 0 { let l = ((n * n) as i32 + extra).max(0) as usize; m.data.resize(l, 0.0); if l != n * n {
            for r in [m.validate_dim(), m.validate_symmetric(*tol), m.validate_diagonal_nonneg()] { ensure!(matches!(r, Err(CovarianceError::Dimension { expected, actual }) if expected == n && actual == l), "{l} entries for {n} parameters: {r:?}") }
            return Ok("shape") } }
        ensure!(m.validate_dim().is_ok(), "{n}x{n} entries refused");
        let at = |i: usize, j: usize| m.data[i * n + j];
        let bad: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).filter(|&(i, j)| !((at(i, j) - at(j, i)).abs() <= *tol)).collect();
        match np("validate_symmetric", || m.validate_symmetric(*tol))? {
            Ok(()) => ensure!(bad.is_empty(), "asymmetric at {bad:?} beyond {tol} and accepted"),
            Err(CovarianceError::NotSymmetric { i, j, delta, tol: t }) => { ensure!(bad.contains(&(i, j)) && t == *tol, "reported ({i}, {j}) with tolerance {t}; asymmetric at {bad:?}"); let w = (at(i, j) - at(j, i)).abs(); ensure!(delta == w || delta.is_nan() && w.is_nan(), "delta {delta}, expected {w}") }
            Err(e) => return Err(format!("symmetry: {e}")),
        }
        let neg: Vec<usize> = (0..n).filter(|&i| !(at(i, i) >= 0.0)).collect();
        match np("validate_diagonal_nonneg", || m.validate_diagonal_nonneg())? {
            Ok(()) => ensure!(neg.is_empty(), "diagonal bad at {neg:?} and accepted"),
            Err(CovarianceError::NotPsdDiagonal { i, value }) => ensure!(neg.contains(&i) && (value == at(i, i) || value.is_nan() && at(i, i).is_nan()), "reported {i} = {value}, bad at {neg:?}"),
            Err(e) => return Err(format!("diagonal: {e}")),
        }
        Ok(if !bad.is_empty() || !neg.is_empty() { "faulty" } else { "sound" })
    });
    c.finish()
}
