//! C36: measurement models predict the physical observable; corrections and batches.
use proptest::prelude::*;
use qtty::{Hertz, Meter};
use siderust::astro::dynamics::{Position, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::observation::batch::ObservationBatch;
use siderust::pod::observation::corrections::*;
use siderust::pod::observation::gnss_obs::*;
use siderust::pod::observation::obs_trait::{CartesianState, ObsResidual, ObsType, Observation};
use siderust::pod::observation::provider_bundle::{NullProviderBundle, ProviderBundle};
use siderust::pod::observation::slr_obs::SlrNormalPointObs;
use siderust::time::JulianDate;
use std::f64::consts::PI;
use vharness::refs::*;
use vharness::*;

const C: f64 = 299_792_458.0;
const GM: f64 = 3.986_004_418e14;
const OMEGA: f64 = 7.292_115e-5;
const L1: f64 = 1_575_420_000.0;
fn pos(v: V3) -> Position<GCRS> { Position::<GCRS>::new(v[0], v[1], v[2]) }
fn vel(v: V3) -> Velocity<GCRS> { Velocity::<GCRS>::new(v[0], v[1], v[2]) }
fn place(lo: f64, hi: f64) -> impl Strategy<Value = V3> { (lo..hi, -1.0f64..1.0, 0.0f64..6.283).prop_map(|(r, s, l)| { let k = (1.0 - s * s).sqrt(); [r * k * l.cos(), r * k * l.sin(), r * s] }) }
fn speed(hi: f64) -> impl Strategy<Value = V3> { place(0.0, hi) }
struct Clocks(f64, Vec<(String, f64, f64)>);
impl ProviderBundle for Clocks {
    fn gnss_satellite_state_gcrs(&self, _: &str, _: JulianDate) -> Option<(Position<GCRS>, Velocity<GCRS>)> { None }
    /// Clock of a satellite, drifting with the epoch, so that both arguments matter.
    fn gnss_satellite_clock_m(&self, prn: &str, e: JulianDate) -> Meter { Meter::new(self.1.iter().find(|c| c.0 == prn).map_or(9e9, |c| c.1 + c.2 * (e.value() - 2_451_545.0))) }
    fn receiver_clock_m(&self) -> Meter { Meter::new(self.0) }
    fn station_gcrs_km(&self, _: &str, _: JulianDate) -> Option<Position<GCRS>> { None }
}
#[derive(Debug, Clone)]
struct Gnss { rx: V3, sat: V3, v: V3, clk: (f64, f64, f64, f64), jd: f64, meas: f64, sigma: f64, trop: Option<f64>, iono: u8, kp: KlobucharParams, f: f64, n: i32 }
fn klob() -> impl Strategy<Value = KlobucharParams> {
    ([0.0f64..3e-8, -1e-7f64..1e-7, -2e-7..2e-7, -2e-7..2e-7], [5e4f64..2e5, -2e5f64..2e5, -3e5..3e5, -3e5..3e5], -0.5f64..0.5, 0.0f64..2.0, 0.0f64..0.5, 0.0f64..2.0, 0.0f64..86400.0).prop_map(|(alpha, beta, la, lo, e, a, t)| KlobucharParams { alpha, beta, receiver_lat_sc: la, receiver_lon_sc: lo, elevation_sc: e, azimuth_sc: a, utc_seconds: t })
}
fn gnss() -> impl Strategy<Value = Gnss> {
    (place(6400.0, 9000.0), place(20_000.0, 43_000.0), speed(5.0), (-3e5f64..3e5, -3e5f64..3e5, -10.0f64..10.0, -3e5f64..3e5), -4000.0f64..12_000.0, (1.5e7f64..5e7, 1e-3f64..10.0), proptest::option::of(-0.1f64..1.6), (0u8..5, klob()), (prop_oneof![Just(L1), Just(1_227_600_000.0), Just(1_176_450_000.0), 1.1e9f64..1.7e9], -100_000_000i32..100_000_000))
        .prop_map(|(rx, sat, v, clk, d, (meas, sigma), trop, (iono, kp), (f, n))| Gnss { rx, sat, v, clk, jd: 2_451_545.0 + d, meas, sigma, trop, iono, kp, f, n })
}
/// Broadcast ionosphere of IS-GPS-200; the second number is how far its cosine and its series differ.
fn klobuchar(p: &KlobucharParams) -> (f64, f64) {
    let psi = 0.0137 / (p.elevation_sc + 0.11) - 0.022; let az = p.azimuth_sc * PI;
    let phi = (p.receiver_lat_sc + psi * az.cos()).max(-0.416).min(0.416); let lam = p.receiver_lon_sc + psi * az.sin() / (phi * PI).cos();
    let m = phi + 0.064 * ((lam - 1.617) * PI).cos(); let t = (43_200.0 * lam + p.utc_seconds).rem_euclid(86_400.0);
    let poly = |c: &[f64; 4]| c[0] + m * (c[1] + m * (c[2] + m * c[3]));
    let x = 2.0 * PI * (t - 50_400.0) / poly(&p.beta).max(72_000.0); let a = poly(&p.alpha).max(0.0); let f = 1.0 + 16.0 * (0.53 - p.elevation_sc).powi(3);
    let (d, e) = if x.abs() < PI / 2.0 { (a * x.cos(), a * (1.0 - x * x / 2.0 + x.powi(4) / 24.0 - x.cos()).abs()) } else { (0.0, 0.0) };
    // At the edge of the day side the two branches differ by the remainder of the series.
    (C * f * (5e-9 + d), C * f * (e + if (x.abs() - PI / 2.0).abs() < 1e-3 { a * 0.03 } else { 0.0 }))
}
fn tropo(e: f64) -> f64 { 0.002277 * (1013.25 + (1255.0 / 288.15 + 0.05) * 11.691) / e.sin().max(0.07) }

fn main() {
    let mut c = Check::new("C36", "observations whose corrections are not all zero; batches of several observations");
    c.prop("pseudoranges and carrier phases", 120_000, gnss, |g| {
        let epoch = JulianDate::new(g.jd); let state: CartesianState = CartesianState::new(epoch.to_j2000s(), pos(g.rx), vel([0.0, 7.5, 0.0]));
        let trop = || g.trop.map_or(TropModel::None, |e| TropModel::Saastamoinen { elevation_rad: e }); let iono = || match g.iono { 0 => IonoModel::None, 1 => IonoModel::IonoFree, _ => IonoModel::Klobuchar(g.kp) };
        let clocks = Clocks(g.clk.0, vec![("G02".into(), g.clk.3, 0.0), ("G01".into(), g.clk.1, g.clk.2)]);
        let pr = GnssPseudorangeObs { prn: "G01".into(), epoch, measured_m: Meter::new(g.meas), sigma: Meter::new(g.sigma), sat_pos_gcrs_km: pos(g.sat), sat_vel_gcrs_km_s: vel(g.v), trop: trop(), iono: iono(), frequency_hz: Hertz::new(g.f) };
        let cp = GnssCarrierPhaseObs { prn: "G01".into(), epoch, measured_m: Meter::new(g.meas), sigma: Meter::new(g.sigma), sat_pos_gcrs_km: pos(g.sat), sat_vel_gcrs_km_s: vel(g.v), trop: trop(), iono: iono(), frequency_hz: Hertz::new(g.f), integer_ambiguity: g.n };
        let rho = norm(sub(g.rx, g.sat)) * 1e3;
        // How much longer the path is while the Earth turns; the periodic relativistic clock term, in the documented sense.
        let sagnac = OMEGA * (g.sat[0] * g.rx[1] - g.sat[1] * g.rx[0]) * 1e6 / C; let rel = -2.0 * dot(g.sat, g.v) * 1e6 / C;
        let clock = g.clk.0 - (g.clk.1 + g.clk.2 * (g.jd - 2_451_545.0)); let t = g.trop.map_or(0.0, tropo);
        let (i, di) = if g.iono < 2 { (0.0, 0.0) } else { let (i, d) = klobuchar(&g.kp); let k = (L1 / g.f).powi(2); (i * k, d * k + if (g.f - L1).abs() <= 1e6 { i * (k - 1.0).abs() } else { 0.0 }) };
        let lambda = C / g.f; let tol = 1e-6 + 3e-8 * sagnac.abs() + di * 1.0001 + 1e-12 * t.abs() + 1e-10 * i;
        let a = np("residual", || pr.residual(&state, &clocks))?.map_err(|e| e.to_string())?; let b = np("residual", || cp.residual(&state, &clocks))?.map_err(|e| e.to_string())?;
        let (wa, wb) = (g.meas - (rho + clock + t + i + sagnac + rel), g.meas - (rho + clock + t - i + sagnac + rel + lambda * g.n as f64));
        ensure!((a - wa).abs() < tol, "pseudorange residual {a} instead of {wa} (range {rho}, troposphere {t}, ionosphere {i}, Earth rotation {sagnac}, relativity {rel})");
        ensure!((b.residual_m - wb).abs() < tol + 1e-8, "phase residual {} instead of {wb} (range {rho}, troposphere {t}, ionosphere {i}, Earth rotation {sagnac}, relativity {rel}, ambiguity {})", b.residual_m, lambda * g.n as f64);
        ensure!(close(b.cycles * lambda, b.residual_m, 1e-9, 1e-12), "{} cycles for {} m", b.cycles, b.residual_m);
        ensure!(Observation::epoch(&pr) == epoch && Observation::sigma(&cp) == Meter::new(g.sigma) && Observation::obs_type(&pr) == ObsType::GnssPseudorange && Observation::obs_type(&cp) == ObsType::GnssCarrierPhase, "metadata");
        let z = pr.residual(&state, &NullProviderBundle).map_err(|e| e.to_string())?; ensure!(close(z - a, clock, 1e-6, 0.0), "without clocks the residual changes by {}", z - a);
        Ok(match (g.trop, g.iono) { (None, 0 | 1) => "geometry, clocks, relativity", (Some(_), 0 | 1) => "with troposphere", (None, _) => "with ionosphere", _ => "with both" })
    });

    c.prop("laser ranges", 80_000, || (place(6350.0, 6390.0), place(6600.0, 30_000.0), speed(8.0), -0.1f64..1.5708, 0.35f64..1.1, 0.0f64..1e8), |(st, sat, v, el, lam, meas)| {
        let epoch = JulianDate::new(2_459_000.25); let state: CartesianState = CartesianState::new(epoch.to_j2000s(), pos(*sat), vel(*v));
        let make = |lam: f64, el: f64| SlrNormalPointObs { station_id: "7840".into(), epoch, measured_m: Meter::new(*meas), sigma: Meter::new(0.01), station_gcrs_km: pos(*st), sat_pos_gcrs_km: pos(*sat), sat_vel_gcrs_km_s: vel(*v), elevation_rad: el, wavelength_um: lam };
        let r = |lam, el| np("residual", || make(lam, el).residual(&state, &NullProviderBundle))?.map_err(|e| e.to_string());
        let got = meas - r(*lam, *el)?;
        // One light-time step back along the velocity, as documented; the exact equation differs in second order.
        let back = |rho: f64| norm(sub(*st, sub(*sat, scale(*v, rho * 1e3 / C)))); let r0 = norm(sub(*st, *sat)); let one = back(r0); let mut exact = one; for _ in 0..20 { exact = back(exact) }
        let at = sub(*sat, scale(*v, r0 * 1e3 / C)); let (a, b) = (norm(*st), norm(at));
        let e = el.max(3f64.to_radians()); let f = |l: f64| 0.9650 + 0.0164 / l.powi(2) + 0.000228 / l.powi(4); let map = |e: f64| 1.0 / (e.sin() + 0.0014 / (e.tan() + 0.045));
        let trop = f(*lam) * 0.002277 * 1013.25 * map(e); let den = a + b - one; let shap = if den * 1e3 > 1.0 { 2.0 * GM / (C * C) * ((a + b + one) / den).ln() } else { 0.0 };
        let want = 2e3 * exact + 2.0 * trop + 2.0 * shap; let tol = 2e3 * (exact - one).abs() * 1.01 + 1e-6 + if den * 1e3 < 1e3 { 1e-3 } else { 0.0 };
        ensure!((got - want).abs() < tol, "predicted {got} m instead of {want} (range {one} km, troposphere {trop} m, relativity {shap} m)");
        let (x, y) = (meas - r(0.532, 0.8)?, meas - r(1.064, 0.8)?); ensure!(close(x - y, 2.0 * (f(0.532) - f(1.064)) * 0.002277 * 1013.25 * map(0.8), 1e-7, 0.0), "colours differ by {}", x - y);
        Ok(if *el < 3f64.to_radians() { "below the cutoff" } else { "above the cutoff" })
    });

    c.prop("chains of range corrections", 80_000, || (place(6350.0, 9000.0), place(6600.0, 45_000.0), 1e5f64..5e7, proptest::collection::vec((0u8..6, [-0.01f64..0.01, -0.01..0.01, -0.01..0.01]), 0..8)), |(rx, sat, range, chain)| {
        let mut reg = CorrectionRegistry::new(); let mut names = vec![]; let mut want = *range; let u = scale(sub(*sat, *rx), 1.0 / norm(sub(*sat, *rx)));
        struct Twice; impl Correction for Twice { fn name(&self) -> &str { "Twice" } fn apply_to_range(&self, r: Meter, _: Position<GCRS>, _: Position<GCRS>) -> Meter { Meter::new(2.0 * r.value()) } }
        for (k, o) in chain {
            let m = scale(*o, 1e3);
            let b: Box<dyn Correction> = match k { 0 => Box::new(PhaseCenterOffset::new(*o)), 1 => Box::new(PhaseCenterOffset::from_metres(m)), 2 => Box::new(EarthTideDisplacement::from_km(o[0], o[1], o[2])), 3 => Box::new(EarthTideDisplacement::from_metres(m[0], m[1], m[2])), 4 => Box::new(ShapiroDelay), _ => Box::new(Twice) };
            names.push(["PhaseCenterOffset", "PhaseCenterOffset", "EarthTideDisplacement", "EarthTideDisplacement", "ShapiroDelay", "Twice"][*k as usize]);
            let s = (norm(*rx) + norm(*sat)) * 1e3;
            want = match k { 0..=3 => want - 1e3 * dot(*o, u), 4 => if s - want > 0.0 { want + 2.0 * GM / (C * C) * ((s + want) / (s - want)).ln() } else { want }, _ => 2.0 * want };
            reg.push(b);
        }
        let got = np("apply", || reg.apply(Meter::new(*range), pos(*rx), pos(*sat)))?.value();
        ensure!((got - want).abs() < 1e-6 + 1e-12 * want.abs(), "{names:?}: {range} m becomes {got} instead of {want}");
        ensure!(reg.names() == names && reg.len() == chain.len() && reg.is_empty() == chain.is_empty(), "the registry lists {:?}", reg.names());
        let same = reg.apply(Meter::new(*range), pos(*rx), pos(*rx)).value(); ensure!(same.is_finite(), "coincident ends give {same}");
        Ok(if chain.len() < 2 { "-at most one" } else { "several" })
    });

    c.prop("batches answer every observation of an epoch, in order", 15_000, || (proptest::collection::vec((gnss(), 0u8..3, 0u8..4), 0..12), 0u8..4), |(obs, at)| {
        let ep = |k: u8| JulianDate::new(2_459_000.5 + [0.0, 1e-9, 0.25, 1.0][k as usize]); let mut batch = ObservationBatch::new(); let mut want = vec![]; let clocks = Clocks(100.0, vec![("G01".into(), 5.0, 1.0)]);
        let state: CartesianState = CartesianState::new(ep(0).to_j2000s(), pos([7000.0, 10.0, 20.0]), vel([0.0, 7.5, 0.0]));
        for (g, kind, k) in obs {
            let (epoch, m, s, p, v) = (ep(*k), Meter::new(g.meas), Meter::new(g.sigma), pos(g.sat), vel(g.v));
            let r = match kind {
                0 => { let o = GnssPseudorangeObs { prn: "G01".into(), epoch, measured_m: m, sigma: s, sat_pos_gcrs_km: p, sat_vel_gcrs_km_s: v, trop: TropModel::None, iono: IonoModel::None, frequency_hz: Hertz::new(g.f) }; let r = o.residual(&state, &clocks).map_err(|e| e.to_string())?; batch.push(Box::new(o)); (r, None) }
                1 => { let o = GnssCarrierPhaseObs { prn: "G01".into(), epoch, measured_m: m, sigma: s, sat_pos_gcrs_km: p, sat_vel_gcrs_km_s: v, trop: TropModel::None, iono: IonoModel::None, frequency_hz: Hertz::new(g.f), integer_ambiguity: g.n }; let r = o.residual(&state, &clocks).map_err(|e| e.to_string())?; batch.push(Box::new(o)); (r.residual_m, Some(r.cycles)) }
                _ => { let o = SlrNormalPointObs { station_id: "1".into(), epoch, measured_m: m, sigma: s, station_gcrs_km: pos(g.rx), sat_pos_gcrs_km: p, sat_vel_gcrs_km_s: v, elevation_rad: 1.0, wavelength_um: 0.532 }; let r = o.residual(&state, &clocks).map_err(|e| e.to_string())?; batch.push(Box::new(o)); (r, None) }
            };
            if k == at || (*k < 2 && *at < 2 && ep(*k).value() == ep(*at).value()) { want.push(r) }
        }
        ensure!(batch.len() == obs.len() && batch.is_empty() == obs.is_empty() && batch.epochs() == obs.iter().map(|o| ep(o.2)).collect::<Vec<_>>(), "the batch holds {} observations", batch.len());
        let got = np("residuals", || batch.residuals_at_epoch_with(ep(*at), &state, &clocks))?; ensure!(batch.residuals_at_epoch(ep(*at)).len() == want.len(), "matching observations");
        let flat: Vec<(f64, Option<f64>)> = got.into_iter().map(|r| r.map(|x| match x { ObsResidual::Scalar(v) => (v, None), ObsResidual::Phase(p) => (p.residual_m, Some(p.cycles)) }).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        ensure!(flat == want, "residuals {flat:?} instead of {want:?}");
        Ok(if want.len() < 2 { "-at most one" } else { "several" })
    });
    c.finish()
}
