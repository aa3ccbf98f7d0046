//! C02: frame rotations equal their IAU/IERS definitions.
use siderust::JulianDate;
use vharness::frames::*;
use vharness::refs::*;
use vharness::*;

const AS2R: f64 = std::f64::consts::PI / 648_000.0;
/// WGCCRE 2015 (linear parts): pole RA, rate/century, pole dec, rate, W0, rate/day.
const IAU: [[f64; 6]; 9] = [
    [281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108],
    [272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688],
    [317.269, -0.10927, 54.432, -0.05827, 176.049, 350.891982443],
    [269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815],
    [268.057, -0.006, 64.495, 0.002, 284.95, 870.536],
    [40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024],
    [257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928],
    [299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757],
    [132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225],
];
/// B1950 FK4 to J2000 FK5 axes (Standish 1982 / Murray 1989), without E-terms and rates.
const FK4: M3 = [
    [0.9999256794956877, -0.0111814832204662, -0.0048590038153592],
    [0.0111814832391717, 0.9999374848933135, -0.0000271625947142],
    [0.0048590037723143, -0.0000271702937440, 0.9999881946023742],
];

fn ut1(jd: f64, dut1: f64) -> f64 {
    let mut u = jd;
    for _ in 0..4 {
        u = jd - tempoch::delta_t_seconds_extrapolated(siderust::qtty::Days::new(u)).value() / 86400.0;
    }
    u + dut1 / 86400.0
}

/// ICRS -> frame `f`, from the standards.
fn from_icrs(f: usize, jd: f64, model: usize, e: [f64; 5]) -> M3 {
    let eps = obl06(jd);
    let (mut dp, mut de) = match model { 0 => nut00a(jd), 1 => nut00b(jd), 2 => (0.0, 0.0), _ => nut06a(jd) };
    let teme = dp * eps.cos();
    dp += e[3] * 1e-3 * AS2R / eps.sin();
    de += e[4] * 1e-3 * AS2R;
    let n = npb(jd, dp, de);
    let (x, y) = (n[2][0], n[2][1]);
    let cirs = || c2ixys(x, y, s_simple(jd, x, y));
    let tirs = || mm(&r3(era00(ut1(jd, e[0]))), &cirs());
    let bias = pmat06(J2000);
    match FRAMES[f] {
        "ICRS" | "ICRF" | "GCRS" => ID3,
        "EclipticMeanJ2000" => mm(&r1(84381.406 * AS2R), &bias),
        "EquatorialMeanJ2000" | "EME2000" => bias,
        "EquatorialMeanOfDate" => pmat06(jd),
        "EquatorialTrueOfDate" => n,
        "CIRS" => cirs(),
        "TIRS" => tirs(),
        "ITRF" | "ECEF" => mm(&pom00(e[1] * AS2R, e[2] * AS2R, sp00(jd)), &tirs()),
        "TEME" => mm(&r3(teme), &n), // mean equinox lies EE east of the true one
        "Galactic" => ICRS2GAL,
        "FK4B1950" => mm(&mt(&FK4), &bias),
        _ => {
            let p = IAU[f - 15];
            let t = centuries(jd);
            let d = jd - J2000;
            let (a, dd, w) = (p[0] + p[1] * t, p[2] + p[3] * t, p[4] + p[5] * d);
            let h = std::f64::consts::FRAC_PI_2;
            mm(&r3(w.to_radians()), &mm(&r1(h - dd.to_radians()), &r3(a.to_radians() + h)))
        }
    }
}
fn tol(f: usize) -> f64 {
    match FRAMES[f] {
        "TIRS" | "ITRF" | "ECEF" => 3e-8,   // UT1 as one double: 40 us of rotation
        "Galactic" => 1e-12,
        "FK4B1950" => 1e-11,
        x if x.ends_with("Fixed") || x == "MoonPrincipalAxes" || x == "JupiterSystemIII" => 2e-8,
        "EclipticMeanJ2000" | "EquatorialMeanJ2000" | "EME2000" => 1e-12,
        _ => 2e-12,
    }
}

fn main() {
    let mut c = Check::new("C02", "epoch 1600-2400 x nutation model x generated EOP values; every case compares all 210 frame pairs with matrices built from the standards; non-trivial: not J2000 with zero EOP");
    c.assume("CIO locator s is the library's documented simplified form (its difference from the full series is a known finding of C04)");
    c.assume("UT1 is TT minus the time library's Delta T plus the EOP value of UT1-UTC, as documented for runs without a loaded EOP bundle");
    c.prop("all_pairs", 16_000, || (gen::jd_wide(), 0usize..4, eop_gen()), |&(jd, model, eop)| {
        set_eop(eop);
        let ctx = Ctx::with_types();
        let t = JulianDate::new(jd);
        let refs: Vec<M3> = (0..FRAMES.len()).map(|f| from_icrs(f, jd, model, eop)).collect();
        for p in pairs() {
            let r = (p.rot)(t, &ctx, model);
            let want = mm(&refs[p.to], &mt(&refs[p.from]));
            let d = mdiff(&r, &want);
            // UT1 drops out between frames that both turn with the Earth
            let turning = |f: usize| matches!(FRAMES[f], "TIRS" | "ITRF" | "ECEF");
            let lim = if turning(p.from) && turning(p.to) { 2e-12 } else { tol(p.from).max(tol(p.to)) * 1.5 };
            ensure!(d < lim, "{}->{}: differs from its definition by {d:.3e} rad ({:.3} arcsec), model {model}", FRAMES[p.from], FRAMES[p.to], d / AS2R);
            count_oracle(1);
        }
        Ok(if jd == J2000 && eop == [0.0; 5] { "-J2000, zero EOP" } else if eop == [0.0; 5] { "no EOP" } else { "EOP" })
    });
    // The building blocks with their own entry points.
    c.prop("polar_motion_and_bias", 20_000, || (gen::jd_wide(), -1.0f64..1.0, -1.0f64..1.0, gen::unit_vec()), |&(jd, xp, yp, u)| {
        use affn::frames::{EME2000, GCRS, ICRS};
        use siderust::astro::frame_bias::*;
        use siderust::astro::polar_motion::*;
        use siderust::qtty::*;
        let t = JulianDate::new(jd);
        let sp = sp00(jd);
        let got = tio_locator_sp(t).value();
        ensure!(close(got, sp, 1e-15, 1e-9), "TIO locator {got:e} rad, expected {sp:e}");
        let want = pom00(xp * AS2R, yp * AS2R, sp);
        let got = *polar_motion_matrix(Radians::new(xp * AS2R), Radians::new(yp * AS2R), Radians::new(sp)).as_matrix();
        ensure!(mdiff(&got, &want) < 1e-14, "polar motion matrix differs by {:.3e}", mdiff(&got, &want));
        let got = *polar_motion_matrix_from_eop(Arcseconds::new(xp), Arcseconds::new(yp), t).as_matrix();
        ensure!(mdiff(&got, &want) < 1e-14, "polar motion matrix from EOP differs by {:.3e}", mdiff(&got, &want));
        // IERS 2010 frame bias, checked as a map of directions
        let (da, xi, eta) = (-0.0146 * AS2R, -0.016617 * AS2R, -0.0068192 * AS2R);
        let b = mm(&r1(-eta), &mm(&r2(xi), &r3(da)));
        let w = mv(&b, u);
        for (name, m) in [("GCRS", GCRS::frame_bias_to_eme2000()), ("ICRS", ICRS::frame_bias_to_eme2000()), ("EME2000 to GCRS", EME2000::frame_bias_to_gcrs().inverse()), ("EME2000 to ICRS", EME2000::frame_bias_to_icrs().inverse())] {
            let g = mv(m.as_matrix(), u);
            ensure!(dist(g, w) < 1e-15 * 4.0, "{name} frame bias: off by {:.3e} rad", dist(g, w));
        }
        Ok("matrices")
    });
    // Physical meaning of each body-fixed frame, without the matrix formula: the pole goes to +z,
    // and the frame turns with W.
    c.prop("body_fixed_poles", 20_000, || (gen::jd_wide(), 15usize..24, -1.0f64..1.0), |&(jd, f, dt)| {
        set_eop([0.0; 5]);
        let ctx = Ctx::with_types();
        let ps = pairs();
        let p = ps.iter().find(|p| p.from == 0 && p.to == f).unwrap();
        let row = IAU[f - 15];
        let t = centuries(jd);
        let pole = sph((row[0] + row[1] * t).to_radians(), (row[2] + row[3] * t).to_radians());
        let r = (p.rot)(JulianDate::new(jd), &ctx, 3);
        let z = mv(&r, pole);
        ensure!(dist(z, [0.0, 0.0, 1.0]) < 1e-9, "{}: the IAU pole maps to {z:?}, not to +z", FRAMES[f]);
        let q = (p.rot)(JulianDate::new(jd + dt), &ctx, 3);
        // the inertial node direction, seen turning backwards at the rate of W
        let node = [-(row[0] + row[1] * t).to_radians().sin(), (row[0] + row[1] * t).to_radians().cos(), 0.0];
        let (a, b) = (mv(&r, node), mv(&q, node));
        let turned = b[1].atan2(b[0]) - a[1].atan2(a[0]);
        let want = -((jd + dt) - jd) * row[5].to_radians();
        ensure!(adiff(turned, want) < 3e-6, "{}: rotates by {turned}, expected {want} mod 2 pi", FRAMES[f]);
        Ok("pole")
    });
    c.finish()
}
