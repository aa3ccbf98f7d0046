//! C04: precession, nutation, ERA, sidereal time, equation of the equinoxes, CIP/CIO.
use siderust::astro::{cio, earth_rotation, era, nutation::*, polar_motion, precession, sidereal};
use siderust::qtty::*;
use siderust::JulianDate;
use vharness::refs::*;
use vharness::*;

const TAU: f64 = std::f64::consts::TAU;
const UAS: f64 = std::f64::consts::PI / 648_000.0 * 1e-6;

fn t(jd: f64) -> JulianDate { JulianDate::new(jd) }
fn m(r: &affn::Rotation3) -> M3 { *r.as_matrix() }
fn nut<N: NutationModel>(jd: f64) -> (f64, f64, f64) {
    let n = N::nutation(t(jd));
    assert!(close(n.true_obliquity().value(), n.mean_obliquity.value() + n.deps.value(), 1e-15, 0.0), "true obliquity {} of {} + {}", n.true_obliquity().value(), n.mean_obliquity.value(), n.deps.value());
    (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value())
}

fn main() {
    let mut c = Check::new("C04", "epochs 1600-2400 (log-spread about J2000 and uniform) in TT, UT1 offsets up to 1 h, nutation and polar-motion values; non-trivial: epoch is not J2000 itself");
    c.assume("the numerical tables of the nutation series are those of the external siderust-archive crate; the reference evaluates them independently");
    c.assume("cio_locator_s is compared with its documented simplified form, and with s recovered from the equinox-based chain to 4 mas (known finding)");
    let lab = |jd: f64| if jd == J2000 { "-J2000" } else if (jd - J2000).abs() < 36525.0 { "within a century" } else { "further" };

    c.prop("precession", 20_000, gen::jd_wide, move |&jd| {
        let (a, b, p, e) = precession::precession_fw_angles(t(jd));
        let r = pfw06(jd);
        for (n, x, y) in [("gamma", a, r.0), ("phi", b, r.1), ("psi", p, r.2), ("eps", e, r.3)] {
            ensure!(close(x.value(), y, 1e-14, 1e-12), "F-W angle {n}: {} vs reference {y}", x.value());
        }
        ensure!(close(precession::mean_obliquity_iau2006(t(jd)).value(), obl06(jd), 1e-15, 1e-13), "mean obliquity");
        let d = mdiff(&m(&precession::precession_matrix_iau2006(t(jd))), &pmat06(jd));
        ensure!(d < 1e-13, "precession matrix differs by {d:e}");
        Ok(lab(jd))
    });
    c.prop("fw_matrix", 8_000, || (gen::jd_wide(), -3.0f64..3.0, -3.0f64..3.0, -3.0f64..3.0, -3.0f64..3.0, -1e-3f64..1e-3, -1e-3f64..1e-3), |&(jd, g, p, s, e, dp, de)| {
        let d = mdiff(&m(&precession::fw_matrix(Radians::new(g), Radians::new(p), Radians::new(s), Radians::new(e))), &fw2m(g, p, s, e));
        ensure!(d < 1e-13, "fw_matrix differs by {d:e}");
        let n = precession::precession_nutation_matrix(t(jd), Radians::new(dp), Radians::new(de));
        let d = mdiff(&m(&n), &npb(jd, dp, de));
        ensure!(d < 1e-13, "precession_nutation_matrix differs by {d:e}");
        Ok("angles")
    });
    c.prop("ecliptic_matrices", 4_000, gen::jd_wide, move |&jd| {
        let (dp, de) = nut00b(jd);
        let eps = obl06(jd);
        let mean = mm(&r1(eps), &pmat06(jd));
        let tru = mm(&r1(eps + de), &npb(jd, dp, de));
        let m2m = r1(eps);
        let m2t = mm(&r1(eps + de), &num(eps, dp, de));
        let j = t(jd);
        for (n, a, b) in [
            ("gcrs_to_ecliptic_of_date", precession::gcrs_to_ecliptic_of_date_matrix(j), mean),
            ("ecliptic_of_date_to_gcrs", precession::ecliptic_of_date_to_gcrs_matrix(j), mt(&mean)),
            ("gcrs_to_true_ecliptic_of_date", precession::gcrs_to_true_ecliptic_of_date_matrix(j), tru),
            ("true_ecliptic_of_date_to_gcrs", precession::true_ecliptic_of_date_to_gcrs_matrix(j), mt(&tru)),
            ("mean_equatorial_to_ecliptic_of_date", precession::mean_equatorial_to_ecliptic_of_date_matrix(j), m2m),
            ("ecliptic_of_date_to_mean_equatorial", precession::ecliptic_of_date_to_mean_equatorial_matrix(j), mt(&m2m)),
            ("mean_equatorial_to_true_ecliptic_of_date", precession::mean_equatorial_to_true_ecliptic_of_date_matrix(j), m2t),
            ("true_ecliptic_of_date_to_mean_equatorial", precession::true_ecliptic_of_date_to_mean_equatorial_matrix(j), mt(&m2t)),
        ] {
            let d = mdiff(&m(&a), &b);
            ensure!(d < 1e-11, "{n}_matrix differs from the definition by {d:e}");
        }
        Ok(lab(jd))
    });
    c.prop("nutation_models", 12_000, gen::jd_wide, move |&jd| {
        let (b, a, six) = (nut00b(jd), nut00a(jd), nut06a(jd));
        let tol = 0.05 * UAS + 2e-8 * UAS * (jd - J2000).abs() ; // argument rounding over centuries
        let eq = |n: &str, x: (f64, f64, f64), y: (f64, f64)| -> Result<(), String> {
            ensure!((x.0 - y.0).abs() < tol, "{n} dpsi {} vs {} ({} uas off)", x.0, y.0, (x.0 - y.0) / UAS);
            ensure!((x.1 - y.1).abs() < tol, "{n} deps {} vs {} ({} uas off)", x.1, y.1, (x.1 - y.1) / UAS);
            ensure!(close(x.2, obl06(jd), 1e-15, 1e-13), "{n} mean obliquity");
            Ok(())
        };
        eq("IAU2000B", nut::<Iau2000B>(jd), b)?;
        eq("IAU2000A", nut::<Iau2000A>(jd), a)?;
        eq("IAU2006A", nut::<Iau2006A>(jd), six)?;
        eq("IAU2006 (precession only)", nut::<Iau2006>(jd), (0.0, 0.0))?;
        let n = nutation_iau2000b(t(jd));
        eq("nutation_iau2000b", (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value()), b)?;
        let d = mdiff(&m(&nutation_rotation_iau2000b(t(jd))), &num(obl06(jd), b.0, b.1));
        ensure!(d < 1e-11, "nutation rotation differs by {d:e}");
        ensure!(close(n.true_obliquity().value(), n.mean_obliquity.value() + n.deps.value(), 1e-16, 0.0), "true obliquity");
        ensure!(close(n.dpsi_deg().value(), b.0.to_degrees(), tol * 60.0, 1e-12) && close(n.deps_deg().value(), b.1.to_degrees(), tol * 60.0, 1e-12), "nutation in degrees {} {}", n.dpsi_deg().value(), n.deps_deg().value());
        count_oracle(4);
        Ok(lab(jd))
    });
    // The abridged model is documented to agree with the full one at the milliarcsecond level.
    c.prop("nutation_2000b_vs_2000a", 2_000, || 2_415_020.0f64..2_488_000.0, |&jd| {
        let (a, b) = (nut::<Iau2000A>(jd), nut::<Iau2000B>(jd));
        let lim = 4000.0 * UAS;
        ensure!((a.0 - b.0).abs() < lim && (a.1 - b.1).abs() < lim, "2000B differs from 2000A by {} / {} mas", (a.0 - b.0) / UAS / 1e3, (a.1 - b.1) / UAS / 1e3);
        Ok("epoch")
    });
    c.prop("era", 20_000, || (gen::jd_wide(), -3000.0f64..3000.0), |&(jd, k)| {
        let a = era::earth_rotation_angle(t(jd)).value();
        ensure!((0.0..=TAU).contains(&a), "ERA {a} outside one turn");
        ensure!(adiff(a, era00(jd)) < 1e-11, "ERA {a} vs {}", era00(jd));
        // two-part form: any split gives the same angle
        for (d1, d2) in [(2_400_000.5, jd - 2_400_000.5), (jd, 0.0), (0.0, jd), (J2000, jd - J2000), (jd - 0.3, 0.3), (0.3, jd - 0.3)] {
            let b = era::earth_rotation_angle_parts(d1, d2).value();
            ensure!(adiff(a, b) < 4e-9, "ERA split ({d1},{d2}) {b} vs {a}");
        }
        // one turn per sidereal (stellar) day
        let day = 1.0 / 1.002_737_811_911_354_5;
        let n = k.round();
        let b = era::earth_rotation_angle_parts(J2000 , (jd - J2000) + n * day).value();
        let tol = 2e-9 + 1e-11 * n.abs();
        ensure!(adiff(a, b) < tol, "ERA does not return after {n} stellar days: {}", adiff(a, b));
        Ok("epoch")
    });
    c.prop("sidereal", 20_000, || (gen::jd_wide(), -3600.0f64..3600.0, -1e-4f64..1e-4), move |&(tt, dut, dp)| {
        let ut = tt + dut / 86400.0;
        let g = sidereal::gmst_iau2006(t(ut), t(tt)).value();
        ensure!((0.0..=TAU).contains(&g), "GMST {g} outside one turn");
        ensure!(adiff(g, gmst06(ut, tt)) < 1e-11, "GMST {g} vs {}", gmst06(ut, tt));
        let eps = obl06(tt);
        let ct = era::complementary_terms_iau2000(t(tt)).value();
        ensure!((ct - eect00(tt)).abs() < 1e-16, "complementary terms {ct:e} vs {:e}", eect00(tt));
        let ee = era::equation_of_the_equinoxes_iau2000(t(tt), Radians::new(dp), Radians::new(eps)).value();
        ensure!((ee - (dp * eps.cos() + eect00(tt))).abs() < 1e-15, "equation of the equinoxes {ee:e}");
        ensure!((era::equation_of_the_equinoxes(Radians::new(dp), Radians::new(eps)).value() - dp * eps.cos()).abs() < 1e-15, "simple EE");
        let ga = sidereal::gast_iau2006(t(ut), t(tt), Radians::new(dp), Radians::new(eps)).value();
        ensure!((0.0..=TAU).contains(&ga), "GAST {ga} outside one turn");
        ensure!((wrap_pi(ga - g) - ee).abs() < 1e-14, "GAST-GMST {} is not EE {ee}", wrap_pi(ga - g));
        let gh = sidereal::gast_iau2006a(t(ut), t(tt)).value();
        let (b, _) = nut00b(tt);
        let want = wrap_tau(gmst06(ut, tt) + b * eps.cos() + eect00(tt));
        ensure!(adiff(gh, want) < 1e-11, "GAST(high-level) {gh} vs {want}");
        // the same next to the zero of GMST, where the sum leaves the turn
        let ut0 = ut - (wrap_pi(g) + ee * 0.5) / TAU * 0.997_269_566;
        let g0 = sidereal::gmst_iau2006(t(ut0), t(tt)).value();
        let ga0 = sidereal::gast_iau2006(t(ut0), t(tt), Radians::new(dp), Radians::new(eps)).value();
        ensure!((0.0..=TAU).contains(&ga0) && (0.0..=TAU).contains(&g0), "GAST {ga0} or GMST {g0} outside one turn");
        ensure!((wrap_pi(ga0 - g0) - ee).abs() < 1e-14, "GAST-GMST {} is not EE {ee} at the zero of GMST", wrap_pi(ga0 - g0));
        // Approximate equation of the origins keeps its documented form
        let eo = era::equation_of_the_origins_approx(Radians::new(dp * 3.0), Radians::new(eps), Radians::new(dp)).value();
        ensure!((eo - (-dp * 3.0 * eps.cos() - dp)).abs() < 1e-15, "EO formula");
        Ok(lab(tt))
    });
    c.prop("ut1_and_gmst_from_tt", 3_000, || (2_378_500.0f64..2_488_000.0, -0.9f64..0.9), |&(tt, dut1)| {
        // the time library's TT->UT1 conversion, inverted by its published Delta T
        let u = earth_rotation::jd_ut1_from_tt(t(tt)).raw().value();
        let dt = tempoch::delta_t_seconds_extrapolated(Days::new(u)).value();
        ensure!(((tt - u) * 86400.0 - dt).abs() < 2e-4, "TT-UT1 = {} s, Delta T = {dt} s", (tt - u) * 86400.0);
        ensure!(earth_rotation::jd_utc_from_tt_delta_t(t(tt)) == earth_rotation::jd_ut1_from_tt(t(tt)) && earth_rotation::jd_utc_from_tt(t(tt)) == earth_rotation::jd_ut1_from_tt(t(tt)), "UTC by Delta T");
        let e = siderust::astro::eop::EopValues { dut1: Seconds::new(dut1), ..Default::default() };
        let ue = earth_rotation::jd_ut1_from_tt_eop(t(tt), &e).raw().value();
        ensure!(((ue - u) * 86400.0 - dut1).abs() < 2e-4, "dUT1 of {dut1} s moved UT1 by {} s", (ue - u) * 86400.0);
        for (n, g, ut) in [("gmst_from_tt", earth_rotation::gmst_from_tt(t(tt)), u), ("gmst_default", earth_rotation::gmst_default(t(tt)), u), ("gmst_from_tt_eop", earth_rotation::gmst_from_tt_eop(t(tt), &e), ue)] {
            ensure!(adiff(g.value(), gmst06(ut, tt)) < 1e-8, "{n}: {} vs {}", g.value(), gmst06(ut, tt));
        }
        ensure!(earth_rotation::try_jd_utc_from_tt(t(tt)).is_err(), "UTC invented without EOP data");
        ensure!(earth_rotation::try_gmst_with_eop(t(tt)).is_err(), "GMST with EOP invented without EOP data");
        Ok(if tt > 2_463_871.5 { "beyond the Delta T table" } else { "within the Delta T table" })
    });
    c.prop("cip_cio", 40_000, || (gen::jd_wide(), -1e-4f64..1e-4, -1e-4f64..1e-4), move |&(jd, dp, de)| {
        let n = npb(jd, dp, de);
        let q = cio::cip_cio(t(jd), Radians::new(dp), Radians::new(de));
        ensure!((q.x.value() - n[2][0]).abs() < 1e-14 && (q.y.value() - n[2][1]).abs() < 1e-14, "CIP X,Y");
        let s = s_simple(jd, n[2][0], n[2][1]);
        ensure!((q.s.value() - s).abs() < 1e-13, "s {} vs {s}", q.s.value());
        let (x, y) = cio::cip_xy(t(jd), Radians::new(dp), Radians::new(de));
        ensure!(x.value() == q.x.value() && y.value() == q.y.value() && cio::cio_locator_s(t(jd), x, y).value() == q.s.value(), "views of the CIP/CIO disagree");
        let c2i = m(&cio::gcrs_to_cirs_matrix(q.x, q.y, q.s));
        ensure!(mdiff(&c2i, &c2ixys(n[2][0], n[2][1], s)) < 1e-13, "celestial-to-intermediate matrix");
        Ok(lab(jd))
    });
    c.prop("cirs_matrix_any", 8_000, || (-0.4f64..0.4, -0.4f64..0.4, -0.1f64..0.1), |&(x, y, s)| {
        let r = m(&cio::gcrs_to_cirs_matrix(cio_c(x), cio_c(y), Radians::new(s)));
        let d = mdiff(&r, &c2ixys(x, y, s));
        ensure!(d < 1e-13, "celestial-to-intermediate matrix differs by {d:e}");
        Ok("any pole")
    });
    // Both routes to the terrestrial frame (CIO-based and equinox-based) agree.
    c.prop("cio_vs_equinox", 8_000, || (2_433_000.0f64..2_470_000.0, 0.0f64..1.0), |&(jd, f)| {
        let (dp, de, eps) = nut::<Iau2006A>(jd);
        let ut = jd - 64.0 / 86400.0 * f;
        let q = cio::cip_cio(t(jd), Radians::new(dp), Radians::new(de));
        let a = mm(&r3(era::earth_rotation_angle(t(ut)).value()), &m(&cio::gcrs_to_cirs_matrix(q.x, q.y, q.s)));
        let gast = sidereal::gast_iau2006(t(ut), t(jd), Radians::new(dp), Radians::new(eps)).value();
        let b = mm(&r3(gast), &m(&precession::precession_nutation_matrix(t(jd), Radians::new(dp), Radians::new(de))));
        let d = mdiff(&a, &b);
        ensure!(d < 4000.0 * UAS, "CIO and equinox based terrestrial orientation differ by {} uas", d / UAS);
        Ok("epoch")
    });
    c.prop("polar_motion", 8_000, || (gen::jd_wide(), -1.0f64..1.0, -1.0f64..1.0), |&(jd, xp, yp)| {
        ensure!(close(polar_motion::tio_locator_sp(t(jd)).value(), sp00(jd), 1e-18, 1e-12), "s'");
        let as2r = UAS * 1e6;
        let want = pom00(xp * as2r, yp * as2r, sp00(jd));
        let tol = 1e-14;
        let a = m(&polar_motion::polar_motion_matrix_from_eop(Arcseconds::new(xp), Arcseconds::new(yp), t(jd)));
        let d = mdiff(&a, &want);
        ensure!(d < tol, "polar motion matrix differs by {d:e}");
        let b = m(&polar_motion::polar_motion_matrix(Radians::new(xp * as2r), Radians::new(yp * as2r), Radians::new(sp00(jd))));
        ensure!(mdiff(&a, &b) < 1e-15, "two forms disagree");
        Ok("pole")
    });
    c.known_finding(|| {
        // s recovered from the equinox-based chain at a date where the periodic part is large
        let mut worst: f64 = 0.0;
        for i in 0..200 {
            let jd = 2_447_000.0 + 60.0 * i as f64;
            let (dp, de, eps) = nut::<Iau2006A>(jd);
            let q = cio::cip_cio(t(jd), Radians::new(dp), Radians::new(de));
            let a = mm(&r3(era00(jd)), &m(&cio::gcrs_to_cirs_matrix(q.x, q.y, q.s)));
            let g = gmst06(jd, jd) + dp * eps.cos() + eect00(jd);
            worst = worst.max(mdiff(&a, &mm(&r3(g), &npb(jd, dp, de))));
        }
        (worst > 100.0 * UAS).then(|| format!("astro::cio::cio_locator_s omits the periodic terms of s: up to {:.0} uas off (module documentation claims ~1 uas)", worst / UAS))
    });
    c.finish()
}
fn cio_c(x: f64) -> CipCoordinates { CipCoordinates::new(x) }
