//! C01: frame changes are proper rotations and form a group.
use siderust::JulianDate;
use std::collections::HashMap;
use vharness::frames::*;
use vharness::refs::*;
use vharness::*;

fn main() {
    let mut c = Check::new("C01", "epoch 1600-2400 x nutation model x generated EOP values x vectors; every case evaluates all supported frame pairs/triples; non-trivial: celestial pole offsets or EOP non-zero, or epoch away from J2000");
    c.assume("ordered frame pairs are those for which the library provides a rotation (210 pairs over 24 frames)");
    c.prop("proper_rotation_and_inverse", 3000, || (gen::jd_wide(), 0usize..4, eop_gen()), |&(jd, model, eop)| {
        set_eop(eop);
        let ctx = Ctx::with_types();
        let t = JulianDate::new(jd);
        let ps = pairs();
        let mut m: HashMap<(usize, usize), M3> = HashMap::new();
        for p in &ps {
            let r = (p.rot)(t, &ctx, model);
            let o = mdiff(&mm(&r, &mt(&r)), &ID3);
            let name = format!("{}->{}", FRAMES[p.from], FRAMES[p.to]);
            ensure!(o < 1e-12, "{name}: R R^T differs from identity by {o:.3e}");
            ensure!((mdet(&r) - 1.0).abs() < 1e-12, "{name}: determinant {}", mdet(&r));
            m.insert((p.from, p.to), r);
        }
        count_oracle(ps.len() as u64);
        for (&(a, b), r) in &m {
            if let Some(q) = m.get(&(b, a)) {
                let d = mdiff(&mm(q, r), &ID3);
                ensure!(d < 1e-12, "{}->{}->{}: round trip differs from identity by {d:.3e}", FRAMES[a], FRAMES[b], FRAMES[a]);
            } else {
                return Err(format!("{}->{} has no inverse", FRAMES[a], FRAMES[b]));
            }
        }
        Ok(if eop[3] != 0.0 { "pole offsets" } else if jd == J2000 { "-J2000, no offsets" } else { "no offsets" })
    });
    c.prop("composition", 3000, || (gen::jd_wide(), 0usize..4, eop_gen()), |&(jd, model, eop)| {
        set_eop(eop);
        let ctx = Ctx::with_types();
        let t = JulianDate::new(jd);
        let m: HashMap<(usize, usize), M3> = pairs().iter().map(|p| ((p.from, p.to), (p.rot)(t, &ctx, model))).collect();
        let mut n = 0;
        let mut keys: Vec<_> = m.keys().copied().collect();
        keys.sort();
        for &(a, b) in &keys {
            for k in 0..FRAMES.len() {
                if let (Some(ak), Some(kb)) = (m.get(&(a, k)), m.get(&(k, b))) {
                    n += 1;
                    let d = mdiff(&mm(kb, ak), &m[&(a, b)]);
                    ensure!(d < 1e-12, "{}->{} directly differs from via {} by {d:.3e} rad", FRAMES[a], FRAMES[b], FRAMES[k]);
                }
            }
        }
        count_oracle(n);
        Ok(if eop[3] != 0.0 { "pole offsets" } else if jd == J2000 { "-J2000, no offsets" } else { "no offsets" })
    });
    // Every kind of quantity is converted by the same rotation; lengths and angles are kept.
    c.prop("quantities_agree", 4000, || (gen::jd_wide(), eop_gen(), gen::unit_vec(), gen::unit_vec(), gen::logu(-3.0, 6.0)), |(jd, eop, u, w, k)| {
        set_eop(*eop);
        let ctx = Ctx::with_types();
        let t = JulianDate::new(*jd);
        let v = scale(*u, *k);
        // the default model is the IAU 2006A one; all pairs are visited over the cases
        let ps = pairs();
        let step = 7;
        let off = (jd.to_bits() >> 3) as usize % step;
        for p in ps.iter().skip(off).step_by(step) {
            let r = (p.rot)(t, &ctx, 3);
            let want = mv(&r, v);
            let name = format!("{}->{}", FRAMES[p.from], FRAMES[p.to]);
            let out = (p.ext)(t, &ctx, v);
            for (i, kind) in ["direction", "vector", "position", "spherical direction"].iter().enumerate() {
                let e = dist(out[i], want) / k;
                // spherical forms go through asin, which keeps only ~2e-8 rad next to a pole
                let tol = if i == 3 { 5e-8 } else { 1e-13 };
                ensure!(e < tol, "{name}: {kind} conversion differs from the frame rotation by {e:.3e}");
            }
            let o2 = (p.ext)(t, &ctx, scale(*w, *k));
            for i in 0..4 {
                let tol = if i == 3 { 5e-8 } else { 1e-12 };
                ensure!((norm(out[i]) / k - 1.0).abs() < tol, "{name}: length not preserved");
                ensure!((angle(out[i], o2[i]) - angle(*u, *w)).abs() < 2e-7, "{name}: angle not preserved: {} vs {}", angle(out[i], o2[i]), angle(*u, *w));
            }
            count_oracle(8);
        }
        Ok("vectors")
    });
    // Every way of asking for a conversion gives the same rotation.
    c.prop("entry_points", 1500, || (gen::jd_wide(), eop_gen(), gen::unit_vec(), gen::logu(-3.0, 6.0)), |(jd, eop, u, k)| {
        use siderust::astro::nutation::*;
        use siderust::coordinates::{cartesian::*, centers::Barycentric, frames::*, spherical};
        use siderust::coordinates::transform::context::{AstroContext, DynAstroContext};
        use siderust::coordinates::transform::ext::*;
        use siderust::coordinates::transform::providers::{frame_rotation, frame_rotation_as};
        use siderust::qtty::*;
        set_eop(*eop);
        let ctx = Ctx::with_types();
        let plain: AstroContext = AstroContext::new();
        let t = JulianDate::new(*jd);
        let v = scale(*u, *k);
        macro_rules! one {
            ($a:ty, $b:ty) => {{
                let d = Direction::<$a>::new(u[0], u[1], u[2]);
                let p = Position::<Barycentric, $a, AstronomicalUnit>::new(v[0], v[1], v[2]);
                let w = Vector::<$a, Kilometer>::new(v[0], v[1], v[2]);
                let s = spherical::Direction::<$a>::from_cartesian(&d);
                let xd = |q: Direction<$b>| [q.x(), q.y(), q.z()];
                let xp = |q: Position<Barycentric, $b, AstronomicalUnit>| scale([q.x().value(), q.y().value(), q.z().value()], 1.0 / k);
                let xw = |q: Vector<$b, Kilometer>| scale([q.x().value(), q.y().value(), q.z().value()], 1.0 / k);
                let name = concat!(stringify!($a), "->", stringify!($b));
                let def = mv(frame_rotation::<$a, $b>(t, &plain).as_matrix(), *u);
                let cus = mv(frame_rotation_as::<$a, $b, Iau2006A, _, _>(t, &ctx).as_matrix(), *u);
                let b00 = mv(frame_rotation_as::<$a, $b, Iau2000B, _, _>(t, &ctx).as_matrix(), *u);
                let m = ctx.with_model::<Iau2000B>();
                for (what, got, want, tol) in [
                    ("direction.to_frame", xd(DirectionAstroExt::to_frame(&d, &t)), def, 1e-13),
                    ("vector.to_frame", xw(VectorAstroExt::to_frame(&w, &t)), def, 1e-13),
                    ("position.to_frame", xp(PositionAstroExt::to_frame(&p, &t)), def, 1e-13),
                    ("position.to (same center)", xp(PositionAstroExt::to(&p, &t)), def, 1e-13),
                    ("spherical.to_frame", xd(SphericalDirectionAstroExt::to_frame::<$b>(&s, &t).to_cartesian()), def, 5e-8),
                    ("direction.using.to_frame", xd(d.using(&ctx).to_frame(&t)), cus, 1e-13),
                    ("position.using.to_frame", xp(p.using(&ctx).to_frame(&t)), cus, 1e-13),
                    ("position.using.to", xp(p.using(&ctx).to(&t)), cus, 1e-13),
                    ("position.to_with", xp(p.to_with(&t, &ctx)), cus, 1e-13),
                    ("direction.to_frame_with, IAU 2000B", xd(d.to_frame_with(&t, &m)), b00, 1e-13),
                    ("vector.to_frame_with, IAU 2000B", xw(w.to_frame_with(&t, &m)), b00, 1e-13),
                    ("position.to_frame_with, IAU 2000B", xp(p.to_frame_with(&t, &m)), b00, 1e-13),
                    ("spherical.to_frame_with, IAU 2000B", xd(s.to_frame_with::<$b, _>(&t, &m).to_cartesian()), b00, 5e-8),
                    ("direction.using, IAU 2000B", xd(d.using(&m).to_frame(&t)), b00, 1e-13),
                ] {
                    let e = dist(got, want);
                    ensure!(e < tol, "{name}: {what} differs from the frame rotation by {e:.3e}");
                    count_oracle(1);
                }
            }};
        }
        one!(ICRS, EquatorialTrueOfDate);
        one!(ITRF, ICRS);
        one!(EclipticMeanJ2000, GCRS);
        // contexts hand out the provider's values
        let want = ctx.eop_at(t);
        let dynamic = DynAstroContext::<TestEop>::with_ephemeris_and_eop(Box::new(siderust::ephemeris::Vsop87Ephemeris), TestEop);
        for (what, e) in [("AstroContext::eop_at_tt", ctx.eop_at_tt(t)), ("ModelContext", ctx.with_model::<Iau2006>().astro_context().eop_at(t)), ("DynAstroContext::eop_at", dynamic.eop_at(t)), ("DynAstroContext::eop_at_tt", dynamic.eop_at_tt(t)), ("eop()", siderust::astro::eop::EopProvider::eop_at(dynamic.eop(), t))] {
            ensure!(format!("{e:?}") == format!("{want:?}") && e.xp.value() == eop[1], "{what} gives {e:?}, the provider {want:?}");
        }
        Ok(if eop[3] != 0.0 { "pole offsets" } else { "no offsets" })
    });
    // The epoch-free conversions agree with the epoch-aware ones.
    c.prop("static_conversions", 8000, || (gen::jd_wide(), gen::unit_vec(), gen::logu(-3.0, 6.0)), |(jd, u, k)| {
        use siderust::coordinates::{cartesian, centers, frames::*};
        use siderust::coordinates::transform::TransformFrame;
        use siderust::coordinates::transform::providers::frame_rotation;
        use siderust::coordinates::transform::context::AstroContext;
        use siderust::qtty::*;
        let t = JulianDate::new(*jd);
        let v = scale(*u, *k);
        macro_rules! one {
            ($a:ty, $b:ty) => {{
                let want = mv(frame_rotation::<$a, $b>(t, &AstroContext::new()).as_matrix(), v);
                let p = cartesian::Position::<centers::Barycentric, $a, AstronomicalUnit>::new(v[0], v[1], v[2]);
                let q: cartesian::Position<centers::Barycentric, $b, AstronomicalUnit> = p.to_frame();
                let e = dist([q.x().value(), q.y().value(), q.z().value()], want) / k;
                ensure!(e < 1e-13, "static position conversion {}->{} differs by {e:.3e}", stringify!($a), stringify!($b));
                let d = cartesian::Direction::<$a>::new(u[0], u[1], u[2]);
                let q: cartesian::Direction<$b> = TransformFrame::to_frame(&d);
                let e = dist([q.x(), q.y(), q.z()], scale(want, 1.0 / k));
                ensure!(e < 1e-13, "static direction conversion {}->{} differs by {e:.3e}", stringify!($a), stringify!($b));
                let w = cartesian::Velocity::<$a, Per<AstronomicalUnit, Day>>::from_array([v[0], v[1], v[2]].map(Quantity::new));
                let q: cartesian::Velocity<$b, Per<AstronomicalUnit, Day>> = TransformFrame::to_frame(&w);
                let e = dist([q.x().value(), q.y().value(), q.z().value()], want) / k;
                ensure!(e < 1e-13, "static velocity conversion {}->{} differs by {e:.3e}", stringify!($a), stringify!($b));
            }};
        }
        one!(ICRS, EquatorialMeanJ2000);
        one!(EquatorialMeanJ2000, ICRS);
        one!(ICRS, EclipticMeanJ2000);
        one!(EclipticMeanJ2000, ICRS);
        one!(EquatorialMeanJ2000, EclipticMeanJ2000);
        one!(EclipticMeanJ2000, EquatorialMeanJ2000);
        Ok("vector")
    });
    c.finish()
}
