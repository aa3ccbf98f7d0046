//! C39: mission geometry against independent vector geometry.
use affn::cartesian::{Direction as Dir, Position, Velocity};
use proptest::prelude::*;
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::mission::context::MissionContext;
use siderust::mission::geometry::*;
use siderust::mission::site::Location;
use qtty::time::Second;
use siderust::qtty::{Meter, Meters, Per, Quantity, Radians};
use std::f64::consts::{FRAC_PI_2, PI, TAU};
use vharness::gen::*;
use vharness::*;

type P = Position<Geocentric, GCRS, Meter>;
type V = Velocity<GCRS, Per<Meter, Second>>;
type A = [f64; 3];
fn p(v: A) -> P { P::new(v[0], v[1], v[2]) }
fn vel(v: A) -> V { V::new(v[0], v[1], v[2]) }
fn m(x: f64) -> Meters { Meters::new(x) }
fn rad(x: f64) -> Radians { Radians::new(x) }
fn dot(a: A, b: A) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: A, b: A) -> A { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn norm(a: A) -> f64 { dot(a, a).sqrt() }
fn sub(a: A, b: A) -> A { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn add(a: A, b: A) -> A { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn mul(a: A, k: f64) -> A { a.map(|x| x * k) }
/// Two unit vectors perpendicular to `u`.
fn perp(u: A) -> (A, A) { let k = if u[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }; let e = cross(u, k); let e = mul(e, 1.0 / norm(e)); (e, cross(u, e)) }
fn dang(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(TAU); d.min(TAU - d) }
/// Fraction of a disk of angular radius `a` hidden by a disk of radius `b` at separation `s`, by
/// integration over rings of the sphere.
fn hidden(a: f64, b: f64, s: f64) -> f64 {
    let n = 4000;
    let (mut h, mut t) = (0.0, 0.0);
    for k in 0..n {
        let r = a * (k as f64 + 0.5) / n as f64;
        let w = r.sin();
        // Points at distance r from the target and position angle phi are hidden when their distance to the occulter is below b.
        let den = 2.0 * (r.sin() * s.sin());
        // hav(d) = hav(r - s) + sin r sin s hav(phi), free of cancellation for small disks.
        let hb = (b / 2.0).sin().powi(2) - ((r - s) / 2.0).sin().powi(2);
        let f = if den == 0.0 { if hb > 0.0 { 1.0 } else { 0.0 } } else { let q = 2.0 * hb / den; if q >= 1.0 { 1.0 } else if q <= 0.0 { 0.0 } else { 2.0 * q.sqrt().asin() / PI } };
        h += w * f;
        t += w;
    }
    h / t
}

fn main() {
    let mut c = Check::new("C39", "a body, target or direction away from the trivial alignment");

    c.prop("occultation and eclipse follow the apparent disks", 36000, || (
        [-1e9f64..1e9, -1e9f64..1e9, -1e9f64..1e9], unit_vec(), 0.0f64..TAU, logu(6.0, 11.3), logu(-6.0, -0.7),
        prop_oneof![3 => logu(-6.0, -0.3), 2 => (0.1f64..0.9999).prop_map(|x| x * FRAC_PI_2)], 0u8..8, 0.0f64..1.0, prop_oneof![4 => 0.001f64..0.9, 1 => 1.2f64..50.0]),
    |(obs, u, pa, dt, a, b, class, x, depth)| {
        // Separations in each of the regimes, and around their boundaries.
        let (a, b, dt) = (*a, *b, *dt);
        let s = match class {
            0 => (a + b) * (1.0 + x).min(PI / (a + b)),
            1 => a + b - 2.0 * a.min(b) * x,
            2 => (b - a).max(0.0) * x,
            3 => (a - b).max(0.0) * x,
            4 => (a + b) * (1.0 + 10f64.powf(-1.0 - 6.0 * x)),
            5 => (a + b) * (1.0 - 10f64.powf(-1.0 - 6.0 * x)),
            6 => 0.0,
            _ => PI * x,
        };
        if s > PI { return Ok("-no such separation") }
        let far = *depth > 1.0;
        let d_o = dt * depth;
        // The spheres do not touch each other along the line of sight.
        let (rt, ro) = (dt * a.sin(), d_o * b.sin());
        if !far && d_o * b.cos() > dt * 0.98 || !far && dt - rt < d_o + ro && s < 2.0 * (a + b) { return Ok("-spheres meet") }
        if far && d_o * b.cos() < dt * 1.02 { return Ok("-spheres meet") }
        let (e1, e2) = perp(*u);
        let side = add(mul(e1, pa.cos()), mul(e2, pa.sin()));
        let w = add(mul(*u, s.cos()), mul(side, s.sin()));
        let (t, o) = (add(*obs, mul(*u, dt)), add(*obs, mul(w, d_o)));
        // What the rounded positions are.
        let (vt, vo) = (sub(t, *obs), sub(o, *obs));
        let sep = norm(cross(vt, vo)).atan2(dot(vt, vo));
        let (aa, bb) = ((rt / norm(vt)).asin(), (ro / norm(vo)).asin());
        let args = (p(*obs), p(t), m(rt), p(o), m(ro));
        let f = np("occultation_fraction", || occultation_fraction(&args.0, &args.1, args.2, &args.3, args.4))?;
        let st = np("eclipse_state", || eclipse_state(&args.0, &args.1, args.2, &args.3, args.4))?;
        let ec = np("solar_eclipsing", || solar_eclipsing(&args.0, &args.1, args.2, &args.3, args.4))?;
        let what = || format!("(target radius {aa} rad, occulter radius {bb} rad, separation {sep} rad, occulter at {:.4} of the target's distance)", d_o / dt);
        ensure!((0.0..=1.0).contains(&f), "fraction {f} {}", what());
        ensure!(ec == (st != EclipseState::Sunlight), "solar_eclipsing {ec} but state {st:?}");
        ensure!((f == 0.0) == (st == EclipseState::Sunlight) && (f < 1.0 - 1e-9 || st == EclipseState::Umbra) && (f > 1.0 - 1e-6 || st != EclipseState::Umbra), "fraction {f} but state {st:?}");
        if far { ensure!(f == 0.0, "an occulter behind the target hides {f} of it {}", what()); return Ok(if sep < aa + bb { "occulter behind the target" } else { "-apart, behind" }) }
        let margin = 1e-9 * (aa + bb) + 4e-16 * (dt + d_o + 3e9) / dt.min(d_o);
        let (lab, want) = if sep > aa + bb + margin { ("apart", 0.0) } else if sep < bb - aa - margin { ("total", 1.0) } else if sep < aa - bb - margin { ("annular", (1.0 - bb.cos()) / (1.0 - aa.cos())) } else if sep > (aa - bb).abs() + margin && sep < aa + bb - margin { ("partial", hidden(aa, bb, sep)) } else { return Ok("-contact") };
        match lab {
            "apart" => ensure!(f == 0.0 && st == EclipseState::Sunlight, "{f} ({st:?}) of a clear target is hidden {}", what()),
            "total" => ensure!(f == 1.0 && st == EclipseState::Umbra, "only {f} ({st:?}) of a covered target is hidden {}", what()),
            // The code works in the plane: areas hold to the curvature of the sky over the disks.
            _ => { let ill = 3e-15 * (aa.max(bb) / aa.min(bb)).powi(3); if ill > 0.02 { return Ok("-disks too unequal for the plane formula") } let tol = 2e-3 + aa.min(bb) * 0.7 + margin / aa * 2.0 + ill; ensure!((f - want).abs() <= tol, "{f} instead of {want} of the target is hidden {}", what()); if want > 1e-4 + 10.0 * ill { ensure!(st != EclipseState::Sunlight, "no eclipse although {want} of the light source is hidden {}", what()) } if want > 1e-4 + 10.0 * ill && want < 1.0 - 1e-2 - tol { ensure!(st == EclipseState::Penumbra, "{st:?} although {want} of the light source is hidden {}", what()) } }
        }
        Ok(lab)
    });

    c.prop("eclipse as a path into a planet's shadow", 18000, || (unit_vec(), 0.0f64..TAU, logu(0.001, 2.0), -1.0f64..1.0, 0.0f64..1.6), |(sun, pa, alt, along, off)| {
        // Conical umbra and penumbra of the Earth: classify by the distance from the shadow axis.
        let (rs, re, au) = (6.96e8, 6.378e6, 1.496e11);
        let (e1, e2) = perp(*sun);
        let x = -along.abs().powi(3).max(1e-3) * re * (1.0 + alt.min(30.0));
        let (rho, t) = (re * off, add(mul(e1, pa.cos()), mul(e2, pa.sin())));
        let sat = add(mul(*sun, x), mul(t, rho));
        if norm(sat) < re * 1.0001 { return Ok("-inside the planet") }
        let f1 = ((rs - re) / au).asin(); let f2 = ((rs + re) / au).asin();
        // Axis points: umbra vertex behind the planet, penumbra vertex in front.
        let (umbra, penumbra) = ((re / f1.sin() + x) * f1.tan(), (re / f2.sin() - x) * f2.tan());
        let st = np("eclipse_state", || eclipse_state(&p(sat), &p(mul(*sun, au)), m(rs), &p([0.0; 3]), m(re)))?;
        // Tangency needs the satellite beyond the points of contact.
        if x > -re * f2.sin() * 1.01 && x > -1e5 { return Ok("-beside the planet") }
        let want = if umbra > 0.0 && rho < umbra * (1.0 - 1e-6) - 1.0 { EclipseState::Umbra } else if rho > penumbra * (1.0 + 1e-6) + 1.0 { EclipseState::Sunlight } else if rho > umbra.abs() * (1.0 + 1e-6) + 1.0 && rho < penumbra * (1.0 - 1e-6) - 20.0 { EclipseState::Penumbra } else { return Ok("-edge") };
        ensure!(st == want, "{st:?} instead of {want:?} at {rho} m from the axis, {} m behind the planet (umbra {umbra} m, penumbra {penumbra} m)", -x);
        Ok(match want { EclipseState::Umbra => "umbra", EclipseState::Penumbra => "penumbra", _ => "sunlight" })
    });

    c.prop("a line of sight is blocked when it meets the body", 120000, || (unit_vec(), 0.0f64..TAU, prop_oneof![5 => 0.0f64..3.0, 2 => (-8.0f64..-1.0, any::<bool>()).prop_map(|(e, s)| 1.0 + if s { 10f64.powf(e) } else { -10f64.powf(e) })], (-5.0f64..5.0, -5.0f64..5.0), logu(3.0, 9.0), 0u8..10), |(u, pa, off, (a, b), r, kind)| {
        // The line passes at off*r from the centre, from parameter a*r to b*r along u.
        let (e1, e2) = perp(*u);
        let side = mul(add(mul(e1, pa.cos()), mul(e2, pa.sin())), off * r);
        let b = if *kind == 0 { *a } else { *b };
        let (o, t) = (add(side, mul(*u, a * r)), add(side, mul(*u, b * r)));
        let got = np("line_of_sight_obstructed", || line_of_sight_obstructed(&p(o), &p(t), m(*r)))?;
        let back = np("line_of_sight_obstructed", || line_of_sight_obstructed(&p(t), &p(o), m(*r)))?;
        // Closest point of the segment.
        let d = sub(t, o); let dd = dot(d, d);
        let k = if dd > 0.0 { (-dot(o, d) / dd).clamp(0.0, 1.0) } else { 0.0 };
        let near = norm(add(o, mul(d, k)));
        if (near - r).abs() < 1e-7 * r || (b - a).abs() < 1e-6 && *kind != 0 { return Ok("-grazing") }
        // A short segment near the limb: the quadratic loses what the geometry keeps.
        if (near / r - 1.0).abs() < 1e-12 / (b - a).abs().max(1e-9) && *kind != 0 { return Ok("-grazing") }
        ensure!(got == (near < *r), "obstructed {got} although the segment passes at {} of the radius", near / r);
        ensure!(got == back, "obstruction depends on the direction of the segment");
        Ok(if near >= *r { if *off < 1.0 { "segment stops short" } else { "passes beside" } } else if norm(o) < *r && norm(t) < *r { "inside" } else { "blocked" })
    });

    c.prop("azimuth, elevation, range and rate", 120000, || (lat_deg(), lon_deg(), [-1e9f64..1e9, -1e9f64..1e9, -1e9f64..1e9], prop_oneof![6 => unit_vec(), 2 => Just([0.0, 0.0, 1.0]), 1 => Just([0.0, 0.0, -1.0])], logu(-1.0, 11.0), (unit_vec(), logu(0.0, 5.0)), (unit_vec(), logu(0.0, 5.0))), |(lat, lon, obs, enu, d, (v1, s1), (v2, s2))| {
        let (la, lo) = (lat.to_radians(), lon.to_radians());
        let up = [la.cos() * lo.cos(), la.cos() * lo.sin(), la.sin()];
        let east = [-lo.sin(), lo.cos(), 0.0];
        let north = cross(up, east);
        let obs = if *d > 1e7 { *obs } else { mul(up, 6.4e6) };
        let t = add(obs, add(add(mul(east, enu[0] * d), mul(north, enu[1] * d)), mul(up, enu[2] * d)));
        let (v1, v2) = (mul(*v1, *s1), mul(*v2, *s2));
        let los = sub(t, obs);
        let rho = norm(los);
        if rho == 0.0 { return Ok("-coincident") }
        let g = np("azimuth_elevation_range", || azimuth_elevation_range(&p(obs), &vel(v1), &p(t), &vel(v2), LocalFrame::new(rad(la), rad(lo))))?;
        ensure!(close(g.range.value(), rho, 0.0, 4e-16 * 4.0), "range {} instead of {rho}", g.range);
        ensure!(close(g.light_time.value(), rho / 299_792_458.0, 0.0, 1e-14), "light time {}", g.light_time);
        let rr = dot(sub(v2, v1), los) / rho;
        ensure!(close(g.range_rate.value(), rr, 1e-12 * (s1 + s2), 0.0), "range rate {} instead of {rr}", g.range_rate);
        // Horizontal coordinates give the direction back. Known finding: the degrees of the
        // pointing carry the number of radians; either reading is accepted.
        let (e, n, z) = (dot(los, east) / rho, dot(los, north) / rho, dot(los, up) / rho);
        let err = |alt: f64, az: f64| norm(sub([alt.cos() * az.sin(), alt.cos() * az.cos(), alt.sin()], [e, n, z]));
        let (x, y) = (g.pointing.alt().value(), g.pointing.az().value());
        let tol = 4e-8_f64.min(2e-15 / (1.0 - z * z).max(0.0).sqrt().max(1e-9)) + 1e-13;
        let degrees = err(x.to_radians(), y.to_radians()) <= tol && (0.0..=360.0).contains(&y) && x.abs() <= 90.0;
        let radians = err(x, y) <= tol && (0.0..=TAU).contains(&y) && x.abs() <= FRAC_PI_2 + 1e-12;
        ensure!(degrees || radians, "pointing alt {x} az {y} instead of {} {}", z.clamp(-1.0, 1.0).asin(), e.atan2(n).rem_euclid(TAU));
        ensure!(g.status == LineOfSightStatus::Clear, "status {:?}", g.status);
        Ok(if e.hypot(n) < 1e-6 { "zenith or nadir" } else if z < 0.0 { "below the horizon" } else { "above the horizon" })
    });

    c.known_finding(|| {
        let r = azimuth_elevation_range(&p([7e6, 0.0, 0.0]), &vel([0.0; 3]), &p([7e6, 1e5, 0.0]), &vel([0.0; 3]), LocalFrame::new(rad(0.0), rad(0.0)));
        (r.pointing.az().value() < 2.0).then(|| format!("azimuth_elevation_range stores radians in the degrees of its pointing: a target due east has azimuth {}", r.pointing.az()))
    });

    c.prop("beta angle and local times", 120000, || (unit_vec(), 0.0f64..TAU, 0.02f64..3.12, logu(6.5, 9.0), logu(1.0, 4.5), unit_vec(), any_deg(), any_deg()), |(r, pa, fpa, rm, vm, sun, l1, l2)| {
        let (e1, e2) = perp(*r);
        let w = add(mul(e1, pa.cos()), mul(e2, pa.sin()));
        let v = add(mul(*r, fpa.cos()), mul(w, fpa.sin()));
        let (rr, vv) = (mul(*r, *rm), mul(v, *vm));
        let b = np("beta_angle", || beta_angle(&p(rr), &vel(vv), &Dir::<GCRS>::new(sun[0], sun[1], sun[2])))?.value();
        let h = cross(rr, vv);
        let hs = [h[0] / norm(h), h[1] / norm(h), h[2] / norm(h)];
        // Angle between the Sun and its projection on the orbit plane.
        let want = dot(hs, *sun).atan2(norm(cross(hs, *sun)));
        ensure!((b - want).abs() <= 3e-8_f64.min(1e-13 / want.cos().abs().max(1e-9)) + 1e-15, "beta {b} instead of {want}");
        // Reversing the motion mirrors the plane's normal.
        let m1 = np("beta_angle", || beta_angle(&p(rr), &vel(mul(vv, -1.0)), &Dir::<GCRS>::new(sun[0], sun[1], sun[2])))?.value();
        ensure!((m1 + b).abs() < 1e-9, "beta {b} and {m1} for opposite motions");
        let (x, y) = (l1.to_radians(), l2.to_radians());
        let hours = |x: f64, y: f64| (12.0 + (x - y).to_degrees() / 15.0).rem_euclid(24.0) * 3600.0;
        for (what, got) in [("local solar time", np("local_solar_time", || local_solar_time(rad(x), rad(y)))?.value()), ("LTAN", np("ltan", || ltan(rad(x), rad(y)))?.value())] {
            ensure!((0.0..86400.0).contains(&got), "{what} {got} s");
            let d = (got - hours(x, y)).rem_euclid(86400.0);
            ensure!(d.min(86400.0 - d) < 1e-8, "{what} {got} instead of {}", hours(x, y));
        }
        Ok(if want.abs() < 1e-6 { "in the plane" } else if want.abs() > 1.5 { "along the normal" } else if want > 0.0 { "positive" } else { "negative" })
    });

    c.prop("terrain masks interpolate the profile", 72000, || (proptest::collection::vec((any_deg(), -30.0f64..60.0), 0..10), any_deg(), 0usize..12, -40.0f64..70.0), |(raw, az, pick, el)| {
        // Distinct azimuths on the circle.
        let mut s: Vec<(f64, f64)> = Vec::new();
        for (a, e) in raw { if s.iter().all(|x| dang(x.0.to_radians(), a.to_radians()) > 1e-3) { s.push((*a, *e)) } }
        let az = if *pick < s.len() { s[*pick].0 + if pick % 2 == 0 { 0.0 } else { 720.0 } } else { *az };
        let mask = np("TerrainMask::new", || TerrainMask::new(s.iter().map(|x| (rad(x.0.to_radians()), rad(x.1.to_radians()))).collect()))?;
        let got = np("elevation_at", || mask.elevation_at(rad(az.to_radians())))?.value().to_degrees();
        // Reference: the neighbours on either side going round.
        let want = if s.is_empty() { 0.0 } else {
            let ahead = |f: &dyn Fn(f64) -> f64| s.iter().map(|x| (f(x.0), x.1)).min_by(|a, b| a.0.total_cmp(&b.0)).unwrap();
            // Angles a rounding error short of a turn count as zero.
            let wrap = |d: f64| { let d = d.rem_euclid(360.0); if d > 360.0 - 1e-9 { 0.0 } else { d } };
            let (fwd, e1) = ahead(&|a| wrap(a - az));
            let (bwd, e0) = ahead(&|a| wrap(az - a));
            let span = fwd + bwd;
            if span == 0.0 { e1 } else { (e0 * fwd + e1 * bwd) / span }
        };
        ensure!((got - want).abs() < 5e-6, "mask elevation {got} instead of {want} at azimuth {az}");
        let turn = np("elevation_at", || mask.elevation_at(rad((az + 360.0).to_radians())))?.value().to_degrees();
        ensure!((turn - got).abs() < 5e-6, "{got} and {turn} a full turn apart");
        if (el - want).abs() > 1e-6 { let g = np("clears", || mask.clears(rad(az.to_radians()), rad(el.to_radians())))?; ensure!(g == (*el > want), "clears {g} at {el} over a mask of {want}") }
        let site = Location::new("x", LocalFrame::new(rad(0.1), rad(0.2))).with_mask(mask.clone());
        ensure!(site.mask == Some(mask) && site.id == "x" && site.frame == LocalFrame::new(rad(0.1), rad(0.2)), "location does not keep what it was given");
        Ok(match s.len() { 0 => "-no profile", 1 => "one sample", _ => if *pick < s.len() { "at a sample" } else { "between samples" } })
    });

    c.prop("fields of view", 48000, || (0.0f64..1.5, 0.0f64..1.5, -2.0f64..2.0, 0u8..4), |(a, b, off, edge)| {
        let off = match edge { 0 => *a, 1 => -a / 2.0, _ => *off };
        let cone = np("contains", || Fov::Conical { half_angle: rad(*a) }.contains_boresight(rad(off)))?;
        ensure!(cone == (off.abs() <= *a), "cone of {a}: {off} -> {cone}");
        let rect = np("contains", || Fov::Rectangular { across_track: rad(*a), along_track: rad(*b) }.contains_boresight(rad(off)))?;
        ensure!(rect == (off.abs() <= a.min(*b) / 2.0), "rectangle {a} x {b}: {off} -> {rect}");
        Ok(if cone != rect { "cone only" } else if cone { "inside" } else { "outside" })
    });

    c.prop("mission context is a map by alias", 18000, || proptest::collection::vec((0u8..6, 0u8..4, 0u8..200), 0..30), |ops| {
        let mut ctx = MissionContext::new();
        let mut l: std::collections::BTreeMap<String, String> = Default::default();
        let mut i = l.clone();
        let loc = |n: u8| Location::new(format!("L{n}"), LocalFrame::new(Quantity::new(n as f64), Quantity::new(0.0)));
        let ins = |n: u8| Instrument::new(format!("I{n}"), Fov::Conical { half_angle: Quantity::new(n as f64) });
        for (op, key, n) in ops {
            let k = ["a", "A", "b", ""][*key as usize].to_string();
            match op {
                0 => { ctx.add_location(k.clone(), loc(*n)); l.insert(k, format!("L{n}")); }
                1 => { ctx.add_instrument(k.clone(), ins(*n)); i.insert(k, format!("I{n}")); }
                2 => { ctx = ctx.with_location(k.clone(), loc(*n)); l.insert(k, format!("L{n}")); }
                3 => { ctx = ctx.with_instrument(k.clone(), ins(*n)); i.insert(k, format!("I{n}")); }
                4 => { let g = ctx.remove_location(&k).map(|x| x.id); let w = l.remove(&k); ensure!(g == w, "removing {k:?} gives {g:?} instead of {w:?}"); }
                _ => { let g = ctx.remove_instrument(&k).map(|x| x.id); let w = i.remove(&k); ensure!(g == w, "removing {k:?} gives {g:?} instead of {w:?}"); }
            }
            for k in ["a", "A", "b", ""] {
                ensure!(ctx.location(k).map(|x| &x.id) == l.get(k) && ctx.instrument(k).map(|x| &x.id) == i.get(k), "lookup of {k:?} differs from the history");
            }
            let mut all: Vec<_> = ctx.locations().map(|(a, b)| (a.clone(), b.id.clone())).collect(); all.sort();
            ensure!(all == l.clone().into_iter().collect::<Vec<_>>(), "locations {all:?}");
            let mut all: Vec<_> = ctx.instruments().map(|(a, b)| (a.clone(), b.id.clone())).collect(); all.sort();
            ensure!(all == i.clone().into_iter().collect::<Vec<_>>(), "instruments {all:?}");
        }
        Ok(if ops.len() < 5 { "-few operations" } else { "history" })
    });
    c.finish()
}
