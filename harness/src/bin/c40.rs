//! C40: catalogue searches return exactly the matching entries.
use proptest::prelude::*;
use siderust::bodies::catalog as stars;
use siderust::catalogs::observatories as obs;
use siderust::catalogs::*;
use siderust::qtty::{KmPerSeconds, Meter, MilliArcseconds, Radians};
use vharness::refs::*;
use vharness::*;

const D: f64 = std::f64::consts::PI / 180.0;
fn unit(ra: f64, dec: f64) -> V3 { [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()] }
/// Angle between two directions, from the vectors.
fn angle(a: V3, b: V3) -> f64 { norm(cross(a, b)).atan2(dot(a, b)) }

fn opt(s: impl Strategy<Value = f64> + 'static) -> BoxedStrategy<Option<f64>> { prop_oneof![3 => s.prop_map(Some), 1 => Just(None)].boxed() }
fn place() -> impl Strategy<Value = (f64, f64)> {
    (prop_oneof![3 => 0.0f64..360.0, 1 => -3.0f64..3.0, 1 => 357.0f64..360.0], prop_oneof![2 => -90.0f64..90.0, 1 => 85.0f64..90.0, 1 => -90.0f64..-85.0, 1 => -1.0f64..1.0, 1 => prop_oneof![Just(90.0), Just(-90.0), Just(0.0)]]).prop_map(|(a, d)| (a * D, d * D))
}
#[derive(Debug, Clone)]
struct Row { id: u64, pos: (f64, f64), epoch: f64, pm: (Option<f64>, Option<f64>), plx: Option<f64>, rv: Option<f64>, g: Option<f64>, bp: Option<f64>, rp: Option<f64>, ok: bool }
fn row() -> impl Strategy<Value = Row> {
    ((any::<u64>(), place(), prop_oneof![Just(2016.0), Just(2000.0), 1990.0f64..2020.0]), (opt(-12_000.0f64..12_000.0), opt(-12_000.0f64..12_000.0)), (opt(-1.0f64..800.0), opt(-500.0f64..500.0)), (opt(prop_oneof![3.0f64..21.0, (6i32..42).prop_map(|x| x as f64 / 2.0)]), opt(3.0f64..21.0), opt(3.0f64..21.0)), any::<bool>()).prop_map(|((id, pos, epoch), pm, (plx, rv), (g, bp, rp), ok)| Row { id, pos, epoch, pm, plx, rv, g, bp, rp, ok })
}
fn rec(r: &Row) -> CatalogRecord { CatalogRecord { source_id: r.id, ra: Radians::new(r.pos.0), dec: Radians::new(r.pos.1), epoch_jyr: r.epoch, pm_ra_cosdec: r.pm.0, pm_dec: r.pm.1, parallax: r.plx.map(MilliArcseconds::new), radial_velocity: r.rv.map(KmPerSeconds::new), g_mag: r.g, bp_mag: r.bp, rp_mag: r.rp, quality_ok: r.ok } }
/// Place after the proper motion, and whether the linear model and the path on the sphere stay close.
fn moved(r: &Row, t: f64) -> V3 {
    let (Some(a), Some(d)) = r.pm else { return unit(r.pos.0, r.pos.1) }; let mas = D / 3.6e6; let dt = t - r.epoch;
    if r.pos.1.cos() < 1e-12 { return unit(r.pos.0, r.pos.1 + d * mas * dt) }
    unit(r.pos.0 + a * mas * dt / r.pos.1.cos(), r.pos.1 + d * mas * dt)
}
#[derive(Debug, Clone, Copy)]
struct Filt { max: Option<f64>, q: Option<bool> }
fn filt() -> impl Strategy<Value = Filt> { (opt(prop_oneof![3.0f64..21.0, (6i32..42).prop_map(|x| x as f64 / 2.0)]), prop_oneof![Just(None), any::<bool>().prop_map(Some)], any::<bool>()).prop_map(|(max, q, free)| if free { Filt { max: None, q: None } } else { Filt { max, q } }) }
fn allowed(r: &Row, f: &Filt) -> bool { f.max.map_or(true, |m| r.g.map_or(false, |g| g <= m)) && f.q.map_or(true, |q| q == r.ok) }
/// Centre of a search: anywhere, or one or next to one of the rows; radius over all scales.
fn query() -> impl Strategy<Value = ((f64, f64), usize, u8, f64)> { (place(), any::<usize>(), 0u8..4, prop_oneof![2 => 0.0f64..180.0, 2 => 0.0f64..10.0, 1 => (-6.0f64..1.0).prop_map(|e| 10f64.powf(e)), 1 => prop_oneof![Just(0.0), Just(180.0), Just(90.0)]].prop_map(|r| r * D)) }
/// Expected members (a cone of half a turn is the sphere); a row within rounding of the edge may go either way.
fn expect(rows: &[Row], at: &dyn Fn(&Row) -> V3, c: (f64, f64), rad: f64, f: &Filt) -> Vec<Option<bool>> { let u = unit(c.0, c.1); rows.iter().map(|r| { if !allowed(r, f) { return Some(false) } if rad >= std::f64::consts::PI { return Some(true) } let s = angle(at(r), u); let tol = 1e-12 + 4e-16 / ((std::f64::consts::PI - s).max(1e-9)) + 2e-14 * (1.0 + r.pos.0.abs()); if (s - rad).abs() <= tol.min(5e-8) { None } else { Some(s < rad) } }).collect() }
fn judge(what: &str, rows: &[Row], got: &[&CatalogRecord], want: &[Option<bool>]) -> Result<usize, String> {
    let mut k = 0; let mut hits = 0;
    for (r, w) in rows.iter().zip(want) { let here = k < got.len() && *got[k] == rec(r) && *w != Some(false); if here { k += 1; hits += 1 } ensure!(*w != Some(true) || here, "{what}: {r:?} is missing") }
    ensure!(k == got.len(), "{what}: {:?} should not be there (or is out of order)", got[k]); Ok(hits)
}

fn main() {
    let mut c = Check::new("C40", "searches with both matching and other entries; tables with values in every column or with a fault");
    c.prop("cone searches", 60_000, || (proptest::collection::vec(row(), 0..30), query(), filt(), 1usize..12), |(rows, (place, pick, how, rad), f, chunk)| {
        let mut cat = LargeStarCatalog::new(); for (i, r) in rows.iter().enumerate() { if i % 2 == 0 { cat.push(rec(r)) } else { cat.extend([rec(r)]) } }
        ensure!(cat.len() == rows.len() && cat.is_empty() == rows.is_empty() && cat.records().iter().zip(rows).all(|(a, b)| *a == rec(b)), "the catalogue does not hold what was put in");
        let ctr = if rows.is_empty() || *how == 0 { *place } else { let p = rows[pick % rows.len()].pos; if *how == 1 { p } else if *how == 3 { (p.0 + std::f64::consts::PI, -p.1) } else { (p.0 + 0.3 * rad + std::f64::consts::TAU, (p.1 + 0.7 * rad).min(1.57)) } };
        let rf = CatalogFilter { max_g_mag: f.max, require_quality: f.q }; let q = |x: f64| Radians::new(x); let rad = *rad;
        let want = expect(rows, &|r| unit(r.pos.0, r.pos.1), ctr, rad, f);
        let got = np("cone_search", || cat.cone_search(q(ctr.0), q(ctr.1), q(rad), rf))?; let hits = judge("cone_search", rows, &got, &want)?;
        let parts: Vec<Vec<&CatalogRecord>> = cat.cone_search_chunked(q(ctr.0), q(ctr.1), q(rad), rf, *chunk - 1).collect(); let all: Vec<&CatalogRecord> = parts.iter().flatten().copied().collect();
        ensure!(all.len() == got.len() && all.iter().zip(&got).all(|(a, b)| std::ptr::eq(*a, *b)), "the chunks of {} rows give {} entries, the whole {}", chunk - 1, all.len(), got.len());
        ensure!(parts.len() == rows.len().div_ceil((*chunk - 1).max(1)), "{} chunks of {} for {} rows", parts.len(), chunk - 1, rows.len());
        Ok(if hits == 0 { "-nothing found" } else if hits == rows.len() { "all found" } else { "some found" })
    });
    c.prop("searches at an epoch", 60_000, || (proptest::collection::vec(row(), 1..20), query(), filt(), prop_oneof![2000.0f64..2050.0, Just(2016.0), -4000.0f64..6000.0]), |(rows, (place, pick, how, rad), f, t)| {
        let mut cat = LargeStarCatalog::new(); cat.extend(rows.iter().map(rec));
        let mut moves = false;
        for r in rows { let (ra, dec) = np("propagate_to", || rec(r).propagate_to(*t))?; let (ra, dec) = (ra.value(), dec.value()); let u = moved(r, *t);
            if r.pm.0.is_none() || r.pm.1.is_none() || *t == r.epoch { ensure!(angle(unit(ra, dec), unit(r.pos.0, r.pos.1)) < 1e-14, "no motion, yet {:?} became {:?}", r.pos, (ra, dec)) } else { moves = true }
            let shift = (t - r.epoch).abs() * r.pm.0.unwrap_or(0.0).abs() * D / 3.6e6 / r.pos.1.cos().max(1e-12);
            let tol = 1e-14 * (10.0 + shift);
            if r.pos.1.cos() > 1e-6 { ensure!(angle(unit(ra, dec), u) < tol, "{r:?} at {t}: {ra} {dec}, {:e} rad off", angle(unit(ra, dec), u)) }
            ensure!(dec.abs() <= std::f64::consts::FRAC_PI_2 + 1e-15 && (r.pm.0.is_none() || r.pm.1.is_none() || (0.0..=std::f64::consts::TAU).contains(&ra)), "{r:?} at {t}: {ra} {dec} out of range");
            // at the epoch a small motion has the catalogue's rate and direction
            if let (Some(a), Some(d)) = r.pm { if r.pos.1.cos() > 0.05 { let h = 1e-3; let (x, y) = rec(r).propagate_to(r.epoch + h); let v = scale(sub(unit(x.value(), y.value()), unit(r.pos.0, r.pos.1)), 1.0 / h / (D / 3.6e6)); let e = [-r.pos.0.sin(), r.pos.0.cos(), 0.0]; let n = [-r.pos.1.sin() * r.pos.0.cos(), -r.pos.1.sin() * r.pos.0.sin(), r.pos.1.cos()]; ensure!((dot(v, e) - a).abs() < 0.03 && (dot(v, n) - d).abs() < 0.03, "{r:?} moves by {} {} mas/yr", dot(v, e), dot(v, n)) } } }
        let near = rows[pick % rows.len()].clone(); let u = moved(&near, *t); let ctr = if *how == 0 { *place } else { (u[1].atan2(u[0]), u[2].clamp(-1.0, 1.0).asin()) };
        if rows.iter().any(|r| r.pos.1.cos() <= 1e-6 && r.pm.0.is_some() && r.pm.1.is_some()) { return Ok("-a moving star at the pole") }
        // near the pole the right ascension may wind up: allow for it at the edge
        if rows.iter().any(|r| (t - r.epoch).abs() * 12_000.0 * D / 3.6e6 / r.pos.1.cos().max(1e-9) > 1e3) { return Ok("-winding around the pole") }
        let want = expect(rows, &|r| moved(r, *t), ctr, *rad, f); let got = np("cone_search_at_epoch", || cat.cone_search_at_epoch(Radians::new(ctr.0), Radians::new(ctr.1), Radians::new(*rad), *t, CatalogFilter { max_g_mag: f.max, require_quality: f.q }))?;
        // entries exactly at the centre with radius 0 are decided by rounding
        let hits = judge("cone_search_at_epoch", rows, &got, &if *rad < 1e-11 { want.iter().map(|w| w.filter(|x| !*x)).collect::<Vec<_>>() } else { want })?;
        Ok(if !moves { "-no motion" } else if hits == 0 { "moving, nothing found" } else { "moving, found" })
    });
    c.prop("tables", 60_000, || (proptest::collection::vec(row(), 0..12), any::<[u8; 16]>(), (0u8..14, any::<usize>())), |(rows, mix, (fault, which))| {
        let names = ["source_id", "ra", "dec", "epoch", "pmra", "pmdec", "parallax", "radial_velocity", "g_mag", "bp_mag", "rp_mag", "quality", "note"];
        let mut cols: Vec<usize> = (0..13).filter(|i| *i < 4 || mix[*i] % 5 != 0).collect(); let n = cols.len(); for i in 0..n { cols.swap(i, mix[i % 16] as usize % n) }
        let has = |i: usize| cols.contains(&i); let pad = |s: String, k: u8| match k % 6 { 0 => format!(" {s}"), 1 => format!("{s}  "), 2 => format!("\t{s} "), _ => s };
        let mut text = String::new(); let mut line = 0; let mut lines = vec![]; let eol = if mix[15] % 3 == 0 { "\r\n" } else { "\n" };
        let mut put = |s: &str, text: &mut String| { text.push_str(s); text.push_str(eol); line += 1; line };
        if mix[14] % 2 == 0 { put("# a comment, with, commas", &mut text); put("", &mut text); }
        let head: Vec<String> = cols.iter().map(|i| { let s = names[*i].to_string(); pad(match mix[*i] % 3 { 0 => s.to_uppercase(), _ => s }, mix[*i] >> 3) }).collect(); put(&head.join(","), &mut text);
        let bad_row = if rows.is_empty() { None } else { Some(which % rows.len()) }; let f = *fault;
        let txt = |o: Option<f64>| o.map_or(String::new(), |x| x.to_string());
        for (k, r) in rows.iter().enumerate() {
            if (mix[k % 16] >> 2) % 4 == 0 { put(["", "   ", "#x", "  # y"][k % 4], &mut text); }
            let quality = if r.ok { ["1", "true", "ok", "TRUE", "Ok"][k % 5] } else { ["0", "false", "bad", "no", "2"][k % 5] };
            let mut v: Vec<String> = vec![r.id.to_string(), (r.pos.0 / D).to_string(), (r.pos.1 / D).clamp(-90.0, 90.0).to_string(), r.epoch.to_string(), txt(r.pm.0), txt(r.pm.1), txt(r.plx), txt(r.rv), txt(r.g), txt(r.bp), txt(r.rp), quality.into(), "x y".into()];
            if Some(k) == bad_row { match f { 0 => v[1] = String::new(), 1 => v[0] = "12x".into(), 2 => v[2] = "north".into(), 3 => v[0] = "-5".into(), 4 => v[3] = " ".into(), 5 => v[8] = "?".into(), 6 => v[1] = "NaN".into(), 7 => v[2] = "inf".into(), 8 => v[2] = ["90.001", "-90.001", "-1e3", "90.0000001"][mix[13] as usize % 4].into(), 9 => v[0] = "18446744073709551616".into(), 10 => v[4] = "1.5.2".into(), _ => {} } }
            let s: Vec<String> = cols.iter().map(|i| pad(v[*i].clone(), mix[(*i + k) % 16])).collect(); let s = s.join(",");
            lines.push(put(&s, &mut text));
        }
        let got = np("parse_csv_chunk", || parse_csv_chunk(&text))?;
        let breaks = bad_row.is_some() && match f { 0..=4 | 6..=9 => true, 5 => has(8), 10 => has(4), _ => false };
        if breaks { let (col, missing) = [("ra", true), ("source_id", false), ("dec", false), ("source_id", false), ("epoch", true), ("g_mag", false), ("ra", false), ("dec", false), ("dec", false), ("source_id", false), ("pmra", false)][f as usize]; let ln = lines[bad_row.unwrap()];
            return match got { Ok(v) => Err(format!("a bad {col} on line {ln} was accepted: {:?}\n{text}", v[bad_row.unwrap()])), Err(CatalogIngestError::MissingColumn { column, line }) if missing && column == col && line == ln => Ok("missing value"), Err(CatalogIngestError::InvalidNumber { column, line, .. }) if !missing && column == col && line == ln => Ok("bad number"), Err(e) => Err(format!("a bad {col} on line {ln} reported as {e:?}\n{text}")) } }
        let got = got.map_err(|e| format!("{e}\n{text}"))?; ensure!(got.len() == rows.len(), "{} entries of {}", got.len(), rows.len());
        for (g, r) in got.iter().zip(rows) { let w = CatalogRecord { ra: g.ra, dec: g.dec, pm_ra_cosdec: r.pm.0.filter(|_| has(4)), pm_dec: r.pm.1.filter(|_| has(5)), parallax: r.plx.filter(|_| has(6)).map(MilliArcseconds::new), radial_velocity: r.rv.filter(|_| has(7)).map(KmPerSeconds::new), g_mag: r.g.filter(|_| has(8)), bp_mag: r.bp.filter(|_| has(9)), rp_mag: r.rp.filter(|_| has(10)), quality_ok: r.ok || !has(11), ..rec(r) };
            ensure!(*g == w && (g.ra.value() - r.pos.0).abs() < 1e-14 && (g.dec.value() - r.pos.1).abs() < 1e-15, "read {g:?} instead of {w:?}\n{text}") }
        Ok(if rows.is_empty() { "-empty table" } else { "kept" })
    });
    c.prop("a required column is absent", 3_000, || (0usize..4, proptest::collection::vec(row(), 1..4)), |(drop, rows)| {
        let names = ["source_id", "ra", "dec", "epoch"]; let keep: Vec<usize> = (0..4).filter(|i| i != drop).collect(); let mut t = keep.iter().map(|i| names[*i]).collect::<Vec<_>>().join(","); for r in rows { let v = [r.id.to_string(), (r.pos.0 / D).to_string(), (r.pos.1 / D).clamp(-90.0, 90.0).to_string(), r.epoch.to_string()]; t += "\n"; t += &keep.iter().map(|i| v[*i].clone()).collect::<Vec<_>>().join(",") }
        match np("parse_csv_chunk", || parse_csv_chunk(&t))? { Err(CatalogIngestError::MissingColumn { column, line: 2 }) if column == names[*drop] => Ok("refused"), x => Err(format!("without {}: {x:?}", names[*drop])) }
    });
    c.prop("named stars and observatories", 300, || (0usize..10, 0.0f64..1.0), |(i, x)| {
        let all = [(stars::VEGA, "Vega", 279.234735, 38.783689, 25.04), (stars::POLARIS, "Polaris", 37.954561, 89.264109, 433.0), (stars::SIRIUS, "Sirius", 101.287155, -16.716116, 8.6), (stars::CANOPUS, "Canopus", 95.987958, -52.695661, 310.0), (stars::ARCTURUS, "Arcturus", 213.915300, 19.182409, 36.7), (stars::RIGEL, "Rigel", 78.634467, -8.201638, 863.0), (stars::BETELGEUSE, "Betelgeuse", 88.792939, 7.407064, 548.0), (stars::PROCYON, "Procyon", 114.825498, 5.224988, 11.46), (stars::ALDEBARAN, "Aldebaran", 68.980163, 16.509302, 65.3), (stars::ALTAIR, "Altair", 297.695827, 8.868321, 16.73)]; let s = &all[*i];
        let p = s.0.coordinate.get_position(); let (ra, dec) = (p.azimuth.value() * D, p.polar.value() * D);
        ensure!(s.0.name == s.1 && angle(unit(ra, dec), unit(s.2 * D, s.3 * D)) < 1e-3 * D && (p.distance.value() / s.4 - 1.0).abs() < 0.02 && (s.0.distance.value() / s.4 - 1.0).abs() < 0.02, "{}: {} {} {}", s.0.name, ra / D, dec / D, p.distance.value());
        let sites = [(obs::ROQUE_DE_LOS_MUCHACHOS, -17.89, 28.757, 2396.0), (obs::EL_PARANAL, -70.404, -24.627, 2635.0), (obs::MAUNA_KEA, -155.469, 19.824, 4205.0), (obs::LA_SILLA_OBSERVATORY, -70.735, -29.257, 2400.0)]; let o = &sites[((x * 4.0) as usize).min(3)];
        let g = o.0.geodetic(); ensure!((g.lon.value() - o.1).abs() < 0.02 && (g.lat.value() - o.2).abs() < 0.02 && (g.height.value() - o.3).abs() < 20.0, "{}: {} {} {}", o.0.name, g.lon.value(), g.lat.value(), g.height.value());
        let e = g.to_cartesian::<Meter>(); let (a, f) = (6_378_137.0, 1.0 / 298.257223563); let e2: f64 = f * (2.0 - f); let (lo, la, h) = (g.lon.value() * D, g.lat.value() * D, g.height.value()); let n = a / (1.0 - e2 * la.sin().powi(2)).sqrt(); let w = [(n + h) * la.cos() * lo.cos(), (n + h) * la.cos() * lo.sin(), (n * (1.0 - e2) + h) * la.sin()];
        ensure!(norm(sub([e.x().value(), e.y().value(), e.z().value()], w)) < 1e-3, "{} stands elsewhere", o.0.name);
        let isa = 1013.25 * (1.0 - 2.25577e-5 * h).powf(5.25588); ensure!((o.0.reference_pressure.value() / isa - 1.0).abs() < 0.04, "{}: {} hPa at {h} m", o.0.name, o.0.reference_pressure.value()); Ok("constant")
    });
    c.finish()
}
