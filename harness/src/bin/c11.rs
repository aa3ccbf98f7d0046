//! C11: sky grids.
use proptest::prelude::*;
use siderust::coordinates::SkyGrid;
use siderust::qtty::*;
use vharness::*;

const R: f64 = std::f64::consts::PI / 180.0;
fn tie(x: f64) -> bool { ((x - x.floor()) - 0.5).abs() < 1e-9 }

#[derive(Debug, Clone)]
struct G { equal: bool, square: bool, range: Option<(f64, f64)>, da: f64, dz: f64 }
fn build(g: &G) -> SkyGrid {
    let (da, dz) = (Degrees::new(g.da), Degrees::new(g.dz));
    let s = if g.equal { SkyGrid::equal_area(da, dz) } else if g.square { SkyGrid::uniform(da) } else { SkyGrid::with_steps(da, dz) };
    match g.range { Some((a, b)) => s.with_alt_range(Degrees::new(a), Degrees::new(b)), None => s }
}
/// The documented layout: rows of (altitude, number of azimuths, azimuth step).
fn rows(g: &G) -> Option<Vec<(f64, usize, f64)>> {
    let (lo, hi) = g.range.unwrap_or((0.0, 90.0));
    let dz = if !g.equal && g.square { g.da } else { g.dz };
    if hi <= lo || g.da <= 0.0 { return Some(vec![]); }
    let x = (hi - lo) / g.da;
    if tie(x) { return None; }
    let mut out = vec![];
    for i in 0..x.round() as usize {
        let alt = lo + (i as f64 + 0.5) * g.da;
        if dz <= 0.0 {
            // no azimuth step: a ring of the equal-area grid is one cell, a uniform ring has none
            if g.equal { out.push((alt, 1, 360.0)); }
            continue;
        }
        let y = if g.equal { 2.0 * std::f64::consts::PI * (alt * R).cos().max(0.0) / (dz * R) } else { 360.0 / dz };
        if tie(y) { return None; }
        let n = if g.equal { (y.round() as usize).max(1) } else { y.round() as usize };
        out.push((alt, n, if g.equal { 360.0 / n as f64 } else { dz }));
    }
    Some(out)
}
fn check(g: &G) -> Outcome {
    let Some(want) = rows(g) else { return Ok("-rounding tie") };
    let (lo, hi) = g.range.unwrap_or((0.0, 90.0));
    let grid = build(g);
    let cells: Vec<_> = grid.iter_cells().collect();
    let n: usize = want.iter().map(|r| r.1).sum();
    ensure!(cells.len() == n, "{} cells, the documented layout has {}", cells.len(), n);
    ensure!(grid.len() == n && grid.is_empty() == (n == 0), "len() = {}, is_empty() = {}, but {} cells", grid.len(), grid.is_empty(), n);
    let (dirs, pairs): (Vec<_>, Vec<_>) = (grid.iter().collect(), grid.with_solid_angle().collect());
    let into: Vec<_> = (&grid).into_iter().collect();
    ensure!(dirs.len() == n && pairs.len() == n && into.len() == n, "iterators disagree: {} {} {} {}", dirs.len(), pairs.len(), into.len(), n);
    let mut k = 0;
    let mut total = 0.0;
    for (alt, m, dz) in &want {
        for j in 0..*m {
            let c = &cells[k];
            let az = (j as f64 + 0.5) * dz;
            let (a, z) = (c.direction.polar.value(), c.direction.azimuth.value());
            ensure!((a - alt).abs() < 1e-9 && (z - az).abs() < 1e-9, "cell {}: alt {} az {}, documented alt {} az {}", k, a, z, alt, az);
            ensure!(a >= lo - g.da / 2.0 && a <= hi + g.da / 2.0 && (0.0..360.0).contains(&z), "cell {}: alt {} az {} outside the region", k, a, z);
            let w = (alt * R).cos() * g.da * R * dz * R;
            ensure!(close(c.solid_angle.value(), w, 1e-15, 1e-9), "cell {}: solid angle {}, documented {}", k, c.solid_angle.value(), w);
            ensure!(dirs[k].polar == c.direction.polar && dirs[k].azimuth == c.direction.azimuth && into[k].azimuth == c.direction.azimuth && into[k].polar == c.direction.polar, "iterators disagree at {}", k);
            ensure!(pairs[k].0.polar == c.direction.polar && pairs[k].0.azimuth == c.direction.azimuth && pairs[k].1 == c.solid_angle, "with_solid_angle disagrees at {}", k);
            total += c.solid_angle.value();
            k += 1;
        }
    }
    for w in cells.windows(2) {
        let (a, b) = (&w[0].direction, &w[1].direction);
        ensure!(a.polar.value() < b.polar.value() || (a.polar == b.polar && a.azimuth.value() < b.azimuth.value()), "order or duplicate: {:?} then {:?}", a, b);
    }
    // steps that divide the region: areas add up to its solid angle (midpoint rule: exact up to (d/2)/sin(d/2))
    let x = (hi - lo) / g.da;
    let y = if g.equal { 1.0 } else { 360.0 / if g.square { g.da } else { g.dz } };
    if n > 0 && (x - x.round()).abs() < 1e-9 && (y - y.round()).abs() < 1e-9 {
        let exact = 2.0 * std::f64::consts::PI * ((hi * R).sin() - (lo * R).sin());
        let h = g.da * R / 2.0;
        ensure!(close(total, exact * h / h.sin(), 1e-12, 1e-9), "areas add up to {} sr, the region has {} sr", total, exact);
        return Ok(if g.equal { "equal-area, dividing" } else { "uniform, dividing" });
    }
    Ok(if n == 0 { "-empty" } else if g.equal { "equal-area" } else { "uniform" })
}
fn range() -> BoxedStrategy<Option<(f64, f64)>> {
    prop_oneof![2 => Just(None), 4 => (-90.0f64..90.0, -90.0f64..90.0).prop_map(|(a, b)| Some((a.min(b), a.max(b)))),
        1 => (-90.0f64..90.0, -90.0f64..90.0).prop_map(|(a, b)| Some((a, b))), 1 => Just(Some((-90.0, 90.0))), 1 => (0.0f64..80.0).prop_map(|a| Some((a, 90.0)))].boxed()
}

fn main() {
    let mut c = Check::new("C11", "uniform, two-step and equal-area grids x altitude ranges (whole, hemisphere, masks, empty, reversed) x steps 0.7-120 deg, arbitrary and dividing the region; non-trivial: a non-empty grid away from rounding ties");
    c.prop("arbitrary_steps", 4_000, || (any::<bool>(), any::<bool>(), range(), prop_oneof![8 => 0.9f64..30.0, 1 => -5.0f64..5.0, 1 => 30.0f64..200.0], prop_oneof![8 => 0.9f64..40.0, 1 => 40.0f64..800.0])
        .prop_filter_map("size", |(equal, square, range, da, dz)| {
            if da.abs() < 0.5 { return None; }
            Some(G { equal, square, range, da, dz })
        }), |g| check(g));
    c.prop("dividing_steps", 4_000, || (any::<bool>(), any::<bool>(), range(), 1u32..120, 1u32..300).prop_map(|(equal, square, range, na, nz)| {
        let (lo, hi) = range.unwrap_or((0.0, 90.0));
        let square = square && !equal;
        // uniform(step) must divide both the range and the circle
        if square { let s = 90.0 / na as f64; return G { equal, square, range: None, da: s, dz: s }; }
        G { equal, square, range, da: ((hi - lo) / na as f64).max(0.2), dz: 360.0 / nz as f64 }
    }), |g| check(g));
    c.prop("degenerate", 2_000, || (any::<bool>(), any::<bool>(), prop_oneof![3 => range(), 1 => (-90.0f64..90.0).prop_map(|a| Some((a, a)))], prop_oneof![1 => Just(0.0), 1 => Just(-0.0), 1 => -50.0f64..0.0, 3 => 1.0f64..30.0], prop_oneof![2 => Just(0.0), 1 => Just(-0.0), 2 => -50.0f64..0.0, 1 => 1.0f64..30.0])
        .prop_map(|(equal, square, range, da, dz)| G { equal, square, range, da, dz }), |g| {
        check(g)?;
        Ok(if g.equal && g.dz <= 0.0 && g.da > 0.0 { "equal-area without azimuth step" } else if g.dz <= 0.0 { "uniform without azimuth step" } else { "-other" })
    });
    c.finish()
}
