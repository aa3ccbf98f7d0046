//! C26: DAF/SPK kernels against the polynomials written into them.
use proptest::prelude::*;
use siderust::coordinates::centers::Barycentric;
use siderust::ephemeris::{MajorPlanet, PlanetPoint};
use siderust::formats::spice::daf::{Daf, DafRaw};
use siderust::formats::spice::spk::{parse_bsp, parse_indexed_segments};
use siderust::formats::spice::*;
use siderust::pod::providers::EphemerisProvider;
use siderust::pod::spice::SpiceEphemerisProvider;
use siderust::time::JulianDate;
use vharness::spk::*;
use vharness::*;

const KINDS: &[i32] = &[2, 2, 2, 3, 9, 13];
/// Coverage of one segment: within its data, ending at whole seconds.
fn seg(kinds: &'static [i32], target: i32, center: i32, lo: f64, hi: f64) -> impl Strategy<Value = Seg> {
    (0.0f64..0.45, 0.55f64..1.0, 0u8..4, 0.0f64..0.2, 0.0f64..0.2).prop_flat_map(move |(a, b, cut, ca, cb)| {
        let w = hi - lo;
        // Often the whole interval, so that chains reach across segments.
        let (s, e) = if cut == 0 { ((lo + a * w).round(), (lo + b * w).round()) } else { (lo, hi) };
        let (start, end) = if cut == 1 { ((s + ca * (e - s)).round(), (e - cb * (e - s)).round()) } else { (s, e) };
        pay(kinds, s, e - s).prop_map(move |pay| { let mut g = Seg { target, center, frame: 1, start, end, pay }; let sp = g.span(); if g.start == s { g.start = sp.0 } if g.end == e { g.end = sp.1 } g })
    })
}
const BODIES: [i32; 9] = [0, 3, 10, 301, 399, 4, 499, -82, 2000001];
/// A tree of bodies; every edge carries one to three segments.
fn tree(kinds: &'static [i32], lo: f64, hi: f64) -> impl Strategy<Value = Vec<Seg>> {
    (2usize..9, proptest::collection::vec((any::<proptest::sample::Index>(), any::<bool>(), 1usize..4), 8)).prop_flat_map(move |(n, links)| {
        let mut edges = vec![];
        for k in 1..n { let (ix, flip, many) = &links[k - 1]; let p = BODIES[ix.index(k)]; for _ in 0..*many { edges.push(if *flip { (p, BODIES[k]) } else { (BODIES[k], p) }) } }
        edges.into_iter().map(|(t, c)| seg(kinds, t, c, lo, hi)).collect::<Vec<_>>()
    }).prop_shuffle()
}
fn epoch(lo: f64, hi: f64) -> impl Strategy<Value = (f64, u8)> { (prop_oneof![8 => 0.0f64..1.0, 1 => -0.2f64..1.2], 0u8..12).prop_map(move |(x, k)| (lo + x * (hi - lo), k)) }
fn main() {
    let mut c = Check::new("C26", "kernels with at least one segment evaluated, or refused for a stated reason");
    let (lo, hi) = (600_000_000.0, 600_864_000.0);

    c.prop("summaries and words are read as written", 3000, move || (tree(&[2, 3, 9, 13, 5, 21], lo, hi), layout(), 1usize..4, 1usize..8), |(segs, l, nd, ni)| {
        let bytes = spk(l, segs);
        let daf = np("Daf::parse", || Daf::parse(&bytes))?.map_err(|e| format!("refused: {e}"))?;
        ensure!(daf.nd == 2 && daf.ni == 6 && daf.summaries.len() == segs.len(), "{} summaries instead of {}", daf.summaries.len(), segs.len());
        let raw = np("DafRaw::parse", || DafRaw::parse(bytes.clone()))?.map_err(|e| format!("refused: {e}"))?;
        ensure!(raw.locator == "DAF/SPK " && raw.bytes() == &bytes[..] && (raw.nd, raw.ni) == (2, 6), "raw header {:?}", raw.locator);
        for (k, (s, g)) in segs.iter().zip(&daf.summaries).enumerate() {
            let w = s.words();
            ensure!((g.start_et, g.end_et, g.target_id, g.center_id, g.frame_id, g.data_type) == (s.start, s.end, s.target, s.center, s.frame, s.ty()), "summary {k}: {g:?}");
            ensure!(g.end_word - g.start_word + 1 == w.len(), "summary {k} spans words {}..{} of {}", g.start_word, g.end_word, w.len());
            for (i, x) in w.iter().enumerate() { let y = np("read_f64_at_word", || daf.read_f64_at_word(&bytes, g.start_word + i))?; ensure!(y == *x, "word {i} of segment {k} is {y} instead of {x}"); ensure!(raw.read_f64_at_word(g.start_word + i) == *x, "raw word {i}") }
            let r = &raw.raw_summaries[k];
            ensure!(r.doubles == [s.start, s.end] && r.integers[..4] == [s.target, s.center, s.frame, s.ty()] && r.start_word() == g.start_word && r.end_word() == g.end_word, "raw summary {r:?}");
        }
        // Any other summary format.
        let odd: Vec<_> = segs.iter().enumerate().map(|(k, s)| ((0..*nd).map(|j| noise(k as u64, j)).collect::<Vec<_>>(), (0..*ni).map(|j| (k * 7 + j) as i32).collect::<Vec<_>>(), s.words())).collect();
        let mut l2 = l.clone(); l2.per_record = l.per_record.min(125 / (nd + (ni + 2).div_ceil(2)));
        let b2 = daf_bytes(*nd, ni + 2, &l2, &odd);
        let raw = np("DafRaw::parse", || DafRaw::parse(b2))?.map_err(|e| format!("refused: {e}"))?;
        ensure!(raw.raw_summaries.len() == odd.len() && raw.locator == "DAF/CK  ", "raw summaries");
        for (r, o) in raw.raw_summaries.iter().zip(&odd) {
            ensure!(r.doubles == o.0 && r.integers[..*ni] == o.1[..] && r.end_word() + 1 - r.start_word() == o.2.len(), "{r:?} instead of {o:?}");
            ensure!(raw.read_f64_at_word(r.start_word()) == o.2[0] && raw.read_f64_at_word(r.end_word()) == *o.2.last().unwrap(), "words of {r:?}");
        }
        Ok(if l.big { "big-endian" } else { "little-endian" })
    });

    c.prop("segments evaluate the polynomials they hold", 20000, move || (prop_oneof![4 => Just((lo, hi)), 1 => Just((-3e8, -3e8 + 6000.0)), 1 => Just((0.0, 10.0))].prop_flat_map(|(lo, hi)| (seg(KINDS, 399, 3, lo, hi), epoch(lo, hi))), layout()), |((s, (et, k)), l)| {
        let bytes = spk(l, std::slice::from_ref(s));
        let (a, b) = s.cover();
        let et = match k { 0 => a, 1 => b, 2 => a - 1e-3 - a.abs() * 1e-15, 3 => b + 1e-3 + b.abs() * 1e-15, 4 => match &s.pay { Pay::Disc { epochs, .. } => epochs[(et.abs() as usize) % epochs.len()], Pay::Cheb { init, intlen, coefs, .. } => init + intlen * ((et.abs() as usize) % coefs.len()) as f64, _ => *et }, _ => *et };
        let kern = np("from_bytes", || SpkKernel::from_bytes(bytes.clone()))?.map_err(|e| format!("refused: {e}"))?;
        let g = np("state", || kern.state(399, 3, et))?;
        let seg = kern.segments()[0].segment.as_ref().ok_or("segment not decoded")?;
        let sp = s.span();
        ensure!(close(seg.start_tdb_seconds(), sp.0, 0.0, 1e-15) && close(seg.end_tdb_seconds(), sp.1, 1e-9, 1e-15), "segment spans {}..{} instead of {sp:?}", seg.start_tdb_seconds(), seg.end_tdb_seconds());
        if !s.covers(et) {
            if et - b > 0.0 && et - b < 1e-6 || a - et > 0.0 && a - et < 1e-6 { return Ok("-rounded end") }
            ensure!(matches!(g, Err(SpiceError::OutOfCoverage { target: 399, center: 3, .. })), "{g:?} at {et} outside {a}..{b}");
            return Ok("outside coverage");
        }
        let g = g.map_err(|e| format!("refused at {et} within {a}..{b}: {e}"))?;
        let want = s.eval(et, 0.0);
        ensure!(matches(&g, &want, 6), "Type {} gives {g:?} instead of {:?} (tolerance {:?})", s.ty(), want[0].0, want[0].1);
        ensure!(matches(&np("evaluate", || seg.evaluate(et))?.map_err(|e| e.to_string())?, &want, 6), "evaluate differs from the kernel");
        let back = np("state", || kern.state(3, 399, et))?.map_err(|e| e.to_string())?;
        ensure!((0..6).all(|i| back[i] == -g[i]), "reverse state {back:?} of {g:?}");
        // The typed provider.
        let p = SpiceEphemerisProvider::<Barycentric>::new(kern, 3);
        let t = np("provider", || EphemerisProvider::state(&p, 399, et))?.map_err(|e| e.to_string())?;
        ensure!([t.position.x().value(), t.position.y().value(), t.position.z().value(), t.velocity_km_s.x().value(), t.velocity_km_s.y().value(), t.velocity_km_s.z().value()] == g, "provider gives another state");
        Ok(match s.ty() { 2 => "Type 2", 3 => "Type 3", 9 => "Type 9", _ => "Type 13" })
    });

    c.prop("body chains add up, later segments first", 6000, move || (tree(&[2, 2, 2, 2, 3, 3, 9, 13, 5], lo, hi), layout(), epoch(lo, hi)), |(segs, l, (et, k))| {
        let kern = np("from_bytes", || SpkKernel::from_bytes(spk(l, segs)))?.map_err(|e| format!("refused: {e}"))?;
        ensure!(kern.segments().len() == segs.len(), "{} segments", kern.segments().len());
        let et = if *k == 0 { f64::NAN } else { *et };
        // A tree has one path; each of its edges is its last covering segment.
        let edge = |a: i32, b: i32| segs.iter().rev().find(|s| s.covers(et) && (s.target == a && s.center == b || s.target == b && s.center == a));
        fn path(segs: &[Seg], at: i32, to: i32, from: i32) -> Option<Vec<i32>> { if at == to { return Some(vec![at]) } for s in segs { let n = if s.target == at { s.center } else if s.center == at { s.target } else { continue }; if n == from { continue } if let Some(mut p) = path(segs, n, to, at) { p.insert(0, at); return Some(p) } } None }
        let mut label = "no chain reached";
        for &a in &BODIES { for &b in &BODIES {
            let g = np("state", || kern.state(a, b, et))?;
            if a == b { ensure!(matches!(g, Ok(x) if x == [0.0; 6]), "{a} relative to itself is {g:?}"); continue }
            let Some(p) = path(segs, a, b, i32::MIN) else { ensure!(matches!(g, Err(SpiceError::NoChain { target, center }) if (target, center) == (a, b)), "{a} from {b}: {g:?} without a chain"); continue };
            if et.is_nan() { ensure!(g.is_err(), "a state at no epoch"); label = "NaN epoch"; continue }
            let edges: Vec<_> = p.windows(2).map(|w| edge(w[0], w[1]).map(|s| (if s.target == w[0] { 1.0 } else { -1.0 }, s))).collect();
            if edges.iter().any(|e| e.is_none()) {
                // Epochs within rounding of an edge of coverage may fall on either side.
                if segs.iter().any(|s| { let c = s.cover(); (et - c.0).abs() < 1e-6 || (et - c.1).abs() < 1e-6 }) { continue }
                ensure!(matches!(g, Err(SpiceError::OutOfCoverage { target, center, .. }) if (target, center) == (a, b)), "{a} from {b}: {g:?} although the chain is broken at {et}"); if label == "no chain reached" { label = "chain broken" } continue
            }
            let edges: Vec<_> = edges.into_iter().flatten().collect();
            if let Some((_, s)) = edges.iter().find(|(_, s)| matches!(s.pay, Pay::Other { .. })) { ensure!(matches!(g, Err(SpiceError::UnsupportedDataType { data_type }) if data_type == s.ty()), "{a} from {b}: {g:?} through an unsupported segment"); continue }
            let g = g.map_err(|e| format!("{a} from {b}: {e} at {et}"))?;
            let want = sum(&edges.iter().map(|(k, s)| (*k, s.eval(et, 0.0))).collect::<Vec<_>>());
            ensure!(matches(&g, &want, 6), "{a} from {b} by {p:?}: {g:?} instead of {:?}", want[0].0);
            count_oracle(1);
            label = if edges.len() > 2 { "long chain" } else if label != "long chain" { "chain" } else { label };
        } }
        Ok(label)
    });

    c.prop("kernel sets resolve to the barycentre, later kernels first", 5000, move || (
        proptest::collection::vec((layout(), proptest::collection::vec((0usize..9, 0usize..9), 1..6).prop_flat_map(move |e| e.into_iter().map(|(t, c)| seg(&[2, 2, 3], [3, 10, 301, 399, 4, 499, 299, 2, 0][t], [0, 3, 0, 0, 10, 4, 2, 399, 3][c], lo, hi)).collect::<Vec<_>>())), 0..3),
        layout(), (0u8..3, any::<bool>()).prop_flat_map(move |(earth, moon)| { let mut v = vec![seg(&[2, 3], 10, 0, lo, hi), seg(&[2, 3], 3, 0, lo, hi), seg(&[2, 3], 4, 0, lo, hi)]; if moon { v.push(seg(&[2, 3], 301, 3, lo, hi)) } if earth > 0 { v.push(seg(&[2, 3], 399, 3, lo, hi)) } if earth == 2 { v.push(seg(&[2, 3], 499, 4, lo, hi)) } v }), epoch(lo, hi)),
    |(more, l0, base, (et, _))| {
        let jd = 2_451_545.0 + et / 86_400.0;
        let et = et_of(jd);
        let dt = 2e-6;
        let mut files = vec![(l0.clone(), base.clone())]; files.extend(more.iter().cloned());
        let mut set = SpkKernelSet::default();
        for (l, s) in &files { let b = spk(l, s); np("push_bytes", || set.push_bytes(&b))?.map_err(|e| format!("refused: {e}"))? }
        let all: Vec<&Seg> = files.iter().flat_map(|f| &f.1).collect();
        ensure!(set.segment_count() == all.len(), "{} segments of {}", set.segment_count(), all.len());
        if all.iter().any(|s| { let c = s.cover(); (et - c.0).abs() < 1e-3 || (et - c.1).abs() < 1e-3 }) { return Ok("-edge of coverage") }
        fn resolve(all: &[&Seg], b: i32, et: f64, dt: f64, seen: &mut Vec<i32>) -> Option<States> {
            if b == 0 { return Some(sum(&[])) }
            if seen.contains(&b) { return None }
            seen.push(b);
            for s in all.iter().rev().filter(|s| s.target == b && s.covers(et)) { if let Some(c) = resolve(all, s.center, et, dt, seen) { seen.pop(); return Some(sum(&[(1.0, s.eval(et, dt)), (1.0, c)])) } }
            // Earth from the Moon and the Earth-Moon barycentre.
            if b == 399 { if let (Some(c), Some(m)) = (resolve(all, 3, et, dt, seen), all.iter().rev().find(|s| s.target == 301 && s.center == 3 && s.covers(et))) { seen.pop(); return Some(sum(&[(1.0, c), (-1.0 / 81.3005690741906, m.eval(et, dt))])) } }
            seen.pop();
            None
        }
        let mut label = "-nothing resolves";
        let near = |g: [f64; 3], w: &States| w.iter().any(|(s, t)| (0..3).all(|i| (g[i] - s[i]).abs() <= t[i] + 1e-8 * s[i].abs() / 80.0 * 0.0 + 1e-300));
        let xyz = |d: affn::Displacement<siderust::coordinates::frames::ICRF, siderust::qtty::Kilometer>| [d.x().value(), d.y().value(), d.z().value()];
        let t = JulianDate::new(jd);
        for a in [0, 10, 3, 301, 399, 4, 499, 299, 777] { for b in [0, 399, 10] {
            let g = np("try_geometric_state", || set.try_geometric_state(a, b, t))?;
            match (resolve(&all, a, et, dt, &mut vec![]), resolve(&all, b, et, dt, &mut vec![])) {
                (Some(x), Some(y)) => { let w = sum(&[(1.0, x), (-1.0, y)]); let g = xyz(g.map_err(|e| format!("{a} from {b}: {e} although both resolve"))?); ensure!(near(g, &w), "{a} from {b}: {g:?} instead of {:?} +- {:?}", w[0].0, w[0].1); count_oracle(1); if a != 0 && b != 0 { label = if more.is_empty() { "one kernel" } else { "stacked kernels" } } }
                _ => match g { Err(spk_kernel::SpkKernelError::Ephemeris(e)) => check_range(&e, jd, &all).map_err(|x| format!("{a} from {b}: {x}"))?, Err(_) => {} g => return Err(format!("{a} from {b}: {g:?} although one does not resolve")) },
            }
        } }
        let Some(earth) = resolve(&all, 399, et, dt, &mut vec![]) else { ensure!(set.try_major_planet_geocentric(MajorPlanet::Mars, PlanetPoint::SystemBarycenter, t).is_err(), "a geocentric planet without the Earth"); return Ok(label) };
        for (pl, sys, ctr) in [(MajorPlanet::Mercury, 1, 199), (MajorPlanet::Venus, 2, 299), (MajorPlanet::Mars, 4, 499), (MajorPlanet::Jupiter, 5, 599)] { for (pt, id) in [(PlanetPoint::SystemBarycenter, sys), (PlanetPoint::Center, ctr)] {
            let g = np("try_major_planet_geocentric", || set.try_major_planet_geocentric(pl, pt, t))?;
            match resolve(&all, id, et, dt, &mut vec![]) {
                Some(x) => { let w = sum(&[(1.0, x), (-1.0, earth.clone())]); let g = xyz(g.map_err(|e| format!("{pl:?} {pt:?}: {e}"))?); ensure!(near(g, &w), "{pl:?} {pt:?}: {g:?} instead of {:?}", w[0].0); count_oracle(1) }
                None => ensure!(g.is_err(), "{pl:?} {pt:?}: {g:?} without a segment"),
            }
        } }
        Ok(label)
    });

    c.prop("segment tables and files on disk", 600, move || (tree(&[2, 3, 2, 13], lo, hi), layout(), any::<u32>()), |(segs, l, tag)| {
        let bytes = spk(l, segs);
        let cheb: Vec<&Seg> = segs.iter().filter(|s| matches!(s.pay, Pay::Cheb { .. })).collect();
        let g = np("parse_indexed_segments", || parse_indexed_segments(&bytes))?;
        if cheb.is_empty() { ensure!(g.is_err(), "no supported segment, yet {g:?}") } else {
            let g = g.map_err(|e| format!("refused: {e}"))?;
            ensure!(g.len() == cheb.len(), "{} of {} segments", g.len(), cheb.len());
            for (s, d) in cheb.iter().zip(&g) {
                let Pay::Cheb { comps, init, intlen, n, coefs } = &s.pay else { unreachable!() };
                ensure!((d.target_id, d.center_id, d.frame_id, d.start_et, d.end_et) == (s.target, s.center, 1, s.start, s.end), "{d:?}");
                let w = s.words();
                ensure!((d.data.init, d.data.intlen, d.data.rsize, d.data.ncoeff, d.data.n_records, d.data.data_type) == (*init, *intlen, 2 + comps * n, *n, coefs.len(), s.ty()) && d.data.records == w[..w.len() - 4], "segment data of {}", s.target);
            }
        }
        let has = |t: i32, c: i32| segs.iter().find(|s| s.target == t && s.center == c);
        let b = np("parse_bsp", || parse_bsp(&bytes))?;
        let need = [has(10, 0), has(3, 0), has(301, 3)];
        let ok = need.iter().all(|s| s.is_some_and(|s| matches!(s.pay, Pay::Cheb { .. }))) && has(399, 3).is_none_or(|s| matches!(s.pay, Pay::Cheb { .. }));
        if ok { let b = b.map_err(|e| e.to_string())?; let w = need[1].unwrap().words(); ensure!(b.emb.records == w[..w.len() - 4] && b.earth.is_some() == has(399, 3).is_some(), "core segments") } else if need.iter().any(|s| s.is_none()) { ensure!(b.is_err(), "core segments of a kernel without them") }
        // The same through the file system.
        let dir = std::env::temp_dir().join(format!("vh-c26-{}-{tag}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let f = dir.join("a.bsp");
        let r = std::fs::write(&f, &bytes).map_err(|e| e.to_string()).and_then(|_| np("open", || (SpkKernel::open(&f), SpkKernelSet::from_paths([&f]), SpkKernel::open(dir.join("none")).is_err() && SpkKernelSet::from_paths([dir.join("none")]).is_err())));
        let _ = std::fs::remove_dir_all(&dir);
        let (k, s, missing) = r?;
        ensure!(missing, "a missing file opened");
        let k = k.map_err(|e| e.to_string())?;
        ensure!(k.bytes() == &bytes[..] && k.daf().summaries.len() == segs.len() && k.segments().len() == segs.len(), "kernel read from disk differs");
        ensure!(s.is_ok() == !cheb.is_empty(), "kernel set from disk");
        Ok(if cheb.is_empty() { "-no Chebyshev segment" } else { "table" })
    });
    c.finish()
}
fn daf_bytes(nd: usize, ni: usize, l: &Layout, segs: &[(Vec<f64>, Vec<i32>, Vec<f64>)]) -> Vec<u8> { vharness::spk::daf(b"DAF/CK  ", nd, ni, l, segs) }
