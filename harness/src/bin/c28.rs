//! C28: histories of kernel loads into a SPICE context, against a model that remembers them all.
use proptest::prelude::*;
use siderust::coordinates::centers::{Barycentric, Geocentric};
use siderust::formats::spice::SpkKernel;
use siderust::pod::providers::EphemerisProvider;
use siderust::pod::spice::SpiceEphemerisProvider;
use siderust::spice::SpiceContext;
use siderust::time::{Time, TDB};
use vharness::refs::*;
use vharness::spk::*;
use vharness::*;

/// Bodies and their parents: one tree, so that a chain is unique.
const EDGES: [(i32, i32); 6] = [(3, 0), (10, 0), (399, 3), (301, 3), (-82, 399), (4, 0)];
const BODIES: [i32; 7] = [0, 3, 10, 399, 301, -82, 4];
const SPAN: f64 = 1_000_000.0;
const M0: M3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
#[derive(Debug, Clone)]
struct Edge { k: usize, flip: bool, lo: f64, hi: f64, v: [f64; 3], w: [f64; 3] }
#[derive(Debug, Clone)]
struct Txt { lsk: Option<f64>, frames: Vec<(usize, usize, f64, u8)>, pck: Vec<(usize, Option<(f64, f64, f64)>)>, sclk: bool, ik: bool, bad: u8 }
#[derive(Debug, Clone)]
enum Op { Spk(Vec<Edge>, bool), Text(Txt), Ck, Junk(u8, Vec<u8>), State(usize, usize, f64), Rot(usize, usize, f64), Leap(f64) }
/// Within one kernel a link is given in one direction: which of two opposite segments wins is left open.
fn op() -> impl Strategy<Value = Op> {
    let edge = (0usize..6, any::<bool>(), prop_oneof![3 => Just((0.0, 1.0)), 2 => (0.0f64..0.6, 0.3f64..1.0)], [-1e6f64..1e6, -1e6..1e6, -1e6..1e6], prop_oneof![1 => Just([0.0; 3]), 3 => [-1e6f64..1e6, -1e6..1e6, -1e6..1e6]]).prop_map(|(k, flip, (a, b), v, w)| { let (lo, hi) = ((a * SPAN).round(), (b.max(a + 0.05) * SPAN).round()); Edge { k, flip, lo, hi, v, w } });
    let txt = (proptest::option::of(20.0f64..40.0), proptest::collection::vec((0usize..4, 0usize..5, 0.0f64..6.28, 0u8..8), 0..3), proptest::collection::vec((0usize..2, proptest::option::weighted(0.7, (0.0f64..360.0, -90.0f64..90.0, 0.0f64..360.0))), 0..2), any::<bool>(), any::<bool>(), 0u8..14).prop_map(|(lsk, frames, pck, sclk, ik, bad)| Txt { lsk: lsk.map(f64::round), frames, pck, sclk, ik, bad });
    prop_oneof![5 => (proptest::collection::vec(edge, 1..8), any::<bool>()).prop_map(|(mut e, b)| { for i in 0..e.len() { let f = e.iter().find(|x| x.k == e[i].k).unwrap().flip; e[i].flip = f } Op::Spk(e, b) }), 4 => txt.prop_map(Op::Text), 1 => Just(Op::Ck), 1 => (0u8..5, proptest::collection::vec(any::<u8>(), 0..50)).prop_map(|(k, b)| Op::Junk(k, b)),
        8 => (0usize..7, 0usize..7, -0.05f64..1.05).prop_map(|(a, b, x)| Op::State(a, b, (x * SPAN * 8.0).round() / 8.0)), 5 => (0usize..9, 0usize..9, -1e8f64..1e8).prop_map(|(a, b, t)| Op::Rot(a, b, t)), 2 => (-1e8f64..1e8).prop_map(Op::Leap)]
}
fn bytes(edges: &[Edge], big: bool) -> Vec<u8> {
    let segs: Vec<Seg> = edges.iter().map(|e| { let (t, c) = EDGES[e.k]; let (target, center) = if e.flip { (c, t) } else { (t, c) }; Seg { target, center, frame: 1, start: e.lo, end: e.hi, pay: Pay::Cheb { comps: 3, init: e.lo, intlen: e.hi - e.lo, n: 2, coefs: vec![(0..3).flat_map(|i| [e.v[i], e.w[i]]).collect()] } } }).collect();
    spk(&Layout { big, comments: 0, per_record: 25, data_first: false, reversed: false }, &segs)
}
fn up(b: i32) -> Option<(usize, i32)> { EDGES.iter().position(|e| e.0 == b).map(|k| (k, EDGES[k].1)) }
/// Edges from a body up to the root.
fn path(mut b: i32) -> Vec<usize> { let mut v = vec![]; while let Some((k, p)) = up(b) { v.push(k); b = p } v }
/// What one kernel says of a pair (position and velocity, linear in time): the sum along the chain,
/// if every link is covered.
fn in_kernel(edges: &[Edge], t: i32, c: i32, et: f64) -> Option<[f64; 6]> {
    let (mut a, mut b) = (path(t), path(c));
    while a.last().is_some() && a.last() == b.last() { a.pop(); b.pop(); }
    let link = |k: usize, f: f64| edges.iter().rev().find(|e| e.k == k && e.lo <= et && et <= e.hi).map(|e| {
        let (f, r) = (if e.flip { -f } else { f }, (e.hi - e.lo) / 2.0);
        std::array::from_fn::<f64, 6, _>(|i| f * if i < 3 { e.v[i] + e.w[i] * (et - e.lo - r) / r } else { e.w[i - 3] / r })
    });
    let mut s = [0.0; 6];
    for (k, f) in a.into_iter().map(|k| (k, 1.0)).chain(b.into_iter().map(|k| (k, -1.0))) { let l = link(k, f)?; for i in 0..6 { s[i] += l[i] } } Some(s)
}
/// Frames 0..4 are fixed frames, 5 and 6 body-fixed, 7 J2000, 8 unknown.
const FR: [i32; 9] = [-100, -101, -102, -103, -104, 5000, 5001, 1, 77];
fn fname(i: usize) -> String { if i == 7 { "J2000".into() } else { format!("FRAME{i}") } }
#[derive(Default, Clone)]
struct Model { spk: Vec<Vec<Edge>>, lsk: Option<f64>, frames: Vec<(usize, usize, f64)>, pckfr: bool, pck: Vec<Vec<(usize, Option<(f64, f64, f64)>)>>, sclk: usize, ik: usize, ck: usize, fk: usize }
impl Model {
    fn frame(&self, i: usize, depth: usize) -> Option<M3> {
        if i == 7 { return Some(M0) } if i == 8 || depth > 9 { return None }
        if i >= 5 { if !self.pckfr { return None } let o = self.pck.iter().rev().find_map(|k| k.iter().rev().find(|b| b.0 == i - 5).and_then(|b| b.1))?; return Some(mt(&mm(&r3(o.2.to_radians()), &mm(&r1((90.0 - o.1).to_radians()), &r3((90.0 + o.0).to_radians()))))) }
        let (_, p, a) = self.frames.iter().rev().find(|f| f.0 == i)?; Some(mm(&self.frame(*p, depth + 1)?, &turn(i, *a)))
    }
}
fn turn(i: usize, a: f64) -> M3 { if i % 2 == 0 { mm(&r3(a), &r1(0.3 + i as f64)) } else { mm(&r2(a), &r3(1.0)) } }
fn text(t: &Txt, m: &mut Model) -> (String, bool) {
    let mut o = String::from("KPL/MK\n\\begindata\n"); let mut good = true;
    if let Some(d) = t.lsk { o += &format!("DELTET/DELTA_T_A = 32.184\nDELTET/DELTA_AT = ( {d}, @1972-JAN-1 )\n"); m.lsk = Some(d) }
    let mut seen = vec![];
    for (i, p, a, k) in &t.frames {
        if seen.contains(i) { continue } seen.push(*i); let p = if *p == 4 { [7, 5, 6, 4, 7][*k as usize % 5] } else { *p }; let id = FR[*i]; let m9 = turn(*i, *a);
        o += &format!("FRAME_{id}_NAME = '{}'\nFRAME_{id}_CLASS = 4\nFRAME_{id}_CLASS_ID = {id}\nFRAME_{id}_CENTER = 399\nTKFRAME_{id}_SPEC = 'MATRIX'\nTKFRAME_{id}_RELATIVE = '{}'\nTKFRAME_{id}_MATRIX = ( ", fname(*i), fname(p));
        for c in 0..3 { for r in 0..3 { o += &format!("{:?} ", m9[r][c]) } } o += ")\n"; m.frames.push((*i, p, *a));
    }
    if !t.pck.is_empty() {
        for j in 0..2 { let id = FR[5 + j]; o += &format!("FRAME_{id}_NAME = '{}'\nFRAME_{id}_CLASS = 2\nFRAME_{id}_CLASS_ID = {}\nFRAME_{id}_CENTER = 399\n", fname(5 + j), [399, 301][j]) } m.pckfr = true;
        for (b, v) in &t.pck { let id = [399, 301][*b]; o += &format!("BODY{id}_RADII = ( 1 2 3 )\n"); if let Some((a, d, w)) = v { o += &format!("BODY{id}_POLE_RA = ( {a:?} 0. )\nBODY{id}_POLE_DEC = ( {d:?} )\nBODY{id}_PM = {w:?}\n") } }
        m.pck.push(t.pck.clone());
    }
    if !t.frames.is_empty() || !t.pck.is_empty() { m.fk += 1 }
    if t.sclk { o += "SCLK01_COEFFICIENTS_82 = ( 0 0 1 )\n"; m.sclk += 1 }
    if t.ik { o += "INS-82000_FOV_SHAPE = 'CIRCLE'\n"; m.ik += 1 }
    // A defect in one part of the kernel spoils all of it.
    match t.bad { 0 => { o += "BODY7_RADII = 'x'\n"; good = false } 1 => { o += "INS-1_FOV_SHAPE = 3\n"; good = false } 2 => { o += "SCLK01_COEFFICIENTS_9 = ( 1 2 )\n"; good = false } 3 => { o += "FRAME_9_NAME = 'N'\n"; good = false } _ => {} }
    (o, good)
}
fn state_of(r: Result<[f64; 6], impl std::fmt::Display>) -> Result<[f64; 6], String> { r.map_err(|e| e.to_string()) }

fn main() {
    let mut c = Check::new("C28", "histories with at least two loads and a query that is answered");
    c.prop("queries over a history of loads", 120_000, || proptest::collection::vec(op(), 2..28), |ops| {
        let mut ctx = SpiceContext::new(); let mut m = Model::default(); let mut answered = 0; let mut loads = 0; let mut refused = 0;
        for (n, op) in ops.iter().enumerate() {
            match op {
                Op::Spk(e, big) => { np("load", || ctx.load_bytes(format!("k{n}"), bytes(e, *big)))?.map_err(|e| format!("step {n}: {e}"))?; m.spk.push(e.clone()); loads += 1 }
                Op::Text(t) => { let mut m2 = m.clone(); let (s, good) = text(t, &mut m2); let r = np("load", || ctx.load_bytes(format!("k{n}"), s.clone().into_bytes()))?; ensure!(r.is_ok() == good, "step {n}: loading gave {:?}\n{s}", r.err().map(|e| e.to_string())); if good { m = m2; loads += 1 } else { refused += 1 } }
                Op::Ck => { let b = daf(b"DAF/CK  ", 2, 6, &Layout { big: n % 2 == 0, comments: 0, per_record: 25, data_first: false, reversed: false }, &[(vec![0.0, 1.0], vec![-82_000, 1, 1, 0], vec![0.0, 1.0, 0.0, 0.0, 0.0, 1.0])]); ctx.load_bytes(format!("k{n}"), b).map_err(|e| format!("step {n}: {e}"))?; m.ck += 1 }
                Op::Junk(k, b) => { let mut v = match k { 0 => b"DAF/DSK ".to_vec(), 1 => b"DAF/PCK ".to_vec(), 2 => b"DAF/SPK ".to_vec(), 3 => b"DAF/CK  ".to_vec(), _ => vec![0xFF, 0xFE] }; v.extend(b); ensure!(np("load", || ctx.load_bytes("junk", v))?.is_err(), "step {n}: junk is loaded"); refused += 1 }
                Op::State(a, b, et) => {
                    let (t, c) = (BODIES[*a], BODIES[*b]); let got = np("state_naif", || state_of(ctx.state_naif(t, c, *et)))?;
                    let want = if t == c { Some([0.0; 6]) } else { m.spk.iter().rev().find_map(|k| in_kernel(k, t, c, *et)) };
                    match (&got, want) {
                        // A body relative to itself is answered, or refused by an empty pool.
                        (_, Some(_)) if t == c => if let Ok(g) = got { ensure!(g == [0.0; 6], "step {n}: {t} about itself is {g:?}") },
                        (Ok(g), Some(w)) => { answered += 1; ensure!((0..3).all(|i| (g[i] - w[i]).abs() < 1e-6) && (3..6).all(|i| (g[i] - w[i]).abs() < 1e-9), "step {n}: state of {t} about {c} at {et}: {g:?} instead of {w:?}");
                            let near = m.spk.iter().flatten().any(|e| (e.lo - et).abs() < 0.01 || (e.hi - et).abs() < 0.01);
                            if !near { let tt = Time::<TDB>::from_raw_j2000_seconds(qtty::time::Seconds::new(*et)).map_err(|e| format!("{e:?}"))?;
                                let (p, v) = ctx.state_typed::<Geocentric>(t, c, tt).map_err(|e| format!("step {n}: typed: {e}"))?;
                                // An epoch keeps its seconds to some tens of microseconds.
                                let d = [p.x().value(), p.y().value(), p.z().value(), v.x().value(), v.y().value(), v.z().value()];
                                ensure!((0..3).all(|i| (d[i] - g[i]).abs() < 1e-6 + 1e-4 * g[i + 3].abs() && (d[i + 3] - g[i + 3]).abs() < 1e-9), "step {n}: the typed state is {d:?} instead of {g:?}"); } }
                        (Err(_), None) => {}
                        (g, w) => return Err(format!("step {n}: state of {t} about {c} at {et}: {g:?} instead of {w:?}")),
                    }
                }
                Op::Rot(a, b, t) => {
                    let got = np("rotation_naif", || ctx.rotation_naif(FR[*a], FR[*b], *t).map_err(|e| e.to_string()))?;
                    if a == b { ensure!(got == Ok(M0), "step {n}: a frame to itself: {got:?}"); continue }
                    match (got, m.frame(*a, 0), m.frame(*b, 0)) {
                        (Ok(g), Some(x), Some(y)) => { answered += 1; let w = mm(&mt(&y), &x); ensure!(mdiff(&g, &w) < 1e-12, "step {n}: {} to {}: {g:?} instead of {w:?}", FR[*a], FR[*b]) }
                        (Err(_), x, y) if x.is_none() || y.is_none() => {}
                        (g, x, y) => return Err(format!("step {n}: {} to {}: {g:?}, the definitions give {x:?} and {y:?}", FR[*a], FR[*b])),
                    }
                }
                Op::Leap(t) => { let g = ctx.tai_minus_utc(*t).ok(); ensure!(g == m.lsk, "step {n}: TAI-UTC {g:?} instead of {:?}", m.lsk); ensure!(ctx.tdb_minus_utc(*t).ok().map(|v| (v - 32.184 - m.lsk.unwrap_or(0.0)).abs() < 2e-3) == m.lsk.map(|_| true), "step {n}: TDB-UTC"); answered += usize::from(g.is_some()) }
            }
            let k = ctx.kernel_set();
            ensure!((k.spk_count(), k.ck_count(), k.has_lsk(), k.fk_kernels().count(), k.pck_text_kernels().count(), k.sclk_kernels().count()) == (m.spk.len(), m.ck, m.lsk.is_some(), m.fk, m.pck.len(), m.sclk), "step {n}: the pool holds {} SPK, {} CK, {} FK, {} PCK, {} SCLK", k.spk_count(), k.ck_count(), k.fk_kernels().count(), k.pck_text_kernels().count(), k.sclk_kernels().count());
        }
        Ok(if answered == 0 || loads < 2 { "-nothing answered" } else if refused > 0 { "with refused kernels" } else { "good kernels only" })
    });

    c.prop("one kernel through every provider", 60_000, || (op().prop_filter("spk", |o| matches!(o, Op::Spk(..))), proptest::collection::vec((0usize..7, 0usize..3, 0.0f64..1.0), 1..6)), |(op, qs)| {
        let Op::Spk(e, big) = op else { return Ok("-") };
        let b = bytes(e, *big); let k = std::sync::Arc::new(SpkKernel::from_bytes(b.clone()).map_err(|e| e.to_string())?);
        let mut ctx = SpiceContext::new();
        if qs.len() == 1 {
            let f = Scratch::new("k.bsp", &b)?;
            ensure!(np("load", || ctx.load(f.beside("none.bsp")))?.is_err() && ctx.kernel_set().spk_count() == 0, "a file that is not there is loaded");
            np("load", || ctx.load(f.path()))?.map_err(|e| e.to_string())?;
        } else { ctx.load_bytes("k", b).map_err(|e| e.to_string())? }
        let mut ok = 0;
        for (t, c, x) in qs {
            let (t, c, et) = (BODIES[*t], [0, 3, 399][*c], (x * SPAN).round()); if t == c { continue }
            let (a, d) = (k.state(t, c, et).ok(), ctx.state_naif(t, c, et).ok());
            let flat = |s: siderust::pod::spice::SpiceState<Barycentric>| [s.position.x().value(), s.position.y().value(), s.position.z().value(), s.velocity_km_s.x().value(), s.velocity_km_s.y().value(), s.velocity_km_s.z().value()];
            let p = SpiceEphemerisProvider::<Barycentric>::from_arc(k.clone(), c); let q = p.clone();
            ensure!(p.center_naif_id() == c && q.center_naif_id() == c, "provider centre");
            let f = p.state(t, et).ok().map(flat); let g = q.state(t, et).ok().map(flat);
            ensure!(a == d && a == f && a == g, "{t} about {c} at {et}: kernel {a:?}, context {d:?}, provider {f:?}");
            ensure!(a.is_some() == in_kernel(e, t, c, et).is_some(), "{t} about {c} at {et}: {a:?}");
            if a.is_some() { ok += 1; let back = k.state(c, t, et).map_err(|e| e.to_string())?; let a = a.unwrap(); ensure!((0..3).all(|i| (back[i] + a[i]).abs() < 1e-6), "the reverse state is {back:?}") }
        }
        Ok(if ok == 0 { "-nothing covered" } else { "covered" })
    });
    c.finish()
}
