//! C27: SPICE text kernels, clocks, frames, orientation, instruments and attitude kernels.
use proptest::prelude::*;
use siderust::formats::sck::parse_sck;
use siderust::formats::spice::text::TextValue;
use siderust::formats::spice::{ck, fk, ik, lsk, naif_id_for_name, pck, sclk, TextKernel};
use siderust::spice::SpiceContext;
use std::collections::HashMap;
use vharness::refs::*;
use vharness::*;

// ---- an independent text-kernel writer -------------------------------------------------
#[derive(Debug, Clone, PartialEq)]
enum Val { Int(i64), Flt(String, f64), Str(String), Date(String), Arr(Vec<Val>) }
#[derive(Debug, Clone)]
struct Stmt { key: String, append: bool, val: Val }
/// Free choices of layout, consumed one after another.
struct Lay<'a>(&'a [u8], usize);
impl Lay<'_> { fn pick(&mut self, n: u8) -> u8 { let v = self.0[self.1 % self.0.len()]; self.1 += 1; v.wrapping_add((self.1 / self.0.len()) as u8) % n } }
fn word(v: &Val, l: &mut Lay, out: &mut String) {
    match v {
        Val::Int(i) => *out += &i.to_string(), Val::Flt(t, _) => *out += t, Val::Date(d) => *out += d,
        Val::Str(s) => { *out += "'"; *out += &s.replace('\'', "''"); *out += "'" }
        Val::Arr(a) => { *out += ["(", "( ", "(\n  "][l.pick(3) as usize]; for (i, x) in a.iter().enumerate() { if i > 0 { *out += [" ", ", ", ",", "  ", "\n    ", ",\n", " , "][l.pick(7) as usize] } word(x, l, out) } *out += [")", " )", "\n)"][l.pick(3) as usize] }
    }
}
fn write(stmts: &[Stmt], lay: &[u8]) -> String {
    let mut l = Lay(lay, 0); let mut o = String::new();
    o += ["", "KPL/PCK\n", "KPL/LSK\n\n  X = 5\n"][l.pick(3) as usize];
    let mut open = false;
    for s in stmts {
        if open && l.pick(5) == 0 { o += "\\begintext\n"; open = false; o += ["", "comment text\n", "IGNORED = ( 1 2\n", "it's (not) data\n\n"][l.pick(4) as usize] }
        if !open { o += ["\\begindata\n", "   \\begindata\n", "\\begindata  \n\n"][l.pick(3) as usize]; open = true }
        o += ["", "   ", "\t"][l.pick(3) as usize]; o += &s.key; o += ["", " ", "   "][l.pick(3) as usize]; o += if s.append { "+=" } else { "=" }; o += ["", " ", "  "][l.pick(3) as usize];
        word(&s.val, &mut l, &mut o); o += ["\n", " \n", "\n\n", " /* note (1 */\n", "\n/* X = 1 */\n", "/* a *//* b */ \n  /* it's */\n"][l.pick(6) as usize];
    }
    if l.pick(2) == 0 { o += "\\begintext\nthe end = (\n" }
    if l.pick(4) == 0 { o = o.replace('\n', "\r\n") }
    o
}
fn flt() -> impl Strategy<Value = Val> {
    (any::<bool>(), -1e6f64..1e6, -30i32..30, 0u8..7).prop_map(|(neg, m, e, k)| {
        let a = (m / 1e5).abs(); let sg = if neg { "-" } else { "" };
        let t = match k { 0 => format!("{sg}{a:.3}"), 1 => format!("{sg}{a:.12}E{e:+03}"), 2 => format!("{sg}{a:.9}D{e}"), 3 => format!("{sg}{a:.6}d{e:+}"), 4 => format!("{sg}.{}", (a * 1e4) as u32), 5 => format!("{sg}{}.", (a * 1e4) as u32), _ => format!("{sg}{a:.4}e{e}") };
        let v = t.replace(['D', 'd'], "E").parse().unwrap(); Val::Flt(t, v)
    })
}
fn num() -> impl Strategy<Value = Val> { prop_oneof![(-100_000i64..100_000).prop_map(Val::Int), any::<i64>().prop_map(Val::Int), flt(), flt()] }
const MON: [&str; 12] = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"];
fn scalar() -> impl Strategy<Value = Val> { prop_oneof![4 => num(), 2 => "[A-Za-z0-9 _=+(),.'-]{0,16}".prop_map(Val::Str), 1 => (1950i32..2100, 0usize..12, 1u8..29).prop_map(|(y, m, d)| Val::Date(format!("@{y}-{}-{d}", MON[m])))] }
fn val() -> impl Strategy<Value = Val> { prop_oneof![3 => scalar(), 3 => proptest::collection::vec(scalar(), 1..12).prop_map(Val::Arr), 2 => proptest::collection::vec(num(), 1..30).prop_map(Val::Arr)] }
fn lay() -> impl Strategy<Value = Vec<u8>> { proptest::collection::vec(any::<u8>(), 1..40) }
fn same(a: &TextValue, b: &Val) -> bool {
    match (a, b) { (TextValue::Integer(x), Val::Int(y)) => x == y, (TextValue::Float(x), Val::Flt(_, y)) => x == y, (TextValue::Text(x), Val::Str(y)) => x == y, (TextValue::Text(x), Val::Date(y)) => x == y,
        (TextValue::Array(x), Val::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)), _ => false }
}
fn n(v: f64) -> Val { Val::Flt(format!("{v:?}"), v) }
fn set(key: String, val: Val) -> Stmt { Stmt { key, append: false, val } }
fn arr(v: &[f64]) -> Val { Val::Arr(v.iter().map(|x| n(*x)).collect()) }
fn days(y: i64, m: i64, d: i64) -> i64 { let (y, m) = if m < 3 { (y - 1, m + 12) } else { (y, m) }; 365 * y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + (153 * (m - 3) + 2) / 5 + d - 730_426 } // days from 2000 Jan 1
const LEAPS: [(i64, i64, f64); 28] = [(1972, 1, 10.), (1972, 7, 11.), (1973, 1, 12.), (1974, 1, 13.), (1975, 1, 14.), (1976, 1, 15.), (1977, 1, 16.), (1978, 1, 17.), (1979, 1, 18.), (1980, 1, 19.), (1981, 7, 20.), (1982, 7, 21.), (1983, 7, 22.), (1985, 7, 23.), (1988, 1, 24.), (1990, 1, 25.), (1991, 1, 26.), (1992, 7, 27.), (1993, 7, 28.), (1994, 7, 29.), (1996, 1, 30.), (1997, 7, 31.), (1999, 1, 32.), (2006, 1, 33.), (2009, 1, 34.), (2012, 7, 35.), (2015, 7, 36.), (2017, 1, 37.)];

// ---- rotations ---------------------------------------------------------------------------
fn rot() -> impl Strategy<Value = M3> { (0.0f64..7.0, 0.0f64..3.2, 0.0f64..7.0).prop_map(|(a, b, c)| mm(&r3(a), &mm(&r1(b), &r3(c)))) }
#[derive(Debug, Clone)]
struct Orient { ra: Vec<f64>, dec: Vec<f64>, pm: Vec<f64>, radii: Option<Vec<f64>> }
fn orient() -> impl Strategy<Value = Orient> {
    let d = |a: f64, r: f64| (-a..a, -r..r, 0u8..4).prop_map(|(a, r, k)| match k { 0 => vec![a], 1 => vec![a, r], _ => vec![a, r, 0.0] });
    (d(360.0, 3.0), d(90.0, 3.0), d(360.0, 2000.0), proptest::option::of(proptest::collection::vec(0.1f64..7e4, 2..4))).prop_map(|(ra, dec, pm, radii)| Orient { ra, dec, pm, radii })
}
impl Orient {
    fn at(&self, et: f64) -> (f64, f64, f64) { let l = |v: &[f64], x: f64| (v[0] + v.get(1).unwrap_or(&0.0) * x).to_radians(); (l(&self.ra, et / 3_155_760_000.0), l(&self.dec, et / 3_155_760_000.0), l(&self.pm, et / 86400.0)) }
    /// Columns: the body axes in J2000, built from the pole and the node.
    fn to_j2000(&self, et: f64) -> M3 {
        let (ra, dec, w) = self.at(et);
        let pole = sph(ra, dec); let node = [-ra.sin(), ra.cos(), 0.0]; let q = cross(pole, node);
        let x = add(scale(node, w.cos()), scale(q, w.sin())); let y = cross(pole, x); mt(&[x, y, pole])
    }
    fn stmts(&self, id: i32) -> Vec<Stmt> {
        let mut v = vec![set(format!("BODY{id}_POLE_RA"), arr(&self.ra)), set(format!("BODY{id}_POLE_DEC"), arr(&self.dec)), set(format!("BODY{id}_PM"), arr(&self.pm))];
        if let Some(r) = &self.radii { v.push(set(format!("BODY{id}_RADII"), arr(r))) } v
    }
}
fn et() -> impl Strategy<Value = f64> { prop_oneof![3 => -3e9f64..3e9, 1 => -1e5f64..1e5, 1 => Just(0.0)] }

// ---- quaternions -----------------------------------------------------------------------------
type Q = [f64; 4];
fn qmul(a: Q, b: Q) -> Q { [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]] }
fn qrot(axis: V3, ang: f64) -> Q { let (s, c) = (ang / 2.0).sin_cos(); [c, axis[0] * s, axis[1] * s, axis[2] * s] }
fn qdist(a: Q, b: Q) -> f64 { let d = |s: f64| (0..4).map(|i| (a[i] - s * b[i]).powi(2)).sum::<f64>().sqrt(); d(1.0).min(d(-1.0)) }
#[derive(Debug, Clone)]
struct CkSeg { inst: i32, frame: i32, t: Vec<f64>, q: Vec<Q>, turn: Vec<(V3, f64)>, flip: Vec<f64>, order: Vec<usize>, ty: i32, pad: (f64, f64) }
fn ckseg() -> impl Strategy<Value = CkSeg> {
    (0usize..3, 1usize..30, 0.0f64..1e6, gen::unit_vec(), 0.0f64..6.2, 0u8..6, (0.0f64..1.0, 0.0f64..1.0)).prop_flat_map(|(inst, k, t0, ax, an, ty, cut)| {
        (proptest::collection::vec((gen::unit_vec(), prop_oneof![0.0f64..3.0, 0.0f64..0.05, Just(0.0)], 0.5f64..5000.0, prop_oneof![Just(1.0), Just(-1.0), Just(2.5)]), k), Just((0..k).collect::<Vec<_>>()).prop_shuffle(), any::<bool>()).prop_map(move |(steps, order, sorted)| {
            let (mut t, mut q) = (vec![t0.round()], vec![qrot(ax, an)]);
            for s in &steps[1..] { let i = t.len() - 1; t.push((t[i] + s.2).round().max(t[i] + 1.0)); q.push(qmul(q[i], qrot(s.0, s.1))) }
            let span = t[k - 1] - t[0]; let pad = if ty == 0 { (cut.0 * 0.3 * span, cut.1 * 0.3 * span) } else { (0.0, 0.0) };
            CkSeg { inst: [-82_000, -82_001, -1000][inst], frame: 1, t, q, turn: steps.iter().skip(1).map(|s| (s.0, s.1)).collect(), flip: steps.iter().map(|s| s.3).collect(), order: if sorted { (0..k).collect() } else { order }, ty: if ty == 5 { 3 } else { 1 }, pad }
        })
    })
}
impl CkSeg {
    fn start(&self) -> f64 { self.t[0] + self.pad.0 }
    fn end(&self) -> f64 { self.t[self.t.len() - 1] - self.pad.1 }
    fn words(&self) -> Vec<f64> { self.order.iter().flat_map(|&i| [self.t[i], self.q[i][0] * self.flip[i], self.q[i][1] * self.flip[i], self.q[i][2] * self.flip[i], self.q[i][3] * self.flip[i]]).chain([self.t.len() as f64]).collect() }
    /// The turn between neighbouring records at constant rate about a fixed axis.
    fn at(&self, x: f64) -> Q { let i = self.t.partition_point(|t| *t <= x).clamp(1, self.t.len().max(2) - 1) - 1; if self.t.len() == 1 { return self.q[0] } let f = (x - self.t[i]) / (self.t[i + 1] - self.t[i]); qmul(self.q[i], qrot(self.turn[i].0, self.turn[i].1 * f)) }
}
fn layout() -> impl Strategy<Value = spk::Layout> { (any::<bool>(), 0usize..3, 1usize..26, any::<bool>(), any::<bool>()).prop_map(|(big, comments, per_record, data_first, reversed)| spk::Layout { big, comments, per_record, data_first, reversed }) }

fn main() {
    let mut c = Check::new("C27", "kernels with several items, queries strictly inside what the kernel defines");

    c.prop("text kernels are returned as assigned", 60_000, || (proptest::collection::vec((0usize..8, proptest::bool::weighted(0.3), val()), 1..16), lay()), |(items, l)| {
        const KEYS: [&str; 8] = ["BODY399_RADII", "A", "DELTET/DELTA_AT", "FRAME_-82_NAME", "INS-82000_FOV_SHAPE", "X.Y", "SCLK01_COEFFICIENTS_82", "LONG_NAME_OF_A_VARIABLE_12"];
        let stmts: Vec<Stmt> = items.iter().map(|(k, a, v)| Stmt { key: KEYS[*k].into(), append: *a, val: v.clone() }).collect();
        let mut want: HashMap<String, Val> = HashMap::new();
        for s in &stmts {
            if !s.append { want.insert(s.key.clone(), s.val.clone()); continue }
            let mut v = match want.remove(&s.key) { Some(Val::Arr(v)) => v, Some(x) => vec![x], None => vec![] };
            match &s.val { Val::Arr(a) => v.extend(a.iter().cloned()), x => v.push(x.clone()) } want.insert(s.key.clone(), Val::Arr(v));
        }
        let text = write(&stmts, l);
        let k = np("TextKernel::parse", || TextKernel::parse(&text))?.map_err(|e| format!("refused: {e}\n{text}"))?;
        ensure!(k.data.len() == want.len(), "{} variables instead of {}\n{text}", k.data.len(), want.len());
        for (key, v) in &want {
            let got = k.get(&key.to_ascii_lowercase()).ok_or_else(|| format!("{key} missing\n{text}"))?;
            ensure!(same(got, v), "{key}: {got:?} instead of {v:?}\n{text}");
            let flat: Vec<&Val> = match v { Val::Arr(a) => a.iter().collect(), x => vec![x] };
            let f: Option<Vec<f64>> = flat.iter().map(|x| match x { Val::Int(i) => Some(*i as f64), Val::Flt(_, f) => Some(*f), _ => None }).collect();
            ensure!(k.get_f64_array(key) == f, "{key}: get_f64_array {:?} instead of {f:?}", k.get_f64_array(key));
            let i: Option<Vec<i64>> = flat.iter().map(|x| match x { Val::Int(i) => Some(*i), _ => None }).collect();
            ensure!(k.get_i64_array(key) == i, "{key}: get_i64_array {:?} instead of {i:?}", k.get_i64_array(key));
        }
        Ok(if items.len() == 1 { "-one variable" } else if items.iter().any(|i| i.1) { "with appends" } else { "assignments" })
    });

    c.prop("leap-second tables", 30_000, || (0usize..27, 1usize..29, prop_oneof![2 => -0.9e9f64..1.6e9, 3 => -70.0f64..70.0], any::<proptest::sample::Index>(), lay()), |(from, k, x, ix, l)| {
        let table = &LEAPS[*from..(*from + *k).min(LEAPS.len())];
        let da = Val::Arr(table.iter().flat_map(|(y, m, d)| [Val::Int(*d as i64), Val::Date(format!("@{y}-{}-1", MON[*m as usize - 1]))]).collect());
        let text = write(&[set("DELTET/DELTA_T_A".into(), n(32.184)), set("DELTET/K".into(), Val::Flt("1.657D-3".into(), 1.657e-3)), set("DELTET/DELTA_AT".into(), da)], l);
        let kern = np("LeapSecondKernel::from_text", || lsk::LeapSecondKernel::from_text(&text))?.map_err(|e| format!("refused: {e}\n{text}"))?;
        // The instant each offset comes into force, in TDB seconds past J2000 (2000 Jan 1 12h).
        let at: Vec<f64> = table.iter().map(|(y, m, d)| days(*y, *m, 1) as f64 * 86400.0 - 43200.0 + 32.184 + d).collect();
        let q = if x.abs() < 71.0 { at[ix.index(at.len())] + x } else { *x };
        if at.iter().any(|t| (t - q).abs() < 0.01) { return Ok("-at the step itself") }
        let Some(i) = at.iter().rposition(|t| *t < q) else { return Ok("-before the table") };
        let (a, b) = (kern.tai_minus_utc_at(q), kern.tdb_minus_utc_at(q));
        ensure!(a == table[i].2, "TAI-UTC at {q} s is {a} instead of {}", table[i].2);
        ensure!((b - a - 32.184).abs() < 2e-3, "TDB-UTC at {q} s is {b}");
        let mut ctx = SpiceContext::new(); ctx.load_bytes("lsk", text.clone().into_bytes()).map_err(|e| e.to_string())?;
        ensure!(ctx.tai_minus_utc(q).ok() == Some(a) && ctx.tdb_minus_utc(q).ok() == Some(b), "the context differs from the kernel");
        Ok(if x.abs() < 71.0 { "near a step" } else { "far from steps" })
    });

    c.prop("leap-second tables of any dates", 20_000, || (proptest::collection::vec((1901i64..2100, 1i64..13, 1i64..32, any::<bool>(), 0u8..4), 1..20), any::<proptest::sample::Index>(), any::<u64>(), prop_oneof![-70.0f64..70.0, -2e8f64..2e8], 0u8..8, lay()), |(steps, ix, order, x, spoil, l)| {
        let len = |y: i64, m: i64| days(if m == 12 { y + 1 } else { y }, m % 12 + 1, 1) - days(y, m, 1);
        // Distinct dates, offsets counted along the calendar, listed in any order.
        let mut dates: Vec<(i64, i64, i64)> = steps.iter().map(|s| (s.0, s.1, if s.3 { len(s.0, s.1) } else { s.2.min(len(s.0, s.1)) })).collect();
        dates.sort(); dates.dedup();
        let mut table = vec![]; let mut d = 10.0;
        for (k, t) in dates.iter().enumerate() { d += if steps[k].4 == 0 { -1.0 } else { 1.0 }; table.push((*t, d)) }
        let mut listed = table.clone(); let mut r = *order; for i in (1..listed.len()).rev() { listed.swap(i, (r % (i as u64 + 1)) as usize); r /= 3 }
        let at = |t: (i64, i64, i64), d: f64| days(t.0, t.1, t.2) as f64 * 86400.0 - 43200.0 + 32.184 + d;
        let date = |t: (i64, i64, i64), k: usize| { let m = MON[t.1 as usize - 1]; let m = match k % 3 { 0 => m.to_string(), 1 => m.to_lowercase(), _ => format!("{}{}", &m[..1], m[1..].to_lowercase()) }; match k % 2 { 0 => format!("@{}-{m}-{}", t.0, t.2), _ => format!("@{}-{m}-{:02}", t.0, t.2) } };
        let build = |dates: Vec<String>| write(&[set("DELTET/DELTA_T_A".into(), n(32.184)), set("DELTET/DELTA_AT".into(), Val::Arr(listed.iter().zip(dates).flat_map(|((_, d), t)| [Val::Int(*d as i64), Val::Date(t)]).collect()))], l);
        let good: Vec<String> = listed.iter().enumerate().map(|(k, (t, _))| date(*t, k)).collect();
        if *spoil < 3 {
            // A date that does not exist is refused.
            let (i, mut bad) = (ix.index(good.len()), good.clone()); let t = listed[i].0;
            bad[i] = match spoil { 0 => format!("@{}-{}-{}", t.0, MON[t.1 as usize - 1], len(t.0, t.1) + 1), 1 => format!("@{}-{}-0", t.0, MON[t.1 as usize - 1]), _ => format!("@{}-{}-{}", t.0, ["JANUARY", "XYZ", "13", "JU"][(t.2 % 4) as usize], t.2) };
            let text = build(bad);
            ensure!(np("LeapSecondKernel::from_text", || lsk::LeapSecondKernel::from_text(&text))?.is_err(), "accepted\n{text}");
            return Ok("impossible date")
        }
        let text = build(good);
        let kern = np("LeapSecondKernel::from_text", || lsk::LeapSecondKernel::from_text(&text))?.map_err(|e| format!("refused: {e}\n{text}"))?;
        let (t, d) = table[ix.index(table.len())]; let q = at(t, d) + x;
        if table.iter().any(|(t, d)| (at(*t, *d) - q).abs() < 0.01) { return Ok("-at the step itself") }
        let Some(i) = table.iter().rposition(|(t, d)| at(*t, *d) < q) else { return Ok("-before the table") };
        ensure!(kern.tai_minus_utc_at(q) == table[i].1, "TAI-UTC at {q} s is {} instead of {}\n{text}", kern.tai_minus_utc_at(q), table[i].1);
        Ok(if x.abs() < 71.0 { "near a step" } else { "far from steps" })
    });
    c.prop("spacecraft clocks", 30_000, || (proptest::collection::vec((proptest::collection::vec((0.99f64..1.01, 1.0f64..1e7), 1..8), prop_oneof![Just(256.0), Just(1000.0), Just(65536.0), Just(2560.0)], -1e9f64..1e9, any::<bool>(), any::<bool>()), 1..3), -0.2f64..1.3, lay()), |(clocks, x, l)| {
        let mut stmts = vec![]; let mut want = vec![];
        for (k, (parts, m, et0, two, neg)) in clocks.iter().enumerate() {
            let id = [82, 98][k]; let mut rows = vec![(0.0, et0.round(), parts[0].0)];
            for w in parts.windows(2) { let p = rows[rows.len() - 1]; let counts = w[0].1.round(); rows.push((p.0 + counts * m, p.1 + counts * p.2, w[1].0)) }
            let lab = if *neg { format!("-{id}") } else { id.to_string() };
            stmts.push(set(format!("SCLK01_COEFFICIENTS_{lab}"), arr(&rows.iter().flat_map(|r| [r.0, r.1, r.2]).collect::<Vec<_>>())));
            stmts.push(set(format!("SCLK01_MODULI_{id}"), if *two { arr(&[4_294_967_296.0, *m / 2.0, 2.0]) } else { arr(&[4_294_967_296.0, *m]) }));
            stmts.push(set(format!("SCLK01_TIME_SYSTEM_{id}"), Val::Int(1)));
            want.push((-id, rows, *m));
        }
        let text = write(&stmts, l);
        let ks = np("SclkKernel::from_text", || sclk::SclkKernel::from_text(&text))?.map_err(|e| format!("refused: {e}\n{text}"))?;
        ensure!(ks.len() == want.len(), "{} clocks instead of {}", ks.len(), want.len());
        for (id, rows, m) in &want {
            let k = ks.iter().find(|k| k.sc_id == *id).ok_or_else(|| format!("clock {id} missing among {:?}\n{text}", ks.iter().map(|k| k.sc_id).collect::<Vec<_>>()))?;
            for r in rows {
                let (t, e) = (k.et_to_sclkdp(r.1).map_err(|e| e.to_string())?, k.sclkdp_to_et(r.0).map_err(|e| e.to_string())?);
                ensure!(close(t, r.0, m * 1e-5, 1e-12) && close(e, r.1, 1e-5, 1e-12), "clock {id}: a line starts at {} s, tick {}, read as tick {t} and {e} s\n{text}", r.1, r.0);
            }
            let last = rows[rows.len() - 1]; let span = last.1 - rows[0].1 + 1e6; let q = rows[0].1 + x * span;
            if q < rows[0].1 { ensure!(k.et_to_sclkdp(q).is_err() && k.sclkdp_to_et(-1.0).is_err(), "a time before the clock started is accepted"); continue }
            let r = rows.iter().rev().find(|r| r.1 <= q).unwrap(); let ticks = r.0 + (q - r.1) / r.2 * m;
            let got = k.et_to_sclkdp(q).map_err(|e| e.to_string())?; let back = k.sclkdp_to_et(ticks).map_err(|e| e.to_string())?;
            ensure!(close(got, ticks, m * 1e-5, 1e-12), "clock {id}: {q} s is tick {got} instead of {ticks}\n{text}");
            ensure!(close(back, q, 1e-5, 1e-12), "clock {id}: tick {ticks} is {back} s instead of {q}");
        }
        Ok(if *x < 0.0 { "before the clock" } else if clocks.len() > 1 { "two clocks" } else { "one clock" })
    });

    c.prop("body orientation", 30_000, || (proptest::collection::vec(orient(), 1..4), et(), lay()), |(bodies, t, l)| {
        let ids = [399, 301, 499]; let stmts: Vec<Stmt> = bodies.iter().zip(ids).flat_map(|(b, id)| b.stmts(id)).collect();
        let text = write(&stmts, l);
        let k = np("PckKernel::from_text", || pck::PckKernel::from_text(&text))?.map_err(|e| format!("refused: {e}\n{text}"))?;
        ensure!(k.bodies.len() == bodies.len() && k.body(-5).is_none(), "{} bodies", k.bodies.len());
        for (b, id) in bodies.iter().zip(ids) {
            let o = k.body(id).ok_or("a body is missing")?;
            ensure!(o.pole_ra == b.ra && o.pole_dec == b.dec && o.pm == b.pm, "coefficients {o:?}");
            let radii = b.radii.as_ref().map(|r| [r[0], if r.len() == 3 { r[1] } else { r[0] }, r[r.len() - 1]]);
            ensure!(o.radii == radii, "radii {:?} instead of {radii:?}", o.radii);
            let (got, want) = (o.rotation_to_j2000(*t), b.to_j2000(*t));
            ensure!(mdiff(&got, &want) < 1e-12 + 1e-15 * b.at(*t).2.abs(), "body {id} at {t}: rotation to J2000 {got:?} instead of {want:?}");
        }
        Ok(if *t == 0.0 { "at J2000" } else { "general epoch" })
    });

    c.prop("frame kernels and the rotations they define", 20_000, || (proptest::collection::vec((rot(), any::<proptest::sample::Index>(), 0u8..9), 1..9), orient(), et(), lay(), any::<bool>()), |(frames, o, t, l, split)| {
        // Frame 1 is J2000, 3000 a body-fixed frame; every other frame hangs on an earlier one.
        let mut known: Vec<(i32, String, Option<M3>)> = vec![(1, "J2000".into(), Some([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])), (3000, "IAU_TEST".into(), Some(o.to_j2000(*t)))];
        let head = |id: i32, name: &str, class: i64, cid: i64| vec![set(format!("FRAME_{name}"), Val::Int(i64::from(id))), set(format!("FRAME_{id}_NAME"), Val::Str(name.into())), set(format!("FRAME_{id}_CLASS"), Val::Int(class)), set(format!("FRAME_{id}_CLASS_ID"), Val::Int(cid)), set(format!("FRAME_{id}_CENTER"), Val::Int(399))];
        let mut groups = vec![head(3000, "IAU_TEST", 2, 399)];
        for (i, (m, p, kind)) in frames.iter().enumerate() {
            let id = -82_000 - i as i32; let name = format!("FR_{i}"); let p = p.index(known.len());
            if *kind == 0 { groups.push(head(id, &name, 3, i64::from(id))); known.push((id, name, None)); continue }
            let mut g = head(id, &name, 4, i64::from(id));
            let cols: Vec<f64> = (0..3).flat_map(|c| (0..3).map(move |r| m[r][c])).collect();
            g.extend([set(format!("TKFRAME_{id}_SPEC"), Val::Str("MATRIX".into())), set(format!("TKFRAME_{id}_RELATIVE"), Val::Str(known[p].1.clone())), set(format!("TKFRAME_{id}_MATRIX"), arr(&cols))]);
            groups.push(g); let up = known[p].2; known.push((id, name, up.map(|u| mm(&u, m))));
        }
        let all: Vec<Stmt> = groups.iter().flatten().cloned().chain(o.stmts(399)).collect();
        let mut ctx = SpiceContext::new();
        if *split { for g in groups.iter().rev() { ctx.load_bytes("fk", write(g, l).into_bytes()).map_err(|e| e.to_string())? } ctx.load_bytes("pck", write(&o.stmts(399), l).into_bytes()).map_err(|e| e.to_string())? }
        else {
            let text = write(&all, l); ctx.load_bytes("fk", text.clone().into_bytes()).map_err(|e| format!("{e}\n{text}"))?;
            let k = fk::FrameKernel::from_text(&text).map_err(|e| e.to_string())?; ensure!(k.frames.len() == groups.len(), "{} frames instead of {}", k.frames.len(), groups.len());
            for (id, name, _) in &known[1..] { let a = k.frame_by_id(*id).ok_or("frame missing")?; ensure!(a.name == *name && k.frame_by_name(&name.to_ascii_lowercase()).map(|f| f.id) == Some(*id) && a.center_id == 399 && a.class_id == if *id == 3000 { 399 } else { *id }, "{a:?}") }
        }
        let mut ck = false;
        for a in &known { for b in &known {
            let r = np("rotation_naif", || ctx.rotation_naif(a.0, b.0, *t))?;
            if a.0 == b.0 { ensure!(r.is_ok_and(|m| m == known[0].2.unwrap()), "frame {} to itself", a.0); continue }
            match (a.2, b.2) {
                (Some(x), Some(y)) => { let m = r.map_err(|e| format!("{} to {}: {e}", a.1, b.1))?; let w = mm(&mt(&y), &x); ensure!(mdiff(&m, &w) < 1e-11 + 1e-15 * o.at(*t).2.abs(), "{} to {}: {m:?} instead of {w:?}", a.1, b.1) }
                _ => { ck = true; ensure!(r.is_err(), "{} to {} answered without attitude data", a.1, b.1) }
            }
        } }
        ensure!(ctx.rotation_naif(1, 424_242, *t).is_err(), "an unknown frame is answered");
        Ok(if frames.len() < 2 { "-one frame" } else if ck { "with an attitude frame" } else { "fixed frames" })
    });

    c.prop("instrument fields of view", 15_000, || (proptest::collection::vec((0usize..5, proptest::option::of(gen::unit_vec()), proptest::option::of(0.01f64..90.0), proptest::option::of(0.01f64..90.0), 0usize..5, any::<bool>()), 1..4), lay()), |(ins, l)| {
        const SH: [&str; 5] = ["CIRCLE", "RECTANGLE", "ELLIPSE", "POLYGON", "CUSTOM"];
        let mut st = vec![];
        for (i, (s, b, r, x, u, f)) in ins.iter().enumerate() {
            let id = -82_360 - i as i32; let per = [1.0, 1.0, 180.0 / PI, 1.0 / 60.0, 1.0 / 3600.0][*u];
            st.push(set(format!("INS{id}_FOV_SHAPE"), Val::Str(SH[*s].into())));
            if *f { st.push(set(format!("INS{id}_FOV_FRAME"), Val::Str(format!("CASSINI_{i}")))) }
            if *u > 0 { st.push(set(format!("INS{id}_FOV_ANGLE_UNITS"), Val::Str(["", "DEGREES", "RADIANS", "ARCMINUTES", "ARCSECONDS"][*u].into()))) }
            if let Some(b) = b { st.push(set(format!("INS{id}_BORESIGHT"), arr(b))) }
            if let Some(r) = r { st.push(set(format!("INS{id}_FOV_REF_ANGLE"), n(r / per))) }
            if let Some(x) = x { st.push(set(format!("INS{id}_FOV_CROSS_ANGLE"), n(x / per))) }
        }
        let text = write(&st, l);
        let k = np("IkKernel::from_text", || ik::IkKernel::from_text(&text))?.map_err(|e| format!("refused: {e}\n{text}"))?;
        ensure!(k.instruments.len() == ins.len() && k.instrument(5).is_none(), "{} instruments", k.instruments.len());
        for (i, (s, b, r, x, _, f)) in ins.iter().enumerate() {
            let o = k.instrument(-82_360 - i as i32).ok_or("instrument missing")?;
            let sh = match o.fov_shape.as_ref() { Some(ik::FovShape::Circle) => 0, Some(ik::FovShape::Rectangle) => 1, Some(ik::FovShape::Ellipse) => 2, Some(ik::FovShape::Polygon) => 3, Some(ik::FovShape::Other(t)) if t == "CUSTOM" => 4, _ => 9 };
            let ang = |g: Option<f64>, w: &Option<f64>| match (g, w) { (None, None) => true, (Some(g), Some(w)) => close(g, *w, 0.0, 1e-13), _ => false };
            ensure!(sh == *s && o.boresight == *b && o.fov_frame == f.then(|| format!("CASSINI_{i}")) && ang(o.fov_ref_angle, r) && ang(o.fov_cross_angle, x), "{o:?}\n{text}");
        }
        Ok(if ins.len() > 1 { "several instruments" } else { "one instrument" })
    });

    c.prop("attitude kernels", 15_000, || (proptest::collection::vec(ckseg(), 1..6), layout(), proptest::collection::vec((any::<proptest::sample::Index>(), -0.1f64..1.1, any::<proptest::sample::Index>(), 0u8..5), 1..8)), |(segs, l, qs)| {
        let raw: Vec<_> = segs.iter().map(|s| (vec![s.start(), s.end()], vec![s.inst, s.frame, s.ty, 0], s.words())).collect();
        let bytes = spk::daf(b"DAF/CK  ", 2, 6, l, &raw);
        let k = np("CkKernel::from_bytes", || ck::CkKernel::from_bytes(bytes))?.map_err(|e| format!("refused: {e}"))?;
        let of: Vec<&CkSeg> = segs.iter().filter(|s| s.ty == 1).collect();
        ensure!(k.segments().len() == of.len(), "{} segments instead of {}", k.segments().len(), of.len());
        for (g, s) in k.segments().iter().zip(&of) { ensure!(g.inst_id == s.inst && g.frame_id == 1 && g.start_sclkdp == s.start() && g.end_sclkdp == s.end() && g.records.iter().map(|r| r.sclkdp).eq(s.t.iter().copied()), "segment {g:?}") }
        let mut inside = 0;
        for (ix, x, r, exact) in qs {
            let s = &segs[ix.index(segs.len())]; let t = if *exact == 0 { s.t[r.index(s.t.len())] } else { s.t[0] + x * (s.t[s.t.len() - 1] - s.t[0]) };
            let got = np("rotation", || k.rotation(s.inst, t))?;
            // The last segment that covers the time answers.
            match of.iter().rev().find(|g| g.inst == s.inst && g.start() <= t && t <= g.end()) {
                None => ensure!(got.is_err(), "instrument {} answered at {t}, outside its coverage", s.inst),
                Some(g) => { inside += 1; let q = got.map_err(|e| format!("instrument {} at {t}: {e}", s.inst))?; let w = g.at(t); ensure!(qdist(q, w) < 2e-6, "instrument {} at {t}: {q:?} instead of {w:?}", s.inst); ensure!(close(q.iter().map(|v| v * v).sum::<f64>(), 1.0, 1e-12, 0.0), "not a unit quaternion: {q:?}") }
            }
            ensure!(k.rotation(-7, t).is_err(), "an unknown instrument is answered");
        }
        Ok(if inside == 0 { "-outside coverage only" } else if l.big { "big-endian" } else { "little-endian" })
    });

    c.prop("Chebyshev (SCK) files and body names", 8000, || ((0u32..20, 0u32..6, any::<[u32; 4]>(), any::<(f64, f64)>()), any::<u64>(), (0usize..40, any::<bool>()), 0usize..22, "[ \t]{0,3}", any::<u32>()), |((nc, nr, ids, jd), seed, (cut, grow), name, pad, case)| {
        let mut b = b"SCKERN01".to_vec(); for v in [*nc, *nr, ids[0], ids[1], ids[2], ids[3]] { b.extend(v.to_le_bytes()) } b.extend(jd.0.to_le_bytes()); b.extend(jd.1.to_le_bytes()); b.resize(64, 0);
        let recs: Vec<f64> = (0..(2 + 3 * nc) * nr).map(|i| ((seed.wrapping_mul(u64::from(i) + 1) >> 11) as f64) * 1e-9 - 1e3).collect(); for r in &recs { b.extend(r.to_le_bytes()) }
        let k = np("parse_sck", || parse_sck(&b))?.map_err(|e| e.to_string())?; let h = k.header;
        ensure!((h.ncoeff, h.record_count, h.center_id, h.target_id, h.frame_id, h.time_scale_id) == (*nc, *nr, ids[0], ids[1], ids[2], ids[3]) && h.valid_from_jd.to_bits() == jd.0.to_bits() && h.valid_to_jd.to_bits() == jd.1.to_bits() && k.records == recs && k.record_stride() == 2 + 3 * *nc as usize, "{k:?}");
        if *cut > 0 { let mut d = b.clone(); if *grow { d.extend(vec![0; *cut]) } else { d.truncate(b.len().saturating_sub(*cut)) } ensure!(parse_sck(&d).is_err(), "a file of the wrong size is accepted"); d = b.clone(); d[cut % 8] ^= 1; ensure!(parse_sck(&d).is_err(), "a wrong magic is accepted") }
        const NAMES: [(&str, Option<i32>); 22] = [("SSB", Some(0)), ("SOLAR SYSTEM BARYCENTER", Some(0)), ("MERCURY BARYCENTER", Some(1)), ("VENUS BARYCENTER", Some(2)), ("EMB", Some(3)), ("EARTH BARYCENTER", Some(3)), ("EARTH MOON BARYCENTER", Some(3)), ("MARS BARYCENTER", Some(4)), ("JUPITER BARYCENTER", Some(5)), ("SATURN BARYCENTER", Some(6)), ("URANUS BARYCENTER", Some(7)), ("NEPTUNE BARYCENTER", Some(8)), ("PLUTO BARYCENTER", Some(9)), ("SUN", Some(10)), ("MERCURY", Some(199)), ("VENUS", Some(299)), ("EARTH", Some(399)), ("MOON", Some(301)), ("MARS", Some(499)), ("SATURN", Some(699)), ("URANUS", Some(799)), ("X", None)];
        let (t, id) = NAMES[*name]; let t: String = t.chars().enumerate().map(|(i, ch)| if case >> (i % 32) & 1 == 1 { ch.to_ascii_lowercase() } else { ch }).collect();
        ensure!(naif_id_for_name(&format!("{pad}{t}{pad}")) == id, "{t}: {:?} instead of {id:?}", naif_id_for_name(&t));
        Ok(if *nr == 0 { "-no records" } else { "file and name" })
    });

    c.known_finding(|| {
        // CK type 1 by the standard: the quaternions of all instances, then all clock times.
        let w = vec![1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 100.0, 200.0, 2.0];
        let b = spk::daf(b"DAF/CK  ", 2, 6, &spk::Layout { big: false, comments: 0, per_record: 25, data_first: false, reversed: false }, &[(vec![100.0, 200.0], vec![-82_000, 1, 1, 0], w)]);
        let q = ck::CkKernel::from_bytes(b).ok()?.rotation(-82_000, 200.0);
        match q { Ok(q) if qdist(q, [0.0, 1.0, 0.0, 0.0]) < 1e-12 => None, q => Some(format!("CK type 1 segments are read in a layout of the module's own (time and quaternion per record), not the one of the CK Required Reading: a two-record segment gives {q:?}")) }
    });
    c.finish()
}
