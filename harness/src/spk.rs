//! An independent DAF/SPK writer and the states its segments define.
use proptest::prelude::*;

/// A segment payload as the SPK Required Reading defines it.
#[derive(Debug, Clone)]
pub enum Pay {
    /// Types 2 (3 components) and 3 (6 components).
    Cheb { comps: usize, init: f64, intlen: f64, n: usize, coefs: Vec<Vec<f64>> },
    /// Types 9 (Lagrange, degree) and 13 (Hermite, window size).
    Disc { ty: i32, size: usize, epochs: Vec<f64>, states: Vec<[f64; 6]> },
    /// A type the library does not evaluate.
    Other { ty: i32, words: Vec<f64> },
}
#[derive(Debug, Clone)]
pub struct Seg { pub target: i32, pub center: i32, pub frame: i32, pub start: f64, pub end: f64, pub pay: Pay }

/// A state with the size of the terms it is a sum of; several where two definitions meet.
pub type States = Vec<([f64; 6], [f64; 6])>;

pub fn cheb(c: &[f64], x: f64) -> (f64, f64, f64, f64) {
    // Values and derivatives of the basis by their three-term recurrences.
    let (mut t0, mut t1, mut d0, mut d1) = (1.0, x, 0.0, 1.0);
    let (mut p, mut dp, mut sp, mut sd) = (0.0, 0.0, 0.0, 0.0);
    for (k, &a) in c.iter().enumerate() {
        let (t, d) = match k { 0 => (1.0, 0.0), 1 => (x, 1.0), _ => { let t = 2.0 * x * t1 - t0; let d = 2.0 * t1 + 2.0 * x * d1 - d0; t0 = t1; t1 = t; d0 = d1; d1 = d; (t, d) } };
        p += a * t; dp += a * d; sp += a.abs(); sd += a.abs() * (k * k) as f64;
    }
    (p, dp, sp, sd)
}

impl Seg {
    pub fn ty(&self) -> i32 { match &self.pay { Pay::Cheb { comps: 3, .. } => 2, Pay::Cheb { .. } => 3, Pay::Disc { ty, .. } => *ty, Pay::Other { ty, .. } => *ty } }
    pub fn words(&self) -> Vec<f64> {
        let mut w = vec![];
        match &self.pay {
            Pay::Cheb { comps, init, intlen, n, coefs } => {
                for (k, c) in coefs.iter().enumerate() { w.push(init + (k as f64 + 0.5) * intlen); w.push(intlen / 2.0); w.extend(c) }
                w.extend([*init, *intlen, (2 + comps * n) as f64, coefs.len() as f64]);
            }
            Pay::Disc { ty, size, epochs, states } => {
                for s in states { w.extend(s) }
                w.extend(epochs);
                w.extend(epochs.iter().skip(99).step_by(100).take((epochs.len() - 1) / 100));
                w.extend([(if *ty == 13 { size - 1 } else { *size }) as f64, epochs.len() as f64]);
            }
            Pay::Other { words, .. } => w.extend(words),
        }
        w
    }
    /// Epochs the data themselves span.
    pub fn span(&self) -> (f64, f64) { match &self.pay { Pay::Cheb { init, intlen, coefs, .. } => (*init, init + intlen * coefs.len() as f64), Pay::Disc { epochs, .. } => (epochs[0], epochs[epochs.len() - 1]), _ => (f64::NEG_INFINITY, f64::INFINITY) } }
    pub fn cover(&self) -> (f64, f64) { let s = self.span(); (s.0.max(self.start), s.1.min(self.end)) }
    pub fn covers(&self, et: f64) -> bool { let c = self.cover(); et >= c.0 && et <= c.1 }
    /// The states the segment defines at `et`, with `dt` of slack in the epoch.
    pub fn eval(&self, et: f64, dt: f64) -> States {
        match &self.pay {
            Pay::Cheb { comps, init, intlen, n, coefs } => {
                let x = (et - init) / intlen;
                let mut recs = vec![(x.floor().max(0.0) as usize).min(coefs.len() - 1)];
                let near = x.round();
                if ((x - near) * intlen).abs() <= dt + 1e-9 * (x.abs() + 1.0) * intlen * 1e-3 { for k in [near - 1.0, near] { if k >= 0.0 && (k as usize) < coefs.len() && !recs.contains(&(k as usize)) { recs.push(k as usize) } } }
                recs.into_iter().map(|k| {
                    let (mid, rad) = (init + (k as f64 + 0.5) * intlen, intlen / 2.0);
                    let tau = (et - mid) / rad;
                    let slack = (dt + 4e-16 * (et.abs() + mid.abs())) / rad;
                    let (mut s, mut t) = ([0.0; 6], [0.0; 6]);
                    for i in 0..3 {
                        let (p, dp, sp, sd) = cheb(&coefs[k][i * n..(i + 1) * n], tau);
                        s[i] = p; t[i] = 1e-13 * *n as f64 * sp + sd * slack;
                        if *comps == 3 { s[i + 3] = dp / rad; t[i + 3] = (1e-13 * *n as f64 * sd + sd * (n * n) as f64 * slack) / rad } else { let (p, _, sp, sd) = cheb(&coefs[k][(i + 3) * n..(i + 4) * n], tau); s[i + 3] = p; t[i + 3] = 1e-13 * *n as f64 * sp + sd * slack }
                    }
                    (s, t)
                }).collect()
            }
            Pay::Disc { ty, size, epochs, states } => {
                if let Some(k) = epochs.iter().position(|&e| e == et) { return vec![(states[k], states[k].map(|x| 1e-15 * x.abs()))] }
                let ins = epochs.iter().position(|&e| e > et).unwrap();
                let count = if *ty == 9 { size + 1 } else { *size };
                let firsts = if count % 2 == 0 { vec![ins as i64 - count as i64 / 2] } else { vec![ins as i64 - 1 - count as i64 / 2, ins as i64 - count as i64 / 2] };
                firsts.into_iter().map(|f| {
                    let f = f.clamp(0, (epochs.len() - count) as i64) as usize;
                    let (e, y) = (&epochs[f..f + count], &states[f..f + count]);
                    let (mut s, mut t) = ([0.0; 6], [0.0; 6]);
                    for i in 0..count {
                        let l: f64 = (0..count).filter(|&j| j != i).map(|j| (et - e[j]) / (e[i] - e[j])).product();
                        if *ty == 9 { for c in 0..6 { s[c] += l * y[i][c]; t[c] += 1e-13 * (l * y[i][c]).abs() } continue }
                        let d: f64 = (0..count).filter(|&j| j != i).map(|j| 1.0 / (e[i] - e[j])).sum();
                        let lp: f64 = (0..count).filter(|&m| m != i).map(|m| (0..count).filter(|&j| j != i && j != m).map(|j| (et - e[j]) / (e[i] - e[j])).product::<f64>() / (e[i] - e[m])).sum();
                        let x = et - e[i];
                        let (h, k) = ((1.0 - 2.0 * x * d) * l * l, x * l * l);
                        let (hp, kp) = (-2.0 * d * l * l + (1.0 - 2.0 * x * d) * 2.0 * l * lp, l * l + 2.0 * x * l * lp);
                        // Divided differences lose digits to the spread of the samples.
                        let tol = 1e-13 * 6f64.powi(count as i32);
                        for c in 0..3 { s[c] += h * y[i][c] + k * y[i][c + 3]; s[c + 3] += hp * y[i][c] + kp * y[i][c + 3]; t[c] += tol * ((h.abs() + 1e-2) * y[i][c].abs() + (k * y[i][c + 3]).abs()); t[c + 3] += tol * ((hp.abs() + 1.0 / (e[count - 1] - e[0])) * y[i][c].abs() + (kp * y[i][c + 3]).abs()) }
                    }
                    (s, t)
                }).collect()
            }
            Pay::Other { .. } => vec![],
        }
    }
}

/// How the file is laid out; none of it matters to its contents.
#[derive(Debug, Clone)]
pub struct Layout { pub big: bool, pub comments: usize, pub per_record: usize, pub data_first: bool, pub reversed: bool }
pub fn layout() -> impl Strategy<Value = Layout> { (any::<bool>(), 0usize..3, prop_oneof![Just(25usize), 1usize..5], any::<bool>(), any::<bool>()).prop_map(|(big, comments, per_record, data_first, reversed)| Layout { big, comments, per_record, data_first, reversed }) }
pub fn daf(idword: &[u8; 8], nd: usize, ni: usize, l: &Layout, segs: &[(Vec<f64>, Vec<i32>, Vec<f64>)]) -> Vec<u8> {
    let chunks: Vec<_> = if segs.is_empty() { vec![] } else { segs.chunks(l.per_record).collect() };
    let data_records = segs.iter().map(|s| s.2.len()).sum::<usize>().div_ceil(128);
    let first = 2 + l.comments;
    let (sum0, data0) = if l.data_first { (first + data_records, first) } else { (first, first + 2 * chunks.len()) };
    let rec_of = |k: usize| sum0 + 2 * if l.reversed { chunks.len() - 1 - k } else { k };
    let mut out = vec![0u8; 1024 * (1 + l.comments + data_records + 2 * chunks.len())];
    let f = |out: &mut Vec<u8>, at: usize, x: f64| out[at..at + 8].copy_from_slice(&if l.big { x.to_be_bytes() } else { x.to_le_bytes() });
    let n = |out: &mut Vec<u8>, at: usize, x: i32| out[at..at + 4].copy_from_slice(&if l.big { x.to_be_bytes() } else { x.to_le_bytes() });
    out[..8].copy_from_slice(idword);
    n(&mut out, 8, nd as i32); n(&mut out, 12, ni as i32);
    out[16..76].fill(b' ');
    let (fw, bw) = if chunks.is_empty() { (0, 0) } else { (rec_of(0), rec_of(chunks.len() - 1)) };
    n(&mut out, 76, fw as i32); n(&mut out, 80, bw as i32);
    let mut word = (data0 - 1) * 128 + 1;
    n(&mut out, 84, (word + segs.iter().map(|s| s.2.len()).sum::<usize>()) as i32);
    out[88..96].copy_from_slice(if l.big { b"BIG-IEEE" } else { b"LTL-IEEE" });
    for c in 0..l.comments { out[1024 * (1 + c)..1024 * (2 + c)].fill(b'c') }
    let ss = nd + ni.div_ceil(2);
    for (k, ch) in chunks.iter().enumerate() {
        let at = (rec_of(k) - 1) * 1024;
        f(&mut out, at, if k + 1 < chunks.len() { rec_of(k + 1) as f64 } else { 0.0 });
        f(&mut out, at + 8, if k > 0 { rec_of(k - 1) as f64 } else { 0.0 });
        f(&mut out, at + 16, ch.len() as f64);
        out[at + 1024..at + 2048].fill(b' ');
        for (i, (d, ints, words)) in ch.iter().enumerate() {
            let a = at + 24 + i * ss * 8;
            for (j, x) in d.iter().enumerate() { f(&mut out, a + 8 * j, *x) }
            let mut ints = ints.clone(); ints.push(word as i32); ints.push((word + words.len()) as i32 - 1);
            for (j, x) in ints.iter().enumerate() { n(&mut out, a + 8 * nd + 4 * j, *x) }
            for x in words { f(&mut out, (word - 1) * 8, *x); word += 1 }
        }
    }
    out
}
pub fn spk(l: &Layout, segs: &[Seg]) -> Vec<u8> {
    daf(b"DAF/SPK ", 2, 6, l, &segs.iter().map(|s| (vec![s.start, s.end], vec![s.target, s.center, s.frame, s.ty()], s.words())).collect::<Vec<_>>())
}

/// Deterministic values in [-1, 1).
pub fn noise(seed: u64, k: usize) -> f64 { let mut x = seed ^ (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15); x ^= x >> 30; x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9); x ^= x >> 27; x = x.wrapping_mul(0x94D0_49BB_1331_11EB); x ^= x >> 31; (x >> 11) as f64 / (1u64 << 52) as f64 - 1.0 }

/// A payload covering about [t0, t0 + len].
pub fn pay(kinds: &'static [i32], t0: f64, len: f64) -> impl Strategy<Value = Pay> {
    (proptest::sample::select(kinds), 1usize..13, 1usize..6, any::<u64>(), 0.0f64..8.0, 0usize..140).prop_map(move |(ty, n, recs, seed, mag, many)| match ty {
        2 | 3 => {
            let comps = if ty == 2 { 3 } else { 6 };
            Pay::Cheb { comps, init: t0, intlen: len / recs as f64, n, coefs: (0..recs).map(|r| (0..comps * n).map(|i| 10f64.powf(mag - 0.6 * (i % n) as f64 - if i >= 3 * n { 5.0 } else { 0.0 }) * noise(seed, r * 1000 + i)).collect()).collect() }
        }
        9 | 13 => {
            let size = if ty == 9 { n.min(11) } else { 2 + n % 7 };
            let m = size + 2 + if many > 110 { many } else { many % 12 };
            let step = len / (m - 1) as f64;
            let epochs: Vec<f64> = (0..m).map(|k| t0 + step * (k as f64 + if k == 0 || k == m - 1 { 0.0 } else { 0.3 * noise(seed, k) })).collect();
            let r = 10f64.powf(mag);
            // A curve the samples resolve, with noise of its own.
            let w = 0.3 / step;
            let states = epochs.iter().enumerate().map(|(k, e)| { let a = w * (e - t0); let j = |c| 1e-3 * noise(seed, 5000 + 10 * k + c); [r * (a.cos() + j(0)), r * (a.sin() + j(1)), r * (0.3 * a.cos() + j(2)), r * w * (-a.sin() + j(3)), r * w * (a.cos() + j(4)), r * w * (-0.3 * a.sin() + j(5))] }).collect();
            Pay::Disc { ty, size, epochs, states }
        }
        _ => Pay::Other { ty, words: (0..n + 5).map(|k| noise(seed, k) * 1e3).collect() },
    })
}
/// ET of a TT Julian date, from the published two-body formula.
pub fn et_of(jd_tt: f64) -> f64 {
    let tt = (jd_tt - 2_451_545.0) * 86_400.0;
    let mut et = tt;
    for _ in 0..20 { let m = 6.239996 + 1.99096871e-7 * et; et = tt + 1.657e-3 * (m + 1.671e-2 * m.sin()).sin() }
    et
}
/// Whether a state is one of those a segment defines.
pub fn matches(got: &[f64; 6], want: &States, n: usize) -> bool { want.iter().any(|(s, t)| (0..n).all(|i| (got[i] - s[i]).abs() <= t[i] + 1e-300)) }
/// All sums of one alternative of each term.
pub fn sum(terms: &[(f64, States)]) -> States {
    let mut acc: States = vec![([0.0; 6], [0.0; 6])];
    for (k, st) in terms { acc = acc.iter().flat_map(|(a, t)| st.iter().map(move |(b, u)| { let (mut x, mut y) = (*a, *t); for i in 0..6 { x[i] += k * b[i]; y[i] += k.abs() * u[i] + 4e-16 * (k * b[i]).abs() } (x, y) })).take(64).collect() }
    acc
}

/// An out-of-range error names the epoch asked for, and the span of one of the segments, which does not contain it.
pub fn check_range(e: &siderust::ephemeris::EphemerisError, jd: f64, segs: &[&Seg]) -> Result<(), String> {
    let siderust::ephemeris::EphemerisError::OutOfRange { jd: at, start_jd, end_jd } = e else { return Ok(()) };
    let same = |x: f64, et: f64| (x - (2_451_545.0 + et / 86_400.0)).abs() < 1e-6;
    // Dynamical times differ by milliseconds.
    if (at - jd).abs() > 1e-7 { return Err(format!("asked for {jd}, the error is about {at}")) }
    if !segs.iter().any(|s| (same(*start_jd, s.start) && same(*end_jd, s.end)) || (same(*start_jd, s.span().0) && same(*end_jd, s.span().1))) { return Err(format!("no segment spans {start_jd} to {end_jd}")) }
    if *at > start_jd + 1e-6 && *at < end_jd - 1e-6 { return Err(format!("{at} is called outside {start_jd} to {end_jd}")) }
    Ok(())
}
