//! C22: SP3, ANTEX, SINEX, ORBEX, RINEX navigation/observation and RINEX-DORIS products.
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use proptest::prelude::*;
use siderust::formats::igs::{antex::*, orbex::*, sinex::*, sp3::*};
use siderust::formats::rinex::{doris::*, nav::*, obs::*};
use siderust::formats::ParseMode;
use tempoch::{Time, UTC};
use vharness::gen::*;
use vharness::*;

/// tempoch converts civil times to within tens of microseconds.
const TICK: f64 = 60.0;
type Dt = DateTime<Utc>;
fn civil(us: i64) -> Dt { Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap() + Duration::microseconds(us) }
fn mjd(us: i64) -> f64 { 51_544.0 + us as f64 / 86_400e6 }
fn micros(t: Time<UTC>) -> Result<f64, String> { let c = t.try_to_chrono().map_err(|e| format!("epoch not civil: {e:?}"))?; let sub = if c.timestamp_subsec_nanos() >= 1_000_000_000 { 1_000_000 } else { c.timestamp_subsec_micros() as i64 }; Ok(((c.timestamp() - civil(0).timestamp()) * 1_000_000 + sub) as f64) }
/// Microseconds since 2000 on a grid of whole days, minutes, seconds or none.
fn when() -> impl Strategy<Value = i64> { prop_oneof![2 => (-10_000i64..15_000).prop_map(|d| d * 86_400_000_000), 3 => (-10_000_000i64..20_000_000).prop_map(|m| m * 60_000_000), 3 => (-800_000_000i64..1_300_000_000).prop_map(|s| s * 1_000_000), 2 => -800_000_000_000_000i64..1_300_000_000_000_000i64].prop_map(off_leap) }
/// Midnights that follow a possible leap second move on by a minute: within the conversion error of one, the civil label is ambiguous.
fn off_leap(us: i64) -> i64 { let c = civil(us + 1000); if (c.month() - 1) % 6 == 0 && c.day() == 1 && c.num_seconds_from_midnight() == 0 { us + 60_000_000 } else { us } }
fn whole(us: i64) -> i64 { us.div_euclid(1_000_000) * 1_000_000 }
fn sat() -> impl Strategy<Value = String> { "[GRECJ][0-9]{2}" }
fn fixed(v: f64, w: usize, d: usize) -> String { format!("{v:w$.d$}") }
fn q(v: f64, d: usize) -> f64 { format!("{v:.d$}").parse().unwrap() }
fn label(body: &str, l: &str) -> String { format!("{body:<60}{l:<20}") }

// ---------------------------------------------------------------- SP3
#[derive(Clone, Debug)]
struct Sp { header: Vec<String>, epochs: Vec<(i64, Vec<(String, [f64; 4], u8)>)>, noise: u32 }
fn sp3() -> impl Strategy<Value = Sp> {
    let x = || prop_oneof![4 => -42_200.0f64..42_200.0, 1 => -999_999.0f64..999_999.0, 1 => Just(0.0), 1 => -0.01f64..0.01];
    let clk = || prop_oneof![4 => -2000.0f64..2000.0, 1 => Just(999_999.999_999), 1 => -999_999.0f64..999_999.0];
    let row = || (sat(), x(), x(), x(), clk(), any::<u8>()).prop_map(|(s, x, y, z, c, f)| (s, [q(x, 6), q(y, 6), q(z, 6), q(c, 6)], f));
    let hdr = prop_oneof![Just("#dP2024  1  1  0  0  0.00000000      96 ORBIT IGS20 HLM  IGS".to_string()), Just("##  2295 518400.00000000   900.00000000 60310 0.0000000000000".to_string()), "[+]  [ 0-9]{2}   [GRE0-9]{0,40}", Just("%c G  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc".to_string()), "/[*] [ -~]{0,50}"];
    (proptest::collection::vec(hdr, 1..24), proptest::collection::vec((when(), proptest::collection::vec(row(), 0..6)), 1..5), any::<u32>()).prop_map(|(header, epochs, noise)| Sp { header, epochs, noise })
}
fn sp3_text(p: &Sp) -> String {
    let mut o: Vec<String> = p.header.clone();
    for (t, rows) in &p.epochs {
        let c = civil(*t);
        o.push(format!("*  {:4} {:>2} {:>2} {:>2} {:>2} {:>2}.{:06}00", c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second(), c.timestamp_subsec_micros()));
        for (s, x, f) in rows {
            let mut l = format!("P{s}{}{}{}{}", fixed(x[0], 14, 6), fixed(x[1], 14, 6), fixed(x[2], 14, 6), fixed(x[3], 14, 6));
            if f & 1 == 1 { l += " 18 18 18 219" }
            if f & 3 == 3 { l += " EP  MP" }
            o.push(l);
            if f & 4 == 4 { o.push("EP  55   55   55     222  1234567 -1234567  5999999      -30       21 -1230000".into()) }
            if f & 8 == 8 { o.push(format!("V{s}  20298.880364 -18462.044804   1381.387685     -4.534317 14 14 14 191")) }
            if f & 12 == 12 { o.push("EV  22   22   22     111  1234567  1234567  1234567  1234567  1234567  1234567".into()) }
        }
    }
    o.push("EOF".into());
    o.join(if p.noise & 1 == 1 { "\r\n" } else { "\n" }) + "\n"
}
fn tick(what: &str) -> f64 { if what == "rewritten" { 2.0 * TICK } else { TICK } }
fn sp3_is(g: &[Sp3Epoch], p: &Sp, what: &str) -> Result<(), String> {
    ensure!(g.len() == p.epochs.len(), "{what}: {} epochs of {}", g.len(), p.epochs.len());
    for (a, (t, rows)) in g.iter().zip(&p.epochs) {
        let us = micros(a.time)?;
        ensure!((us - *t as f64).abs() <= tick(what), "{what}: epoch {} us away from {}", us - *t as f64, civil(*t));
        ensure!(a.positions.len() == rows.len(), "{what}: {} rows of {}", a.positions.len(), rows.len());
        for (r, (s, x, _)) in a.positions.iter().zip(rows) {
            let got = [r.position.x().value(), r.position.y().value(), r.position.z().value(), r.clock.value()];
            ensure!(r.sat_id == *s && got == *x, "{what}: {} {got:?} written {s} {x:?}", r.sat_id);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- ANTEX
type Ant = Vec<(String, Vec<(String, [f64; 3])>)>;
fn antex() -> impl Strategy<Value = (Ant, u32)> {
    let name = prop_oneof!["[A-Z]{3}[0-9]{5}[.][0-9A-Z]{2} {4}(NONE|SCIS|LEIT)", "BLOCK II[A-F] {11,12}G[0-9]{2} {17}G[0-9]{3} {6}[12][0-9]{3}-[0-9]{3}A", "[A-Z][A-Z0-9/+_ -]{3,16}[A-Z0-9]"].prop_map(|s: String| s.trim().to_string());
    let pco = prop_oneof![4 => -3000.0f64..3000.0, 1 => Just(0.0), 1 => -999_999.0f64..9_999_999.0].prop_map(|v| q(v, 2));
    let pco = [pco.clone(), pco.clone(), pco].prop_map(|v| v.map(|x| if x.abs() < 1e5 { x } else { x / 200.0 })).prop_map(|v| v.map(|x| q(x, 2)));
    let freqs = proptest::collection::btree_map("[GRECJ]0[1-8]", pco, 0..5);
    (proptest::collection::btree_map(name, freqs, 0..5), any::<u32>()).prop_map(|(m, n)| (m.into_iter().map(|(k, f)| (k, f.into_iter().collect())).collect(), n))
}
fn antex_text(a: &Ant, noise: u32) -> String {
    let mut o = vec![label("     1.4            M", "ANTEX VERSION / SYST"), label("A", "PCV TYPE / REFANT"), label("NORTH / EAST / UP", "COMMENT"), label("", "END OF HEADER")];
    for (k, (n, f)) in a.iter().enumerate() {
        o.push(label("", "START OF ANTENNA")); o.push(label(n, "TYPE / SERIAL NO"));
        o.push(label("ROBOT               Geo++ GmbH               3    25-JAN-11", "METH / BY / # / DATE"));
        o.push(label(&format!("{:6}", f.len()), "# OF FREQUENCIES"));
        for (id, v) in f {
            o.push(label(&format!("   {id}"), "START OF FREQUENCY"));
            o.push(label(&format!("{:10.2}{:10.2}{:10.2}", v[0], v[1], v[2]), "NORTH / EAST / UP"));
            o.push("   NOAZI    0.00   -0.22   -0.86   -1.87   -3.17   -4.64   -6.14   -7.52   -8.65   -9.42   -9.73".into());
            o.push(label(&format!("   {id}"), "END OF FREQUENCY"));
            if noise >> (k % 30) & 1 == 1 { o.push(label(&format!("   {id}"), "START OF FREQ RMS")); o.push(label("      0.10      0.20      0.30", "NORTH / EAST / UP")); o.push(label(&format!("   {id}"), "END OF FREQ RMS")) }
        }
        o.push(label("", "END OF ANTENNA"));
    }
    o.join(if noise & 2 == 2 { "\r\n" } else { "\n" }) + "\n"
}
fn antex_is(c: &AntexCatalog, a: &Ant, what: &str) -> Result<(), String> {
    ensure!(c.len() == a.len(), "{what}: {} antennas of {}: {:?}", c.len(), a.len(), c.keys());
    for (n, f) in a {
        let m = c.get(n).ok_or_else(|| format!("{what}: antenna {n:?} missing from {:?}", c.keys()))?;
        ensure!(m.len() == f.len(), "{what}: {} frequencies of {} for {n}", m.len(), f.len());
        for (id, v) in f { let p = m.get(id).ok_or_else(|| format!("{what}: {n} {id} missing"))?; let g = [p.x().value(), p.y().value(), p.z().value()]; ensure!(g == *v, "{what}: {n} {id} is {g:?} written {v:?}") }
    }
    Ok(())
}

// ---------------------------------------------------------------- SINEX
#[derive(Clone, Debug)]
struct Sta { key: (String, String, String), epoch: (i64, i64, i64), v: [String; 6], n: usize, junk: bool }
fn sinex() -> impl Strategy<Value = (String, Vec<Sta>, u32)> {
    let val = || prop_oneof![-6.4e6f64..6.4e6, -0.1f64..0.1, Just(0.0)].prop_map(|v| format!("{:>21}", { let s = format!("{v:.14e}"); let (m, e) = s.split_once('e').unwrap(); format!("{m}e{:+03}", e.parse::<i32>().unwrap()) }));
    let key = ("[A-D]{2}[0-9][A-Z]", prop_oneof![4 => Just("A"), 1 => Just("B")], prop_oneof![3 => Just("1".to_string()), 2 => "[1-9][0-9]{0,2}", 1 => Just("----".to_string())]).prop_map(|(c, p, s)| (c, p.to_string(), s));
    let ep = (0i64..100, 1i64..366, prop_oneof![0i64..86_400, Just(0i64), Just(43_200)]);
    let sta = (key, ep, [val(), val(), val(), val(), val(), val()], prop_oneof![4 => Just(6usize), 2 => Just(3), 1 => 0usize..7], any::<bool>()).prop_map(|(key, epoch, v, n, junk)| Sta { key, epoch, v, n, junk });
    ("[A-Z]{3}", proptest::collection::vec(sta, 0..8), any::<u32>()).prop_map(|(a, v, n)| { let mut seen = std::collections::BTreeSet::new(); (a, v.into_iter().filter(|s| seen.insert(s.key.clone())).collect(), n) })
}
const EST: [&str; 6] = ["STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"];
fn sinex_lines(a: &str, v: &[Sta], noise: u32) -> Vec<(bool, String)> {
    let mut o: Vec<(bool, String)> = vec![(false, format!("%=SNX 2.10 {a} 24:001:00000 {a} 00:000:00000 23:365:86370 P 00042 2 S X V")), (false, "*-----".into()), (false, "+FILE/REFERENCE".into()), (false, " DESCRIPTION        made up".into()), (false, "-FILE/REFERENCE".into()), (false, "+SITE/ID".into()), (false, "*CODE PT __DOMES__ T _STATION DESCRIPTION__ APPROX_LON_ APPROX_LAT_ _APP_H_".into())];
    for s in v { o.push((false, format!(" {} {:>2} 10002M006 P Somewhere             6 55 13.9  43 45 16.8  1319.3", s.key.0, s.key.1))) }
    o.push((false, "-SITE/ID".into()));
    o.push((false, "+SOLUTION/ESTIMATE".into()));
    o.push((false, "*INDEX TYPE__ CODE PT SOLN _REF_EPOCH__ UNIT S __ESTIMATED VALUE____ _STD_DEV___".into()));
    let mut k = 0;
    let mut row = |t: &str, key: (&str, &str, &str), ep: String, unit: &str, val: &str| { k += 1; (true, format!(" {k:>5} {t:<6} {:>4} {:>2} {:>4} {ep} {unit:<4} 2 {val} 1.10000e-03", key.0, key.1, key.2)) };
    for s in v {
        let ep = format!("{:02}:{:03}:{:05}", s.epoch.0, s.epoch.1, s.epoch.2);
        for j in 0..s.n { o.push(row(EST[j], (&s.key.0, &s.key.1, &s.key.2), ep.clone(), if j < 3 { "m" } else { "m/y" }, &s.v[j])) }
        if s.junk { let mut r = row("LOD", ("----", "--", "1"), "10:001:43200".into(), "ms", "-1.23456789012345e+00"); r.0 = false; o.push(r) }
        if noise & 1 == 1 { o.push((false, "* remark".into())) }
    }
    o.push((false, "-SOLUTION/ESTIMATE".into()));
    o.push((false, "+SOLUTION/APRIORI".into()));
    o.push((false, "     1 STAX   ZZZZ  A    1 10:001:00000 m    2  1.00000000000000e+00 1.10000e-03".into()));
    o.push((false, "-SOLUTION/APRIORI".into())); o.push((false, "%ENDSNX".into()));
    o
}
fn join(v: &[(bool, String)], crlf: bool) -> String { v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(if crlf { "\r\n" } else { "\n" }) + "\n" }
fn yd_mjd(y: i64, doy: i64, sod: f64) -> f64 { let mut d = 15_020i64; for k in 1900..y { d += if k % 4 == 0 && (k % 100 != 0 || k % 400 == 0) { 366 } else { 365 } } (d + doy - 1) as f64 + sod / 86_400.0 }

// ---------------------------------------------------------------- ORBEX
type Row = (usize, String, Vec<String>);
#[derive(Clone, Debug)]
struct Orb { version: String, blocks: Vec<(usize, Vec<((i64, i64, f64), Vec<(String, Vec<String>)>)>)>, noise: u32 }
fn sci() -> impl Strategy<Value = String> { prop_oneof![3 => (-3e7f64..3e7).prop_map(|v| format!("{v:.4}")), 2 => (logu(-12.0, 8.0), any::<bool>()).prop_map(|(v, s)| format!("{:.15E}", if s { v } else { -v })), 1 => Just("0.0".to_string())] }
fn orbex() -> impl Strategy<Value = Orb> {
    let ep = (1995i64..2060, 1i64..366, prop_oneof![0.0f64..86_400.0, (0i64..86_400).prop_map(|s| s as f64)].prop_map(|s| q(s, 7)));
    let rows = proptest::collection::vec((sat(), proptest::collection::vec(sci(), 6)), 0..5);
    ("[01][.][0-9]{2}", proptest::collection::vec((0usize..4, proptest::collection::vec((ep, rows), 1..4)), 1..5), any::<u32>()).prop_map(|(version, blocks, noise)| Orb { version, blocks, noise })
}
fn orbex_rows(o: &Orb) -> (Vec<(bool, String)>, Vec<(f64, Row)>) {
    let mut l = vec![(false, format!("%=ORBEX  {}", o.version)), (false, "%%".into()), (false, "+FILE/DESCRIPTION".into()), (false, "-FILE/DESCRIPTION".into()), (false, "+EPHEMERIS/DATA".into())];
    let mut w = vec![];
    for (kind, eps) in &o.blocks {
        l.push((false, ["#ORB", "#CLK", "#ATT", "#FOO"][*kind].into()));
        for ((y, d, s), rows) in eps {
            l.push((false, format!("## {y:04} {d:03} {s:015.7}")));
            for (id, v) in rows {
                let n = [if o.noise & 1 == 1 { 6 } else { 3 }, 1, 4, 2][*kind];
                let sep = if o.noise & 2 == 2 { "   " } else { " " };
                l.push((*kind < 3, format!(" {id}{sep}{}", v[..n].join(sep))));
                if *kind < 3 { w.push((yd_mjd(*y, *d, *s), (*kind, id.clone(), v[..n].to_vec()))) }
            }
            if o.noise & 4 == 4 { l.push((false, "% remark".into())) }
        }
    }
    l.push((false, "-EPHEMERIS/DATA".into())); l.push((false, "%END_ORBEX".into()));
    (l, w)
}

// ---------------------------------------------------------------- RINEX navigation
#[derive(Clone, Debug)]
struct Nav { recs: Vec<(u8, i64, Vec<f64>, usize)>, style: u32 }
fn term() -> impl Strategy<Value = f64> { prop_oneof![4 => (logu(-14.0, 8.0), any::<bool>()).prop_map(|(v, s)| if s { v } else { -v }), 1 => -1.0f64..1.0, 1 => Just(0.0)].prop_map(|v| format!("{v:.12e}").parse().unwrap()) }
fn nav() -> impl Strategy<Value = Nav> { (proptest::collection::vec((1u8..64, when().prop_map(whole), proptest::collection::vec(term(), 31), 0usize..4), 0..5), any::<u32>()).prop_map(|(recs, style)| Nav { recs, style }) }
/// Fortran D19.12 field.
fn d19(v: f64, style: u32) -> String {
    let s = format!("{v:.12e}"); let (m, e) = s.split_once('e').unwrap(); let e: i32 = e.parse().unwrap();
    let l = ["D", "E", "e", "d"][style as usize % 4];
    format!("{:>19}", format!("{m}{l}{e:+03}"))
}
fn nav_lines(n: &Nav) -> Vec<(bool, String)> {
    let mut o = vec![(false, label("     3.04           N: GNSS NAV DATA    M (Mixed)", "RINEX VERSION / TYPE")), (false, label("GPSA   1.1176D-08  1.4901D-08 -5.9605D-08 -1.1921D-07", "IONOSPHERIC CORR")), (false, label("", "END OF HEADER"))];
    let body = |o: &mut Vec<(bool, String)>, v: &[f64], real: bool| for c in v.chunks(4) { o.push((real, format!("    {}", c.iter().map(|x| d19(*x, n.style)).collect::<String>()))) };
    for (prn, t, v, other) in &n.recs {
        let c = civil(*t);
        let head = |s: String| format!("{s} {:04} {:02} {:02} {:02} {:02} {:02}", c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second());
        let clock: String = v[..3].iter().map(|x| d19(*x, n.style)).collect();
        match other { 1 => { o.push((false, format!("{}{clock}", head("R05".into())))); body(&mut o, &v[3..15], false) } 2 => { o.push((false, format!("{}{clock}", head("E11".into())))); body(&mut o, &v[3..31], false) } _ => {} }
        o.push((true, format!("{}{clock}", head(format!("G{prn:02}")))));
        body(&mut o, &v[3..23], true); body(&mut o, &v[23..31], false);
    }
    o
}
fn nav_fields(r: &GpsNavRecord) -> [f64; 20] { [r.af0.value(), r.af1, r.af2, r.iode, r.crs.value(), r.delta_n.value(), r.m0.value(), r.cuc.value(), r.e, r.cus.value(), r.sqrt_a, r.toe.value(), r.cic.value(), r.omega0.value(), r.cis.value(), r.i0.value(), r.crc.value(), r.omega.value(), r.omega_dot.value(), r.idot.value()] }
const FIELD: [&str; 20] = ["af0", "af1", "af2", "IODE", "Crs", "delta n", "M0", "Cuc", "e", "Cus", "sqrt a", "toe", "Cic", "OMEGA0", "Cis", "i0", "Crc", "omega", "OMEGA dot", "IDOT"];
fn nav_is(f: &RinexNavFile, n: &Nav, rel: f64, what: &str) -> Result<(), String> {
    ensure!(f.gps.len() == n.recs.len(), "{what}: {} records of {}", f.gps.len(), n.recs.len());
    for (r, (prn, t, v, _)) in f.gps.iter().zip(&n.recs) {
        ensure!(r.prn == *prn, "{what}: PRN {} written {prn}", r.prn);
        let us = micros(r.toc)?;
        ensure!((us - *t as f64).abs() <= tick(what), "{what}: clock epoch {} us away from {}", us - *t as f64, civil(*t));
        for (k, x) in nav_fields(r).iter().enumerate() { ensure!(close(*x, v[k], 0.0, rel), "{what}: {} is {x}, written {}", FIELD[k], v[k]) }
    }
    Ok(())
}

// ---------------------------------------------------------------- RINEX observation
#[derive(Clone, Debug)]
struct Obs { marker: String, xyz: Option<[f64; 3]>, interval: Option<f64>, types: Vec<(char, Vec<String>)>, epochs: Vec<(i64, Vec<(String, Vec<Option<f64>>)>, u8)>, noise: u32 }
fn obs() -> impl Strategy<Value = Obs> {
    let types = proptest::collection::btree_map(prop_oneof![Just('G'), Just('R'), Just('E'), Just('C'), Just('J')], proptest::collection::btree_set("[CLDS][1-8][A-Z]", 1..30), 1..4);
    let v = || proptest::option::weighted(0.8, prop_oneof![4 => 1e7f64..4e8, 1 => -1e5f64..1e5, 1 => Just(0.0), 1 => -999_999_999.0f64..9_999_999_999.0].prop_map(|x| q(x, 3)));
    let sats = proptest::collection::btree_map("[GREC][0-3][0-9]", proptest::collection::vec(v(), 30), 0..6);
    let meta = (prop_oneof!["[A-Z0-9]{4,9}", "[A-Z0-9][A-Z0-9 ._-]{0,40}[A-Z0-9]"], proptest::option::of([-6.4e6f64..6.4e6, -6.4e6f64..6.4e6, -6.4e6f64..6.4e6].prop_map(|v| v.map(|x| q(x, 4)))), proptest::option::of(prop_oneof![Just(30.0), Just(1.0), Just(0.1), (0.001f64..3600.0).prop_map(|x| q(x, 3))]));
    (meta, types, proptest::collection::vec((when(), sats, any::<u8>()), 0..4), any::<u32>()).prop_map(|((marker, xyz, interval), types, eps, noise)| {
        let types: Vec<(char, Vec<String>)> = types.into_iter().map(|(c, s)| (c, s.into_iter().rev().collect())).collect();
        let epochs = eps.into_iter().map(|(t, s, f)| (t, s.into_iter().map(|(id, v)| { let n = types.iter().find(|x| id.starts_with(x.0)).map_or(0, |x| x.1.len()); (id, v[..n].to_vec()) }).collect(), f)).collect();
        Obs { marker, xyz, interval, types, epochs, noise }
    })
}
fn obs_text(o: &Obs) -> Vec<(u8, String)> {
    let mut l: Vec<(u8, String)> = vec![(0, label("     3.04           OBSERVATION DATA    M (MIXED)", "RINEX VERSION / TYPE")), (0, label("made up", "COMMENT")), (0, label(&o.marker, "MARKER NAME"))];
    if let Some(x) = o.xyz { l.push((0, label(&format!("{:14.4}{:14.4}{:14.4}", x[0], x[1], x[2]), "APPROX POSITION XYZ"))) }
    for (c, t) in &o.types { for (k, ch) in t.chunks(13).enumerate() { let head = if k == 0 { format!("{c}  {:>3}", t.len()) } else { " ".repeat(6) }; l.push((0, label(&format!("{head}{}", ch.iter().map(|x| format!(" {x}")).collect::<String>()), "SYS / # / OBS TYPES"))) } }
    if let Some(x) = o.interval { l.push((0, label(&format!("{x:10.3}"), "INTERVAL"))) }
    l.push((0, label("", "END OF HEADER")));
    for (t, sats, f) in &o.epochs {
        let c = civil(*t);
        let stamp = format!("> {:04} {:02} {:02} {:02} {:02} {:>2}.{:06}0", c.year(), c.month(), c.day(), c.hour(), c.minute(), c.second(), c.timestamp_subsec_micros());
        if f & 3 == 3 { let flag = 2 + f / 4 % 5; l.push((0, format!("{stamp}  {flag}  2"))); l.push((0, label("  ANTENNA MOVED", "COMMENT"))); l.push((0, if flag == 6 { "G05  20000000.000 7".into() } else { label("NEWMARK", "MARKER NAME") })) }
        l.push((1, format!("{stamp}  {}{:3}{}", f / 4 % 2, sats.len(), if f & 16 == 16 { "      -0.123456789012" } else { "" })));
        for (id, v) in sats {
            let mut row = id.clone();
            for (k, x) in v.iter().enumerate() { match x { Some(x) => { row += &format!("{x:14.3}"); row += if o.noise >> (k % 30) & 1 == 1 { "17" } else { "  " } } None => row += &" ".repeat(16) } }
            l.push((2, if o.noise & 1 == 1 { row } else { row.trim_end().to_string() }));
        }
    }
    l
}
fn obs_is(r: &RinexObs, o: &Obs, what: &str) -> Result<(), String> {
    ensure!(r.marker == o.marker, "{what}: marker {:?} written {:?}", r.marker, o.marker);
    ensure!(r.approx_xyz_m.map(|v| v.map(|x| x.value())) == o.xyz, "{what}: position {:?} written {:?}", r.approx_xyz_m, o.xyz);
    ensure!(r.interval_s.map(|x| x.value()) == o.interval, "{what}: interval {:?} written {:?}", r.interval_s, o.interval);
    ensure!(r.obs_types.len() == o.types.len(), "{what}: systems {:?}", r.obs_types);
    for (c, t) in &o.types { ensure!(r.obs_types.get(c) == Some(t), "{what}: {c} observes {:?}, written {t:?}", r.obs_types.get(c)) }
    ensure!(r.epochs.len() == o.epochs.len(), "{what}: {} epochs of {}", r.epochs.len(), o.epochs.len());
    for (a, (t, sats, _)) in r.epochs.iter().zip(&o.epochs) {
        let us = micros(a.time)?;
        ensure!((us - *t as f64).abs() <= tick(what), "{what}: epoch {} us away from {}", us - *t as f64, civil(*t));
        ensure!(a.satellites.len() == sats.len(), "{what}: satellites {:?} written {:?}", a.satellites.keys(), sats.iter().map(|x| &x.0).collect::<Vec<_>>());
        for (id, v) in sats {
            let m = a.satellites.get(id).ok_or_else(|| format!("{what}: {id} missing"))?;
            let ty = o.types.iter().find(|x| id.starts_with(x.0)).map(|x| x.1.clone()).unwrap_or_default();
            ensure!(m.len() == v.iter().flatten().count(), "{what}: {id} has {m:?}, written {v:?}");
            for (k, x) in v.iter().enumerate() { ensure!(m.get(&ty[k]).copied() == *x, "{what}: {id} {} is {:?}, written {x:?}", ty[k], m.get(&ty[k])) }
        }
    }
    Ok(())
}
const BAD: [&str; 5] = ["x.123", "NaN", "inf", "1.2.3", "--1.0"];

fn main() {
    let mut c = Check::new("C22", "products with at least one record");
    c.assume("epochs are compared to 60 us per conversion, the accuracy of the civil-time conversions of the tempoch crate; the milliseconds around a possible leap second are not generated");

    c.prop("SP3 read as written, by the batch and the streaming reader", 24000, sp3, |p| {
        let text = sp3_text(p);
        let r = np("reading SP3", || read_sp3(text.as_bytes()))?.map_err(|e| format!("well-formed SP3 refused: {e}\n{text}"))?;
        ensure!(r.header == p.header, "header {:?} written {:?}", r.header, p.header);
        sp3_is(&r.epochs, p, "batch")?;
        let mut s = np("opening an SP3 stream", || Sp3Stream::new(text.as_bytes()))?.map_err(|e| format!("stream refused: {e}"))?;
        ensure!(s.header() == &p.header[..], "stream header {:?}", s.header());
        let mut all = vec![];
        while let Some(e) = np("streaming SP3", || s.next_epoch())?.map_err(|e| format!("stream stopped: {e}"))? { all.push(e); ensure!(all.len() <= p.epochs.len(), "stream yields too many epochs") }
        ensure!(all == r.epochs, "stream differs from batch");
        ensure!(np("streaming SP3", || s.next_epoch())?.map_err(|e| e.to_string())?.is_none(), "stream resumes after its end");
        Ok(if p.epochs.iter().any(|e| !e.1.is_empty()) { "positions" } else { "-no position" })
    });
    c.prop("SP3 written in format columns and read back", 20000, sp3, |p| {
        let r = read_sp3(sp3_text(p).as_bytes()).map_err(|e| e.to_string())?;
        let mut b = vec![];
        np("writing SP3", || write_sp3(&mut b, &r))?.map_err(|e| format!("not written: {e}"))?;
        let back = np("reading SP3", || read_sp3(&b[..]))?.map_err(|e| format!("own output refused: {e}\n{}", String::from_utf8_lossy(&b)))?;
        ensure!(back.header == p.header, "header changed");
        for (x, y) in back.epochs.iter().zip(&r.epochs) { ensure!((micros(x.time)? - micros(y.time)?).abs() <= 2.0 * TICK, "epoch moved") }
        let text = String::from_utf8(b).map_err(|e| e.to_string())?;
        let lines: Vec<&str> = text.lines().skip(p.header.len()).collect();
        ensure!(lines.last() == Some(&"EOF"), "no end marker");
        let mut k = 0;
        for (t, rows) in &p.epochs {
            let l = lines[k]; k += 1;
            let f = |a: usize, b: usize| -> Result<f64, String> { l.get(a..b).and_then(|x| x.trim().parse().ok()).ok_or_else(|| format!("columns {a}-{b} of {l:?}")) };
            let (y, mo, d, h, mi, s) = (f(3, 7)?, f(8, 10)?, f(11, 13)?, f(14, 16)?, f(17, 19)?, f(20, 31)?);
            ensure!(s < 60.0, "seconds of {l:?}");
            let dt = Utc.with_ymd_and_hms(y as i32, mo as u32, d as u32, h as u32, mi as u32, 0).single().ok_or_else(|| format!("no such instant: {l:?}"))?;
            let us = (dt - civil(0)).num_seconds() as f64 * 1e6 + s * 1e6;
            ensure!((us - *t as f64).abs() <= 2.0 * TICK, "printed epoch {l:?} for {}", civil(*t));
            for (id, x, _) in rows {
                let l = lines[k]; k += 1;
                ensure!(l.get(0..4) == Some(&format!("P{id}")), "record {l:?} for {id}");
                for j in 0..4 { let v: f64 = l.get(4 + 14 * j..18 + 14 * j).and_then(|x| x.trim().parse().ok()).ok_or_else(|| format!("columns of {l:?}"))?; ensure!(v == x[j], "column {j} of {l:?} holds {v}, not {}", x[j]) }
            }
        }
        Ok(if k > p.epochs.len() { "positions" } else { "-no position" })
    });
    c.prop("damaged SP3 records are refused", 8000, || (sp3(), any::<u32>(), 0usize..4, 0usize..5), |(p, r, kind, bad)| {
        let mut l: Vec<String> = sp3_text(p).lines().map(String::from).collect();
        let r = *r as usize;
        let ix: Vec<usize> = (0..l.len()).filter(|k| l[*k].starts_with(if *kind < 3 { 'P' } else { '*' })).collect();
        if ix.is_empty() { return Ok("-no record") }
        let k = ix[r % ix.len()];
        match kind {
            0 => { let j = r / 7 % 4; l[k].replace_range(4 + 14 * j..18 + 14 * j, &format!("{:>14}", BAD[*bad])) }
            1 => { let n = 18 + 14 * (r / 7 % 3); l[k].truncate(n) }
            2 => { let id = l[k].clone(); let first = (0..l.len()).find(|k| l[*k].starts_with('*')).unwrap(); l.remove(k); l.insert(first, id); l.retain(|x| !x.starts_with('*')); l.retain(|x| !x.is_empty()); if let Ok(r) = np("reading SP3", || read_sp3(l.join("\n").as_bytes()))? { ensure!(r.epochs.is_empty(), "records without an epoch are dated: {r:?}") } return Ok("no epoch") }
            _ => l[k] = ["*  2001 13  1  0  0  0.00000000", "*  2001  2 29  0  0  0.00000000", "*  2001  1  1 24  0  0.00000000", "*  2001  1  1  0 60  0.00000000", "*  2001  1  1  0  0 61.00000000", "*  2001  1  1  0  0 -5.00000000", "*  2001  1  1  0  0", "*  2001  1  x  0  0  0.00000000"][r / 7 % 8].into(),
        }
        let text = l.join("\n") + "\n";
        if let Ok(r) = np("reading a damaged SP3", || read_sp3(text.as_bytes()))? { return Err(format!("damage {kind} at line {}: accepted as {r:?}\n{text}", k + 1)) }
        let streamed = np("streaming a damaged SP3", || { let mut s = Sp3Stream::new(text.as_bytes()).map_err(|_| ())?; while s.next_epoch().map_err(|_| ())?.is_some() {} Ok::<(), ()>(()) })?;
        ensure!(streamed.is_err(), "damage {kind}: accepted by the stream\n{text}");
        Ok(["malformed number", "missing number", "", "impossible epoch"][*kind])
    });

    c.prop("ANTEX read as written and rewritten", 16000, antex, |(a, noise)| {
        let text = antex_text(a, *noise);
        let g = np("reading ANTEX", || read_antex(text.as_bytes()))?.map_err(|e| format!("well-formed ANTEX refused: {e}\n{text}"))?;
        antex_is(&g, a, "read")?;
        let mut b = vec![];
        np("writing ANTEX", || write_antex(&mut b, &g))?.map_err(|e| format!("not written: {e}"))?;
        let again = np("reading ANTEX", || read_antex(&b[..]))?.map_err(|e| format!("own output refused: {e}"))?;
        antex_is(&again, a, "rewritten")?;
        // The text depends on the contents alone, antennas and frequencies in alphabetical order.
        let own = String::from_utf8_lossy(&b).into_owned();
        let mut b2 = vec![];
        write_antex(&mut b2, &again).map_err(|e| e.to_string())?;
        ensure!(b == b2, "one catalogue is written in two ways\n{own}\n{}", String::from_utf8_lossy(&b2));
        let field = |l: &str, tag: &str| l.get(60..).filter(|x| x.trim() == tag).map(|_| l[..60].trim().to_string());
        let names: Vec<String> = own.lines().filter_map(|l| field(l, "TYPE / SERIAL NO")).collect();
        ensure!(names.is_sorted(), "antennas out of order: {names:?}");
        for block in own.split("TYPE / SERIAL NO") { let f: Vec<String> = block.lines().filter_map(|l| field(l, "START OF FREQUENCY")).collect(); ensure!(f.is_sorted(), "frequencies out of order: {f:?}") }
        Ok(if a.iter().any(|x| !x.1.is_empty()) { "offsets" } else { "-no offset" })
    });
    // An antenna block without an end contributes nothing to the next one.
    c.prop("unfinished ANTEX blocks stay apart", 16000, || (antex(), any::<u32>()), |((a, noise), r)| {
        if a.len() < 2 { return Ok("-too few antennas") }
        let text = antex_text(a, *noise & !2);
        let cut = *r as usize % (a.len() - 1);
        let mut k = 0;
        let left: String = text.lines().filter(|l| { let end = l.trim_end().ends_with("END OF ANTENNA"); if end { k += 1 } !(end && k == cut + 1) }).map(|l| format!("{l}\n")).collect();
        let g = match np("reading ANTEX", || read_antex(left.as_bytes()))? { Ok(g) => g, Err(_) => return Ok("refused") };
        for (n, f) in a.iter().enumerate().filter(|(k, _)| *k != cut).map(|x| x.1) {
            let m = g.get(n).ok_or_else(|| format!("antenna {n:?} is lost\n{left}"))?;
            ensure!(m.len() == f.len() && f.iter().all(|(id, _)| m.contains_key(id)), "antenna {n:?} has frequencies {:?}\n{left}", m.keys());
        }
        Ok("unfinished block")
    });
    c.prop("malformed ANTEX offsets are refused", 3200, || (antex(), any::<u32>(), 0usize..6), |((a, noise), r, bad)| {
        let mut l: Vec<String> = antex_text(a, *noise & !2).lines().map(String::from).collect();
        let mut inside = false;
        let ix: Vec<usize> = (0..l.len()).filter(|k| { if l[*k].contains("START OF FREQUENCY") { inside = true } if l[*k].contains("END OF FREQUENCY") { inside = false } inside && l[*k].contains("NORTH / EAST / UP") }).collect();
        if ix.is_empty() { return Ok("-no offset") }
        let k = ix[*r as usize % ix.len()]; let j = *r as usize / 11 % 3;
        l[k].replace_range(10 * j..10 * j + 10, &format!("{:>10}", BAD.get(*bad).unwrap_or(&"")));
        if let Ok(g) = np("reading a damaged ANTEX", || read_antex(l.join("\n").as_bytes()))? { return Err(format!("{:?} accepted: {g:?}", l[k])) }
        Ok("malformed offset")
    });

    c.prop("SINEX station estimates read as written", 16000, sinex, |(a, v, noise)| {
        let text = join(&sinex_lines(a, v, *noise), noise & 2 == 2);
        for mode in [ParseMode::Strict, ParseMode::Permissive] {
            let s = np("reading SINEX", || read_sinex(text.as_bytes(), mode))?.map_err(|e| format!("well-formed SINEX refused: {e}\n{text}"))?;
            ensure!(s.agency == *a, "agency {:?} written {a:?}", s.agency);
            let want: Vec<&Sta> = v.iter().filter(|s| s.n >= 3).collect();
            let key = |s: &StationCoordinate| (s.code.clone(), s.point_code.clone(), s.solution_id.clone());
            ensure!(s.stations.iter().map(key).collect::<Vec<_>>() == want.iter().map(|s| s.key.clone()).collect::<Vec<_>>(), "stations {:?} written {:?}", s.stations.iter().map(key).collect::<Vec<_>>(), want.iter().map(|s| &s.key).collect::<Vec<_>>());
            for (g, w) in s.stations.iter().zip(want) {
                let f = |k: usize| -> f64 { w.v[k].trim().parse().unwrap() };
                let p = [g.position.x().value(), g.position.y().value(), g.position.z().value()];
                ensure!(p == [f(0), f(1), f(2)], "{:?}: position {p:?} written {:?}", w.key, w.v);
                ensure!(g.velocity_m_yr == (w.n == 6).then(|| [f(3), f(4), f(5)]), "{:?}: velocity {:?} written {:?} ({} estimates)", w.key, g.velocity_m_yr, w.v, w.n);
                let y = w.epoch.0 + if w.epoch.0 <= 50 { 2000 } else { 1900 };
                ensure!((g.ref_epoch_mjd - yd_mjd(y, w.epoch.1, w.epoch.2 as f64)).abs() <= 1e-9, "{:?}: epoch {} written {:?}", w.key, g.ref_epoch_mjd, w.epoch);
            }
        }
        Ok(if v.is_empty() { "-empty" } else if v.len() > 1 { "several stations" } else { "one station" })
    });
    c.prop("strict SINEX reading refuses damaged estimates", 6000, || (sinex(), any::<u32>(), 0usize..3, 0usize..5), |((a, v, noise), r, kind, bad)| {
        let mut l = sinex_lines(a, v, *noise);
        let ix: Vec<usize> = (0..l.len()).filter(|k| l[*k].0).collect();
        if ix.is_empty() { return Ok("-no estimate") }
        let k = ix[*r as usize % ix.len()];
        match kind { 0 => l[k].1.replace_range(47..68, &format!("{:>21}", BAD[*bad])), 1 => l[k].1.truncate(40), _ => l[k].1.replace_range(27..39, ["10:367:00000", "xx:001:00000", "10:001:90000", "10:001      ", "10:0a1:00000"][*bad]) }
        if *kind == 2 && *bad == 3 { l[k].1 = l[k].1.replace("10:001      ", "10:001:") }
        let text = join(&l, false);
        if let Ok(s) = np("reading a damaged SINEX", || read_sinex(text.as_bytes(), ParseMode::Strict))? { return Err(format!("{:?} accepted: {s:?}", l[k].1)) }
        np("reading a damaged SINEX", || read_sinex(text.as_bytes(), ParseMode::Permissive))?.map_err(|e| format!("permissive reading stops at {:?}: {e}", l[k].1))?;
        Ok(["malformed value", "missing fields", "malformed epoch"][*kind])
    });

    c.prop("ORBEX records read as written", 16000, orbex, |o| {
        let (l, want) = orbex_rows(o);
        let text = join(&l, o.noise & 8 == 8);
        for mode in [ParseMode::Strict, ParseMode::Permissive] {
            let g = np("reading ORBEX", || read_orbex(text.as_bytes(), mode))?.map_err(|e| format!("well-formed ORBEX refused: {e}\n{text}"))?;
            ensure!(g.version == o.version, "version {:?} written {:?}", g.version, o.version);
            let mut got: [Vec<(f64, String, Vec<f64>)>; 3] = [vec![], vec![], vec![]];
            for e in &g.orbits { let mut v = e.pos_m.to_vec(); if let Some(w) = e.vel_m_s { v.extend(w) } got[0].push((e.epoch_mjd, e.sat.clone(), v)) }
            for e in &g.clocks { got[1].push((e.epoch_mjd, e.sat.clone(), vec![e.bias_s])) }
            for e in &g.attitudes { got[2].push((e.epoch_mjd, e.sat.clone(), e.quaternion.to_vec())) }
            for kind in 0..3 {
                let w: Vec<_> = want.iter().filter(|x| x.1 .0 == kind).collect();
                ensure!(w.len() == got[kind].len(), "{} records of kind {kind}, written {}", got[kind].len(), w.len());
                for (a, (t, (_, id, v))) in got[kind].iter().zip(w) { let v: Vec<f64> = v.iter().map(|x| x.parse().unwrap()).collect(); ensure!((a.0 - t).abs() <= 1e-9 && a.1 == *id && a.2 == v, "kind {kind}: {a:?} written {t} {id} {v:?}") }
            }
        }
        Ok(if want.is_empty() { "-no record" } else { "records" })
    });
    c.prop("strict ORBEX reading refuses damaged records", 6000, || (orbex(), any::<u32>(), 0usize..4, 0usize..5), |(o, r, kind, bad)| {
        let (mut l, _) = orbex_rows(o);
        let ix: Vec<usize> = (0..l.len()).filter(|k| l[*k].0).collect();
        if ix.is_empty() { return Ok("-no record") }
        let k = ix[*r as usize % ix.len()];
        let ep = (0..k).rev().find(|j| l[*j].1.starts_with("##")).unwrap();
        match kind {
            0 => { let mut w: Vec<String> = l[k].1.split_whitespace().map(String::from).collect(); w[1] = BAD[*bad].into(); l[k].1 = format!(" {}", w.join(" ")) }
            1 => { let w = l[k].1.split_whitespace().next().unwrap().to_string(); l[k].1 = format!(" {w}") }
            2 => l[ep].1 = ["## 2024", "## 2024 400 0.0", "## 2023 366 0.0", "## 2024 010 x", "## year 010 0.0"][*bad].into(),
            _ => { l.retain(|x| !x.1.starts_with("##")) }
        }
        let text = join(&l, false);
        if let Ok(s) = np("reading a damaged ORBEX", || read_orbex(text.as_bytes(), ParseMode::Strict))? { return Err(format!("damage {kind} accepted: {s:?}\n{text}")) }
        Ok(["malformed value", "missing fields", "malformed epoch", "no epoch"][*kind])
    });

    c.prop("RINEX navigation records read as written and rewritten", 16000, nav, |n| {
        let text = join(&nav_lines(n), n.style & 16 == 16);
        for mode in [ParseMode::Strict, ParseMode::Permissive] { nav_is(&np("reading RINEX NAV", || parse_rinex_nav_with_mode(&text, mode))?.map_err(|e| format!("well-formed NAV refused: {e}\n{text}"))?, n, 2.3e-16, "read")? }
        let f = parse_rinex_nav(&text).map_err(|e| e.to_string())?;
        let mut b = vec![];
        np("writing RINEX NAV", || write_rinex_nav(&mut b, &f))?.map_err(|e| format!("not written: {e}"))?;
        let own = String::from_utf8(b).map_err(|e| e.to_string())?;
        nav_is(&np("reading RINEX NAV", || parse_rinex_nav(&own))?.map_err(|e| format!("own output refused: {e}\n{own}"))?, n, 1e-15, "rewritten")?;
        // The written records keep the format's columns.
        let lines: Vec<&str> = own.lines().skip_while(|l| !l.contains("END OF HEADER")).skip(1).collect();
        ensure!(lines.len() == 8 * n.recs.len(), "{} lines for {} records", lines.len(), n.recs.len());
        for (k, (_, _, v, _)) in n.recs.iter().enumerate() {
            for j in 0..20 { let (row, at) = if j < 3 { (0, 23 + 19 * j) } else { (1 + (j - 3) / 4, 4 + 19 * ((j - 3) % 4)) }; let l = lines[8 * k + row]; let x: f64 = l.get(at..at + 19).and_then(|s| s.trim().replace('D', "E").parse().ok()).ok_or_else(|| format!("columns {at} of {l:?}"))?; ensure!(close(x, v[j], 0.0, 1e-15), "{} in columns {at} of {l:?}, not {}", FIELD[j], v[j]) }
        }
        Ok(if n.recs.is_empty() { "-empty" } else { "records" })
    });
    c.prop("RINEX navigation files on disk", 1500, || (nav(), any::<bool>()), |(n, missing)| {
        let text = join(&nav_lines(n), n.style & 16 == 16);
        let f = Scratch::new("in.rnx", text.as_bytes())?;
        if *missing { ensure!(read_rinex_nav(f.beside("none.rnx")).is_err(), "a file that is not there was read"); return Ok("-missing") }
        let g = np("read_rinex_nav", || read_rinex_nav(f.path()))?.map_err(|e| e.to_string())?;
        ensure!(format!("{g:?}") == format!("{:?}", parse_rinex_nav(&text).map_err(|e| e.to_string())?), "read_rinex_nav and parse_rinex_nav differ on\n{text}");
        let out = f.beside("out.rnx");
        std::fs::write(&out, "X".repeat(text.len() + 500)).map_err(|e| e.to_string())?;
        np("write_rinex_nav_to_path", || write_rinex_nav_to_path(&out, &g))?.map_err(|e| e.to_string())?;
        let mut own = Vec::new();
        write_rinex_nav(&mut own, &g).map_err(|e| e.to_string())?;
        ensure!(std::fs::read(&out).map_err(|e| e.to_string())? == own, "the file written differs from the text written");
        Ok("files")
    });
    c.prop("strict RINEX navigation reading refuses damaged records", 6000, || (nav(), any::<u32>(), 0usize..5, 0usize..5), |(n, r, kind, bad)| {
        if n.recs.is_empty() { return Ok("-empty") }
        let mut l = nav_lines(n);
        let r = *r as usize;
        let ix: Vec<usize> = (0..l.len()).filter(|k| l[*k].0).collect();
        let k = ix[r % ix.len()];
        let head = (0..=k).rev().find(|j| l[*j].1.starts_with('G')).unwrap();
        match kind {
            0 => { let at = if head == k { 23 } else { 4 }; l[k].1.replace_range(at..at + 19, &format!(" {:>17} ", BAD[*bad])) }
            1 => { if k == head { l[k].1.truncate(61) } else if k == head + 5 { l[k].1.clear(); } else { l[k].1.truncate(61) } }
            2 => l[head].1.replace_range(4..23, ["2001 13 01 00 00 00", "2001 02 30 00 00 00", "2001 01 01 24 00 00", "2001 01 01 00 61 00", "2001 01 0x 00 00 00"][*bad]),
            3 => l[head].1.replace_range(1..3, ["00", "xx", "-1", "  ", "0x"][*bad]),
            _ => { let h = l.len() - 1; l.truncate(h); if n.style & 32 == 32 { let cut = l.len().max(5) - 1; l.truncate(cut.max(head + 1)); } }
        }
        let text = join(&l, false);
        if let Ok(f) = np("reading a damaged NAV", || parse_rinex_nav(&text))? { return Err(format!("damage {kind} accepted: {f:?}\n{text}")) }
        np("reading a damaged NAV", || parse_rinex_nav_with_mode(&text, ParseMode::Permissive))?.map_err(|e| format!("permissive reading stops: {e}\n{text}"))?;
        Ok(["malformed value", "missing fields", "impossible epoch", "bad PRN", "truncated"][*kind])
    });

    c.prop("RINEX observations read as written and rewritten", 16000, obs, |o| {
        let text = obs_text(o).into_iter().map(|x| x.1).collect::<Vec<_>>().join(if o.noise & 2 == 2 { "\r\n" } else { "\n" }) + "\n";
        let r = np("reading RINEX OBS", || read_rinex_obs(text.as_bytes()))?.map_err(|e| format!("well-formed OBS refused: {e}\n{text}"))?;
        obs_is(&r, o, "read")?;
        let mut b = vec![];
        np("writing RINEX OBS", || write_rinex_obs(&mut b, &r))?.map_err(|e| format!("not written: {e}"))?;
        let again = np("reading RINEX OBS", || read_rinex_obs(&b[..]))?.map_err(|e| format!("own output refused: {e}\n{}", String::from_utf8_lossy(&b)))?;
        obs_is(&again, o, "rewritten")?;
        let mut b2 = vec![];
        write_rinex_obs(&mut b2, &again).map_err(|e| e.to_string())?;
        // Epochs come back to within tempoch's tens of microseconds.
        let strip = |b: &[u8]| -> String { String::from_utf8_lossy(b).lines().map(|l| if l.starts_with('>') { format!("> {}\n", l.get(29..).unwrap_or("")) } else { format!("{l}\n") }).collect() };
        ensure!(strip(&b) == strip(&b2), "one observation file is written in two ways\n{}\n{}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&b2));
        Ok(if o.epochs.iter().any(|e| e.1.iter().any(|s| s.1.iter().flatten().count() > 0)) { "observations" } else { "-no observation" })
    });
    c.prop("damaged RINEX observation epochs are refused", 6000, || (obs(), any::<u32>(), 0usize..3, 0usize..5), |(o, r, kind, bad)| {
        let mut l = obs_text(o);
        let r = *r as usize;
        let ix: Vec<usize> = (0..l.len()).filter(|k| l[*k].0 == if *kind == 0 { 1 } else { 2 }).filter(|k| *kind != 1 || l[*k].1.get(3..17).is_some_and(|s| !s.trim().is_empty())).collect();
        if ix.is_empty() { return Ok("-nothing to damage") }
        let k = ix[r % ix.len()];
        match kind {
            0 => l[k].1.replace_range(2..29, ["2001 13 01 00 00  0.0000000", "2001 02 30 00 00  0.0000000", "2001 01 01 24 00  0.0000000", "2001 01 01 00 0x  0.0000000", "2001 01 01 00 00  x.0000000"][*bad]),
            1 => l[k].1.replace_range(3..17, &format!("{:>14}", BAD[*bad])),
            _ => { let last = *ix.last().unwrap(); l.truncate(last) }
        }
        let text = l.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join("\n") + "\n";
        if let Ok(f) = np("reading a damaged OBS", || read_rinex_obs(text.as_bytes()))? { return Err(format!("damage {kind} ({:?}) accepted: {f:?}\n{text}", l.get(k))) }
        Ok(["malformed epoch", "malformed value", "truncated"][*kind])
    });

    c.prop("RINEX-DORIS headers and records read as written", 16000, || ([("[A-Z0-9][A-Za-z0-9 ._-]{0,16}[A-Z0-9]"), "[A-Z0-9]{1,10}", "[A-Z0-9][A-Z0-9 ._-]{0,30}[A-Z0-9]", "[A-Z0-9]{1,20}", "[A-Z0-9]{1,18}"], proptest::collection::vec((when(), proptest::collection::vec(("D[0-9]{2}", "[0-9. -]{0,60}", any::<u8>()), 0..5)), 0..5), any::<u32>()), |(h, eps, noise)| {
        let mut l = vec![label("     3.00           O                   D", "RINEX VERSION / TYPE"), label(&format!("{:<20}{:<20}20240101 000000 UTC", h[0], h[1]), "PGM / RUN BY / DATE"), label("x", "COMMENT"), label(&h[2], "MARKER NAME"), label(&format!("{:<20}{:<20}", "DORIS", h[3]), "ANT # / TYPE"), label(&format!("{:<20}{:<20}{:<20}", "CHAIN1", h[4], "1.00"), "REC # / TYPE / VERS"), label("", "END OF HEADER")];
        let mut want = vec![];
        let mut skipped = 0;
        for (t, rows) in eps {
            let cv = civil(*t);
            l.push(format!("> {:04} {:02} {:02} {:02} {:02} {:02}.{:06}000  0  {}       -4.432841287 0", cv.year(), cv.month(), cv.day(), cv.hour(), cv.minute(), cv.second(), cv.timestamp_subsec_micros(), rows.len()));
            for (id, raw, f) in rows { l.push(format!("{id}{raw}")); want.push((mjd(*t), id.clone(), raw.trim().to_string())); if raw.trim().is_empty() { skipped += 1 } if f & 3 == 3 { l.push("        -1234.567 7".into()); skipped += 1 } }
        }
        let text = l.join(if noise & 1 == 1 { "\r\n" } else { "\n" }) + "\n";
        let r = np("reading DORIS", || read_rinex_doris(text.as_bytes()))?.map_err(|e| format!("well-formed DORIS refused: {e}\n{text}"))?;
        ensure!(r.header.version == "3.00" && r.header.program == h[0] && r.header.agency == h[1] && r.header.marker_name == h[2] && r.header.antenna_type == h[3] && r.header.receiver_type == h[4], "header {:?} written {h:?}", r.header);
        ensure!(r.observations.len() == want.len(), "{} records of {}", r.observations.len(), want.len());
        for (a, w) in r.observations.iter().zip(&want) { ensure!((a.epoch_mjd - w.0).abs() <= 1e-9 && a.satellite_id == w.1 && a.raw_measurements == w.2, "{a:?} written {w:?}") }
        ensure!(r.unsupported_obs == skipped, "{} unsupported lines counted, {skipped} written", r.unsupported_obs);
        let ix: Vec<usize> = (0..l.len()).filter(|k| l[*k].starts_with('>')).collect();
        if let Some(k) = ix.get(*noise as usize % ix.len().max(1)) {
            l[*k] = ["> 2024 13 01 00 00 00.0", "> 2024 02 30 00 00 00.0", "> 2024 01 01 25 00 00.0", "> 2024 01", "> 2024 01 01 00 0x 00.0", "> 2024 01 01 00 00 NaN"][*noise as usize / 16 % 6].into();
            if let Ok(r) = np("reading a damaged DORIS", || read_rinex_doris(l.join("\n").as_bytes()))? { return Err(format!("{:?} accepted: {r:?}", l[*k])) }
        }
        Ok(if want.is_empty() { "-no record" } else { "records" })
    });
    c.finish()
}
