//! C05: Earth-orientation data.
use proptest::prelude::*;
use siderust::astro::earth_rotation::*;
use siderust::astro::eop::*;
use siderust::coordinates::transform::context::{AstroContext, DefaultEphemeris, DynAstroContext};
use siderust::formats::iers::eop::{interpolate, read_eop_c04, EopRecord, EopValues as C04Values};
use siderust::qtty::*;
use siderust::JulianDate;
use std::sync::Mutex;
use tempoch::{ModifiedJulianDate, UTC};
use vharness::refs::*;
use vharness::*;

/// One daily row: mjd and [x, y, dut1, lod, dX, dY] in arcsec and seconds.
type Row = (i64, [f64; 6]);
fn civil(mjd: i64) -> (i64, i64, i64) {
    // Fliegel & Van Flandern
    let l = mjd + 2_400_001 + 68_569;
    let n = 4 * l / 146_097;
    let l = l - (146_097 * n + 3) / 4;
    let i = 4000 * (l + 1) / 1_461_001;
    let l = l - 1461 * i / 4 + 31;
    let j = 80 * l / 2447;
    let d = l - 2447 * j / 80;
    let l = j / 11;
    (100 * (n - 49) + i + l, j + 2 - 12 * l, d)
}
/// Rows with a UT1-UTC drift, leap-second steps and (for C04) gaps.
fn rows(gaps: bool) -> BoxedStrategy<Vec<Row>> {
    (30_000i64..70_000, -0.6f64..0.6, -0.003f64..0.003, prop::collection::vec((any::<u64>(), 0u8..10, [-0.6f64..0.6, -0.6f64..0.6, -0.004f64..0.004, -0.002f64..0.002, -0.002f64..0.002]), 2..25))
        .prop_map(move |(start, d0, drift, v)| {
            let mut mjd = start;
            let mut dut = d0;
            v.into_iter().map(|(g, leap, [x, y, lod, dx, dy])| {
                let r = (mjd, [x, y, dut, lod, dx, dy].map(|q| (q * 1e6).round() / 1e6));
                let step = if gaps && g % 7 == 0 { 1 + (g / 7 % 9) as i64 } else { 1 };
                mjd += step;
                dut += drift * step as f64;
                // a leap second keeps |UT1-UTC| below 0.9 s, as the IERS does
                if dut < -0.55 || (leap == 0 && dut < 0.0) { dut += 1.0; } else if dut > 0.55 || (leap == 0 && dut > 0.0) { dut -= 1.0; }
                r
            }).collect()
        }).boxed()
}
fn c04_line(r: &Row, style: u8) -> String {
    let (y, m, d) = civil(r.0);
    let v = &r.1;
    match style % 4 {
        0 => format!("{y:4}{m:4}{d:4}{:7}{:11.6}{:11.6}{:12.7}{:12.7}{:11.6}{:11.6}   0.000030   0.000029  0.0000045  0.0000103    0.000047    0.000050", r.0, v[0], v[1], v[2], v[3], v[4], v[5]),
        1 => format!("{y} {m} {d} {} {} {} {} {} {} {}", r.0, v[0], v[1], v[2], v[3], v[4], v[5]),
        2 => format!("\t{y}  {m:02}  {d:02}  {}.00  {:e}  {:+}  {}  {}  {}  {}  ", r.0, v[0], v[1], v[2], v[3], v[4], v[5]),
        _ => format!("{y:4}{m:4}{d:4}{:7}{:11.6}{:11.6}{:12.7}{:12.7}{:11.6}{:11.6}\r", r.0, v[0], v[1], v[2], v[3], v[4], v[5]),
    }
}
fn rec(r: &Row) -> EopRecord {
    EopRecord { mjd: mjd(r.0 as f64), eop: C04Values { xp: Arcseconds::new(r.1[0]), yp: Arcseconds::new(r.1[1]), dut1: Seconds::new(r.1[2]), lod: Seconds::new(r.1[3]), dx: MilliArcseconds::new(r.1[4] * 1000.0), dy: MilliArcseconds::new(r.1[5] * 1000.0) } }
}
fn vals(e: &C04Values) -> [f64; 6] { [e.xp.value(), e.yp.value(), e.dut1.value(), e.lod.value(), e.dx.value() / 1000.0, e.dy.value() / 1000.0] }
fn mjd(x: f64) -> ModifiedJulianDate<UTC> { ModifiedJulianDate::<UTC>::try_new(Days::new(x)).unwrap() }
/// Reference: the row itself on a row; linear in between, UT1-UTC continuous up to the later row.
fn reference(t: &[Row], q: f64) -> [f64; 6] {
    if let Some(r) = t.iter().find(|r| r.0 as f64 == q) { return r.1; }
    let k = t.windows(2).find(|w| (w[0].0 as f64) < q && q < w[1].0 as f64).unwrap();
    let f = (q - k[0].0 as f64) / (k[1].0 - k[0].0) as f64;
    let mut out = [0.0; 6];
    for i in 0..6 {
        let mut b = k[1].1[i];
        if i == 2 { while b - k[0].1[2] > 0.5 { b -= 1.0; } while b - k[0].1[2] < -0.5 { b += 1.0; } }
        out[i] = k[0].1[i] * (1.0 - f) + b * f;
    }
    out
}
fn query() -> BoxedStrategy<f64> { prop_oneof![5 => -0.15f64..1.15, 2 => (0.0f64..1.0).prop_map(|x| -100.0 - x)].boxed() }
/// Position in the table: fraction of the span, or (below -100) exactly a row.
fn at(t: &[Row], u: f64) -> f64 {
    if u <= -100.0 { return t[(((-100.0 - u) * t.len() as f64) as usize).min(t.len() - 1)].0 as f64; }
    let (a, b) = (t[0].0 as f64, t[t.len() - 1].0 as f64);
    a + u * (b - a)
}

/// TAI-UTC by UTC MJD since 1972.
const LEAPS: [(i64, f64); 28] = [(41317, 10.), (41499, 11.), (41683, 12.), (42048, 13.), (42413, 14.), (42778, 15.), (43144, 16.), (43509, 17.), (43874, 18.), (44239, 19.), (44786, 20.), (45151, 21.), (45516, 22.), (46247, 23.), (47161, 24.), (47892, 25.), (48257, 26.), (48804, 27.), (49169, 28.), (49534, 29.), (50083, 30.), (50630, 31.), (51179, 32.), (53736, 33.), (54832, 34.), (56109, 35.), (57204, 36.), (57754, 37.)];
fn tai_utc(mjd: f64) -> f64 { LEAPS.iter().rev().find(|l| l.0 as f64 <= mjd).map_or(10.0, |l| l.1) }
const MONTHS: [&str; 12] = ["Jan.", "Feb.", "Mar.", "Apr.", "May", "Jun.", "Jul.", "Aug.", "Sep.", "Oct.", "Nov.", "Dec."];
fn history() -> String {
    let mut s = String::from(" ---------------\n UTC-TAI.history\n ---------------\n");
    for (i, l) in LEAPS.iter().enumerate() {
        let (y, m, d) = civil(l.0);
        let end = LEAPS.get(i + 1).map(|n| { let (y, m, d) = civil(n.0); format!("{y} {} {d}", MONTHS[m as usize - 1]) }).unwrap_or_default();
        s += &format!(" {y} {} {d} - {end} {}s\n", MONTHS[m as usize - 1], l.1);
    }
    s
}
/// finals2000A.all line; `pole`: whether dX/dY and LOD columns are filled.
fn finals_line(r: &Row, full: bool, predicted: bool) -> String {
    let (y, m, d) = civil(r.0);
    let v = &r.1;
    let f = if predicted { 'P' } else { 'I' };
    let mut s = vec![b' '; 187];
    let mut put = |c: usize, t: String| { for (i, b) in t.bytes().enumerate() { s[c - 1 + i] = b; } };
    put(1, format!("{:02}{:2}{:2}", y % 100, m, d));
    put(8, format!("{:8.2}", r.0 as f64));
    put(17, f.to_string());
    put(19, format!("{:9.6}", v[0]));
    put(28, format!("{:9.6}", 0.00003));
    put(38, format!("{:9.6}", v[1]));
    put(47, format!("{:9.6}", 0.00003));
    put(58, f.to_string());
    put(59, format!("{:10.7}", v[2]));
    put(69, format!("{:10.7}", 0.00001));
    if full {
        put(80, format!("{:7.4}", v[3] * 1000.0));
        put(96, f.to_string());
        put(98, format!("{:9.3}", v[4] * 1000.0));
        put(117, format!("{:9.3}", v[5] * 1000.0));
    }
    String::from_utf8(s).unwrap()
}
/// Scratch directory of the runtime bundle, removed at exit of the check.
fn scratch() -> std::path::PathBuf { std::env::temp_dir().join(format!("vh-c05-{}", std::process::id())) }
/// A provider whose polar motion is the date it was asked for.
#[derive(Debug, Clone, Default)]
struct Stamp;
impl EopProvider for Stamp {
    fn eop_at(&self, jd_utc: JulianDate) -> EopValues {
        EopValues { xp: Arcseconds::new(jd_utc.raw().value()), ..Default::default() }
    }
}
static BUNDLE: Mutex<()> = Mutex::new(());
fn install(t: &[Row], full: &[bool]) -> Result<(), String> {
    let hex = |s: &str| ref_sha256(s.as_bytes()).iter().map(|b| format!("{b:02x}")).collect::<String>();
    let eop: String = t.iter().zip(full).map(|(r, f)| finals_line(r, *f, false) + "\n").collect();
    let hist = history();
    let obs = "1973 02 01 43.4724\n1973 03 01 43.5648\n2024 01 01 69.1752\n".to_string();
    let pred = "MJD YEAR TT-UT\n 60400.000 2024.25 69.20\n 63000.000 2031.25 69.9\n".to_string();
    let dir = scratch().join("bundle");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let prov = format!("fetched_utc = \"2026-01-01T00:00:00\"\nutc_tai_sha256 = \"{}\"\ndelta_t_observed_sha256 = \"{}\"\ndelta_t_predictions_sha256 = \"{}\"\neop_finals_sha256 = \"{}\"\n", hex(&hist), hex(&obs), hex(&pred), hex(&eop));
    for (n, s) in [("UTC-TAI.history", &hist), ("deltat.data", &obs), ("deltat.preds", &pred), ("finals2000A.all", &eop), ("time_data.provenance.toml", &prov)] {
        std::fs::write(dir.join(n), s).map_err(|e| e.to_string())?;
    }
    tempoch::update_runtime_time_data().map_err(|e| format!("harness: bundle not accepted: {e:?}"))
}
fn no_data(jd: f64) -> Result<(), String> {
    match IersEop::new().try_eop_at(JulianDate::new(jd)) {
        Err(EopError::NoData { jd_utc, mjd_utc }) => { ensure!(jd_utc == jd && (mjd_utc - (jd - 2_400_000.5)).abs() < 1e-9, "error names epoch {jd_utc}/{mjd_utc}, not {jd}"); Ok(()) }
        Ok(v) => Err(format!("JD {jd} lies outside coverage but gave {v:?}")),
    }
}

fn main() {
    std::env::set_var("TEMPOCH_DATA_DIR", scratch());
    let mut c = Check::new("C05", "generated EOP series (UT1-UTC drift with leap-second steps, gaps) written as C04 and finals2000A text, read back and queried on rows, between rows and outside; non-trivial: a query strictly inside the series or a refusal outside it");
    c.assume("tempoch's parser and holder of the finals2000A bundle is outside the repository; it is fed a generated cached bundle in a scratch directory");
    c.prop("c04_file_round_trip", 4_000, || (rows(true), any::<u64>(), 0u8..4), |(t, junk, style)| {
        let mut text = String::new();
        let mut j = *junk;
        for r in t {
            match j % 9 { 0 => text += "# comment 2024 1 1 60310 1 2 3 4 5 6\n", 1 => text += "\n", 2 => text += "  DATE  MJD  x  y  UT1-UTC  LOD  dX  dY x Err\n", 3 => text += "2024 1 1 60310 0.1\n", 4 => text += "(0h UTC) \" \" s s \" \" \" \" s s\n", _ => {} }
            j /= 9;
            if j == 0 { j = *junk ^ 0x9e37_79b9; }
            text += &c04_line(r, *style);
            text.push('\n');
        }
        let got = read_eop_c04(text.as_bytes()).map_err(|e| format!("{e}\n{text}"))?;
        ensure!(got.len() == t.len(), "{} rows read from {}:\n{text}", got.len(), t.len());
        for (g, r) in got.iter().zip(t) {
            ensure!(g.mjd.raw().value() == r.0 as f64, "row of MJD {} read as {}", r.0, g.mjd.raw().value());
            let v = vals(&g.eop);
            for i in 0..6 { ensure!(close(v[i], r.1[i], 1e-15, 1e-14), "MJD {} column {} (x y dut1 lod dX dY): {} instead of {}", r.0, i, v[i], r.1[i]); }
        }
        Ok("round trip")
    });
    c.prop("c04_damage_refused", 1_500, || (rows(true), any::<usize>(), 4usize..10, prop_oneof![Just("x"), Just("0.1.2"), Just("--0.3"), Just("1,5"), Just("0.1e"), Just("*****")]), |(t, at, col, bad)| {
        let k = at % t.len();
        let mut text = String::new();
        for (i, r) in t.iter().enumerate() {
            let mut f: Vec<String> = c04_line(r, 1).split_whitespace().map(|s| s.to_string()).collect();
            if i == k { f[*col] = bad.to_string(); }
            text += &(f.join(" ") + "\n");
        }
        match read_eop_c04(text.as_bytes()) {
            Err(_) => Ok("refused"),
            Ok(g) => { ensure!(g.iter().all(|g| g.mjd.raw().value() != t[k].0 as f64), "row with {bad:?} in column {col} read as {:?}", g.iter().find(|g| g.mjd.raw().value() == t[k].0 as f64).unwrap().eop); Ok("row left out") }
        }
    });
    c.prop("c04_interpolation", 20_000, || (rows(true), prop::collection::vec(query(), 1..6)), |(t, qs)| {
        ensure!(interpolate(&[], mjd(50_000.0)).is_none(), "value from an empty table");
        let table: Vec<EopRecord> = t.iter().map(rec).collect();
        let (first, last) = (t[0].0 as f64, t[t.len() - 1].0 as f64);
        let mut inside = false;
        for u in qs {
            let q = mjd(at(t, *u));
            let qv = q.raw().value();
            let g = interpolate(&table, q).ok_or("no value")?;
            let v = vals(&g.eop);
            let want = if qv <= first { t[0].1 } else if qv >= last { t[t.len() - 1].1 } else { inside = true; reference(t, qv) };
            // the stored epoch has a resolution that scales the tolerance
            for i in 0..6 { ensure!(close(v[i], want[i], 3e-11, 0.0), "MJD {} column {} (x y dut1 lod dX dY): {} instead of {}", qv, i, v[i], want[i]); }
            let clamped = qv.clamp(first, last);
            ensure!(g.mjd.raw().value() == clamped, "value labelled MJD {} for a query at {}", g.mjd.raw().value(), qv);
        }
        Ok(if inside { "inside" } else { "-outside only" })
    });
    c.prop_scaled("iers_bundle", 400, 4_000, || (rows(false), prop::collection::vec(query(), 1..30), prop::collection::vec(any::<bool>(), 25), [-0.9f64..0.9, -1.0f64..1.0]), |(t, qs, blank, [own, jit])| {
        let _g = BUNDLE.lock().unwrap_or_else(|e| e.into_inner());
        // leap-second steps are where the history says
        let mut dut = t[0].1[2];
        let t: Vec<Row> = t.iter().enumerate().map(|(i, r)| {
            if i > 0 { dut += -0.002 * jit + tai_utc(r.0 as f64) - tai_utc(r.0 as f64 - 1.0); }
            let mut v = r.1.map(|q| (q * 1e6).round() / 1e6);
            v[2] = (dut * 1e7).round() / 1e7;
            (r.0, v)
        }).collect();
        let t = &t[..];
        // the tail of the series may lack LOD and pole offsets
        let nfull = if blank[0] { t.len() } else { t.len() / 2 };
        let full: Vec<bool> = (0..t.len()).map(|i| i < nfull).collect();
        install(t, &full)?;
        let p = IersEop::new();
        let (first, last) = (t[0].0 as f64, t[t.len() - 1].0 as f64);
        let r = p.mjd_range().ok_or("no range")?;
        ensure!(r.0.value() == first && r.1.value() == last && p.len() == t.len() && !p.is_empty(), "range {:?}, {} rows, for MJD {first}..{last}", r, p.len());
        let mut label = "-outside only";
        for u in qs.iter().chain([&-0.1, &1.000001, &-100.0, &-100.99999]) {
            let jd = at(t, *u) + 2_400_000.5;
            let q = jd - 2_400_000.5;
            if q < first || q > last { no_data(jd)?; let z = p.eop_at(JulianDate::new(jd)); ensure!(z.dut1.value() == 0.0 && z.xp.value() == 0.0, "value invented outside coverage"); continue; }
            let g = p.try_eop_at(JulianDate::new(jd)).map_err(|e| format!("inside coverage: {e}"))?;
            let w = reference(t, q);
            // On the evening of a leap second "UT1-UTC" stays on the earlier day's side.
            let i = t.iter().rposition(|r| r.0 as f64 <= q).unwrap();
            let on_row = t[i].0 as f64 == q;
            let known = full[i] && (full[(i + 1).min(t.len() - 1)]);
            let gv = [g.xp.value(), g.yp.value(), g.dut1.value(), g.lod.value(), g.dx.value() / 1000.0, g.dy.value() / 1000.0];
            for k in 0..6 {
                let lim = if k == 2 { 3e-9 } else { 1e-10 };
                if k >= 3 && !known { ensure!(gv[k] == 0.0 || (on_row && close(gv[k], w[k], lim, 0.0)), "blank column {k} became {}", gv[k]); continue; }
                ensure!(close(gv[k], w[k], lim, 0.0), "MJD {q} column {k} (x y dut1 lod dX dY): {} instead of {}", gv[k], w[k]);
            }
            let e2 = p.eop_at(JulianDate::new(jd));
            ensure!(e2.dut1.value() == g.dut1.value() && e2.xp.value() == g.xp.value() && e2.dy.value() == g.dy.value(), "checked and total lookups differ");
            if label != "inside, with time scales" { label = "inside"; }
            // time-scale helpers with the series
            let day = q.floor() as i64;
            let near_leap = LEAPS.iter().any(|l| (l.0 as f64 - q).abs() < 1e-3);
            if q >= 41_318.0 && q > first + 0.01 && q < last - 0.01 && !near_leap {
                let tt = jd + (tai_utc(day as f64) + 32.184) / 86_400.0;
                let ut1 = jd + w[2] / 86_400.0;
                let g = jd_ut1_from_tt_eop(JulianDate::new(tt), &g).raw().value();
                ensure!((g - ut1).abs() * 86_400.0 < 3e-4, "MJD {q}: UT1 off by {} s", (g - ut1) * 86_400.0);
                let mut mine = EopValues::default();
                mine.dut1 = Seconds::new(*own);
                let g = jd_ut1_from_tt_eop(JulianDate::new(tt), &mine).raw().value();
                ensure!((g - jd - own / 86_400.0).abs() * 86_400.0 < 3e-4, "MJD {q}: the caller's UT1-UTC {} is not honoured: {} s", own, (g - jd) * 86_400.0);
                let utc = try_jd_utc_from_tt(JulianDate::new(tt)).map_err(|e| format!("{e}"))?.raw().value();
                ensure!((utc - jd).abs() * 86_400.0 < 3e-4, "MJD {q}: UTC off by {} s", (utc - jd) * 86_400.0);
                let gm = try_gmst_with_eop(JulianDate::new(tt)).map_err(|e| format!("{e}"))?.value();
                ensure!(adiff(gm, gmst06(ut1, tt)) < 3e-8, "MJD {q}: GMST {} instead of {}", gm, gmst06(ut1, tt));
                // contexts hand their provider the UTC date
                let ctx = AstroContext::<DefaultEphemeris, Stamp>::with_types();
                let dynamic = DynAstroContext::with_ephemeris_and_eop(Box::new(siderust::ephemeris::Vsop87Ephemeris), Stamp);
                let t = JulianDate::new(tt);
                let u = JulianDate::new(jd);
                let fallible = |r: Result<EopValues, EopError>| r.map_err(|e| format!("context lookup: {e}"));
                for (what, e, lim) in [
                    ("AstroContext::eop_at_tt", ctx.eop_at_tt(t), 3e-4), ("DynAstroContext::eop_at_tt", dynamic.eop_at_tt(t), 3e-4),
                    ("AstroContext::try_eop_at_tt", fallible(ctx.try_eop_at_tt(t))?, 3e-4), ("DynAstroContext::try_eop_at_tt", fallible(dynamic.try_eop_at_tt(t))?, 3e-4),
                    ("AstroContext::eop_at", ctx.eop_at(u), 1e-9), ("DynAstroContext::eop_at", dynamic.eop_at(u), 1e-9),
                    ("AstroContext::try_eop_at", fallible(ctx.try_eop_at(u))?, 1e-9), ("DynAstroContext::try_eop_at", fallible(dynamic.try_eop_at(u))?, 1e-9),
                ] {
                    ensure!((e.xp.value() - jd).abs() * 86_400.0 < lim, "MJD {q}: {what} looked up a date {} s away", (e.xp.value() - jd) * 86_400.0);
                }
                label = "inside, with time scales";
            }
            if q < first - 1.0 || q > last + 2.0 { ensure!(try_jd_utc_from_tt(JulianDate::new(jd)).is_err(), "UTC invented outside coverage"); }
        }
        Ok(label)
    });
    c.prop("values_and_total_providers", 4_000, || (2_400_000.5f64..2_500_000.0, [-1.0f64..1.0, -1.0f64..1.0]), |(jd, [dut, x])| {
        let e = EopValues { dut1: Seconds::new(*dut), xp: Arcseconds::new(*x), ..Default::default() };
        ensure!((e.jd_ut1(JulianDate::new(*jd)).raw().value() - (jd + dut / 86_400.0)).abs() < 1e-9, "jd_ut1");
        struct Fixed(EopValues);
        impl EopProvider for Fixed { fn eop_at(&self, _: JulianDate) -> EopValues { self.0 } }
        let g = Fixed(e).try_eop_at(JulianDate::new(*jd)).unwrap();
        ensure!(g.dut1.value() == *dut && g.xp.value() == *x, "total provider altered");
        let z = NullEop.try_eop_at(JulianDate::new(*jd)).unwrap();
        ensure!([z.dut1.value(), z.xp.value(), z.yp.value(), z.dx.value(), z.dy.value(), z.lod.value()] == [0.0; 6], "NullEop is not zero");
        Ok("provider")
    });
    // Leaves nothing behind: the bundle directory goes before the report is written.
    c.finish_with(|| { let _ = std::fs::remove_dir_all(scratch()); })
}
