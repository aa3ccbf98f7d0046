//! C37: POD products and quality metrics report what was computed.
use chrono::NaiveDate;
use parquet::file::reader::{FileReader, SerializedFileReader};
use proptest::prelude::*;
use sha2::{Digest, Sha256};
use siderust::astro::dynamics::state::{SpacecraftProperties, SpacecraftState};
use siderust::astro::dynamics::{OrbitState, Position, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::formats::ccsds::oem::read_oem;
use siderust::formats::igs::sp3::read_sp3;
use siderust::pod::product::naming::*;
use siderust::pod::product::qc_json::{write_qc_json, QcDocument};
use siderust::pod::product::residuals_parquet::ResidualParquetWriter;
use siderust::pod::product::*;
use siderust::pod::qc::*;
use siderust::pod::run::dataset::DatasetRef;
use siderust::pod::run::manifest::{RunManifest, RUN_MANIFEST_SCHEMA_V1};
use siderust::time::{Time, TT};
use std::collections::BTreeMap;
use vharness::refs::*;
use vharness::*;

type St = (f64, V3, V3);
fn orbit(s: &St) -> OrbitState { OrbitState::new(Time::<TT>::from_raw_j2000_seconds(qtty::Second::new(s.0)).unwrap(), Position::<GCRS>::new(s.1[0], s.1[1], s.1[2]), Velocity::<GCRS>::new(s.2[0], s.2[1], s.2[2])) }
fn vec3(a: f64) -> impl Strategy<Value = V3> { [-a..a, -a..a, -a..a] }
/// Start (TT seconds after J2000, 1999 to 2035), step and states along a series.
fn series() -> impl Strategy<Value = Vec<St>> {
    (prop_oneof![3 => -3.0e7f64..1.1e9, 1 => (-300i64..12_000).prop_map(|d| d as f64 * 86_400.0 - 43_200.0 + 64.184)], prop_oneof![1.0f64..900.0, Just(30.0), Just(900.0), Just(86_400.0)], proptest::collection::vec((vec3(60_000.0), vec3(9.0)), 1..12)).prop_map(|(t, h, v)| v.into_iter().enumerate().map(|(i, (r, v))| (t + h * i as f64, r, v)).collect())
}
/// Days since 1970 to civil date.
fn civil(z: i64) -> (i64, i64, i64) { let z = z + 719_468; let era = z.div_euclid(146_097); let doe = z.rem_euclid(146_097); let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153; let m = if mp < 10 { mp + 3 } else { mp - 9 }; (yoe + era * 400 + i64::from(m <= 2), m, doy - (153 * mp + 2) / 5 + 1) }
fn days(y: i64, m: i64, d: i64) -> i64 { let y = if m <= 2 { y - 1 } else { y }; let era = y.div_euclid(400); let yoe = y.rem_euclid(400); let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1; era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468 }
/// Leap-second steps (UTC day they start, TAI-UTC).
const LEAPS: [((i64, i64, i64), f64); 6] = [((1999, 1, 1), 32.0), ((2006, 1, 1), 33.0), ((2009, 1, 1), 34.0), ((2012, 7, 1), 35.0), ((2015, 7, 1), 36.0), ((2017, 1, 1), 37.0)];
const J2000_UNIX: f64 = 946_728_000.0;
/// UTC seconds since 1970 (no leap seconds counted) of TT seconds since J2000; none next to a leap second.
fn utc(tt: f64) -> Option<f64> { let mut u = 0.0; for ((y, m, d), l) in LEAPS { let x = tt - 32.184 - l + J2000_UNIX; let start = days(y, m, d) as f64 * 86_400.0; if (x - start).abs() < 3.0 { return None } if x >= start { u = x } } Some(u) }
fn num(s: &str) -> Result<f64, String> { s.trim().parse().map_err(|e| format!("{s:?}: {e}")) }
fn stamp(y: f64, mo: f64, d: f64, h: f64, mi: f64, s: f64) -> f64 { days(y as i64, mo as i64, d as i64) as f64 * 86_400.0 + h * 3600.0 + mi * 60.0 + s }
fn scratch(tag: &str) -> std::path::PathBuf { static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); std::env::temp_dir().join(format!("c37-{}-{}-{tag}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))) }
const TT_TOL: f64 = 1.2e-4;

#[derive(Debug, Clone)]
struct Man { id: String, ins: Vec<(String, String, Vec<u8>)>, outs: Vec<(String, String, Vec<u8>)> }
fn refs(max: usize) -> impl Strategy<Value = Vec<(String, String, Vec<u8>)>> { proptest::collection::vec(("[a-c/é\"\\\\]{1,5}", prop_oneof![Just("sp3".to_string()), Just("qc".into()), "[a-z]{1,3}"], proptest::collection::vec(any::<u8>(), 0..200)), 0..max) }
fn hash(b: &[u8]) -> String { Sha256::digest(b).iter().map(|x| format!("{x:02x}")).collect() }
fn near(a: f64, b: f64) -> bool { close(a, b, 1e-12, 1e-10) }
/// Definition of the statistics, with compensated sums.
fn stats(v: &[f64]) -> [f64; 5] { if v.is_empty() { return [0.0; 5] } let n = v.len() as f64; let sum = |f: &dyn Fn(f64) -> f64| { let (mut s, mut c) = (0.0, 0.0); for x in v { let y = f(*x) - c; let t = s + y; c = (t - s) - y; s = t } s };
    let m = sum(&|x| x) / n; [m, if v.len() > 1 { (sum(&|x| (x - m) * (x - m)) / (n - 1.0)).sqrt() } else { 0.0 }, (sum(&|x| x * x) / n).sqrt(), v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)] }
fn same(s: &ResidualStats, v: &[f64]) -> Result<(), String> { let w = stats(v); let m = v.iter().fold(0.0f64, |a, x| a.max(x.abs())); let tol = 1e-10 * (m + 1e-12); ensure!(s.n == v.len() && (s.mean - w[0]).abs() < tol && (s.std - w[1]).abs() < tol * 100.0 && (s.rms - w[2]).abs() < tol && s.min == w[3] && s.max == w[4], "{s:?} instead of {w:?} for {v:?}"); Ok(()) }
fn res() -> impl Strategy<Value = ResidualRecord> { (2.4e6f64..2.5e6, "[CLPD][0-9][A-Z]?", "[GRECJ][0-9]{2}", prop_oneof![3 => -100.0f64..100.0, 1 => -1e-5f64..1e-5, 1 => Just(0.0)], 0.0f64..10.0, any::<bool>()).prop_map(|(epoch_jd_tt, obs_type, satellite, residual_m, sigma_m, rejected)| ResidualRecord { epoch_jd_tt, obs_type, satellite, residual_m, sigma_m, rejected }) }

fn main() {
    let mut c = Check::new("C37", "products of several records; statistics of at least two values");
    c.prop("orbit products in SP3", 25_000, || (series(), "[A-Z][0-9]{2}", any::<u16>()), |(st, id, n)| {
        let mut s: Vec<OrbitState> = st.iter().map(orbit).collect(); if st.iter().any(|x| utc(x.0).is_none()) { return Ok("-next to a leap second") } if n % 40 == 0 { s.clear() }
        let mut out = vec![]; np("write_sp3", || write_sp3_from_states(&mut out, id, &s))?.map_err(|e| e.to_string())?; let text = String::from_utf8(out.clone()).map_err(|e| e.to_string())?; let lines: Vec<&str> = text.lines().collect();
        ensure!(lines.last() == Some(&"EOF"), "no end line");
        let at = |l: &str, a: usize, b: usize| num(l.get(a..b).unwrap_or("?"));
        // Epoch and position lines by their columns.
        let body: Vec<&&str> = lines.iter().filter(|l| l.starts_with('*') || l.starts_with('P')).collect(); ensure!(body.len() == 2 * s.len(), "{} lines for {} states", body.len(), s.len());
        for (k, x) in st.iter().enumerate().take(s.len()) {
            let (e, p) = (body[2 * k], body[2 * k + 1]); let t = stamp(at(e, 3, 7)?, at(e, 8, 10)?, at(e, 11, 13)?, at(e, 14, 16)?, at(e, 17, 19)?, at(e, 20, 31)?); let want = utc(x.0).unwrap();
            ensure!((t - want).abs() < TT_TOL, "epoch {k}: {e} is {} s off", t - want);
            ensure!(&p[1..4] == id, "satellite {p}"); for i in 0..3 { ensure!((at(p, 4 + 14 * i, 18 + 14 * i)? - x.1[i]).abs() <= 5.01e-7, "state {k}: {p} for {:?}", x.1) }
            ensure!((at(p, 46, 60)? - 999_999.999_999).abs() < 1e-6, "an unknown clock is written as {p}");
        }
        // The header describes the same data.
        let (h, w) = (lines[0], lines[1]); ensure!(h.starts_with("#dP") && at(h, 32, 39)? == s.len() as f64, "epoch count: {h}"); ensure!(lines.iter().any(|l| l.starts_with("+ ") && l.contains(id.as_str())), "satellite not listed"); ensure!(lines.iter().find(|l| l.starts_with("%c")).is_some_and(|l| &l[9..12] == "UTC"), "time system");
        if !s.is_empty() {
            let start = stamp(at(h, 3, 7)?, at(h, 8, 10)?, at(h, 11, 13)?, at(h, 14, 16)?, at(h, 17, 19)?, at(h, 20, 31)?); let want = utc(st[0].0).unwrap(); ensure!((start - want).abs() < TT_TOL, "the header starts {} s from the data: {h}", start - want);
            let gps = at(w, 3, 7)? * 604_800.0 + at(w, 8, 23)? + 315_964_800.0; ensure!((gps - start).abs() < 1e-6, "week and second are {} s from the start: {w}", gps - start);
            let mjd = at(w, 39, 44)? + at(w, 45, 60)?; ensure!((mjd - (start / 86_400.0 + 40_587.0)).abs() < 1e-9, "day {mjd}: {w}");
            if st.len() > 1 { ensure!((at(w, 24, 38)? - (utc(st[1].0).unwrap() - want)).abs() < 2.0 * TT_TOL, "interval: {w}") }
        }
        let back = read_sp3(&out[..]).map_err(|e| e.to_string())?; ensure!(back.epochs.len() == s.len(), "{} epochs read back", back.epochs.len());
        for (e, x) in back.epochs.iter().zip(st) { ensure!(e.positions.len() == 1 && e.positions[0].sat_id == *id && (e.positions[0].position.x().value() - x.1[0]).abs() <= 5.01e-7, "read back {e:?}") }
        if n % 16 == 1 { let p = scratch("sp3"); std::fs::write(&p, vec![b'x'; 4000]).map_err(|e| e.to_string())?; let sc: Vec<SpacecraftState> = s.iter().map(|o| SpacecraftState { orbit: *o, properties: SpacecraftProperties::demo_leo() }).collect(); let r = Sp3ProductWriter::new(id.clone()).write_from_states(&p, &sc); let f = std::fs::read(&p); let _ = std::fs::remove_file(&p); r.map_err(|e| e.to_string())?; ensure!(f.map_err(|e| e.to_string())? == out, "the file differs from the stream"); }
        Ok(if s.len() < 2 { "-at most one state" } else { "several states" })
    });

    c.prop("orbit products in OEM", 25_000, || (series(), "[12][0-9]{3}-[0-9]{3}[A-Z]", "[A-Z]{2,8}", any::<u16>()), |(st, id, name, n)| {
        let s: Vec<OrbitState> = st.iter().map(orbit).collect(); let mut out = vec![]; np("write_oem", || write_oem_from_states(&mut out, id, name, &s))?.map_err(|e| e.to_string())?; let text = String::from_utf8(out.clone()).map_err(|e| e.to_string())?;
        let time = |s: &str| -> Result<f64, String> { let f: Vec<f64> = s.split(['-', 'T', ':']).map(num).collect::<Result<_, _>>()?; ensure!(f.len() == 6, "{s}"); Ok(stamp(f[0], f[1], f[2], f[3], f[4], f[5]) - J2000_UNIX) };
        let key = |k: &str| text.lines().find_map(|l| l.split_once('=').filter(|p| p.0.trim() == k).map(|p| p.1.trim().to_string())).ok_or(format!("no {k}"));
        ensure!(key("OBJECT_ID")? == *id && key("OBJECT_NAME")? == *name && key("CENTER_NAME")? == "EARTH" && key("TIME_SYSTEM")? == "TT", "metadata of\n{text}");
        ensure!((time(&key("START_TIME")?)? - st[0].0).abs() < TT_TOL && (time(&key("STOP_TIME")?)? - st.last().unwrap().0).abs() < TT_TOL, "span of\n{text}");
        let data: Vec<&str> = text.lines().skip_while(|l| *l != "META_STOP").skip(1).filter(|l| !l.trim().is_empty()).collect(); ensure!(data.len() == st.len(), "{} lines", data.len());
        for (l, x) in data.iter().zip(st) { let f: Vec<&str> = l.split_whitespace().collect(); ensure!(f.len() == 7 && (time(f[0])? - x.0).abs() < TT_TOL, "{l} for {x:?}"); for i in 0..3 { ensure!((num(f[1 + i])? - x.1[i]).abs() <= 5.01e-7 && (num(f[4 + i])? - x.2[i]).abs() <= 5.01e-10, "{l} for {x:?}") } }
        let back = read_oem(&out[..]).map_err(|e| e.to_string())?; ensure!(back.segments.len() == 1 && back.segments[0].states.len() == st.len() && back.segments[0].metadata.object_id == *id, "read back");
        for (b, x) in back.segments[0].states.iter().zip(st) { ensure!(((b.epoch_jd - 2_451_545.0) * 86_400.0 - x.0).abs() < TT_TOL && (b.velocity_km_s[2] - x.2[2]).abs() <= 5.01e-10, "read back {b:?} for {x:?}") }
        if n % 16 == 1 { let p = scratch("oem"); let sc: Vec<SpacecraftState> = s.iter().map(|o| SpacecraftState { orbit: *o, properties: SpacecraftProperties::demo_leo() }).collect(); let r = OemProductWriter::new(id.clone(), name.clone()).write_from_states(&p, &sc); let f = std::fs::read(&p); let _ = std::fs::remove_file(&p); r.map_err(|e| e.to_string())?; ensure!(f.map_err(|e| e.to_string())? == out, "the file differs from the stream"); }
        Ok(if s.len() < 2 { "-one state" } else { "several states" })
    });

    c.prop("residual tables in CSV and Parquet", 20_000, || proptest::collection::vec(res(), 0..20), |rs| {
        /// Counts what would survive a crash: only flushed bytes.
        struct Sink(Vec<u8>, std::rc::Rc<std::cell::RefCell<Vec<u8>>>); impl std::io::Write for Sink { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let k = b.len().min(7); self.0.extend(&b[..k]); Ok(k) } fn flush(&mut self) -> std::io::Result<()> { *self.1.borrow_mut() = self.0.clone(); Ok(()) } }
        let safe = std::rc::Rc::new(std::cell::RefCell::new(vec![])); let mut w = ResidualCsvWriter::new(Sink(vec![], safe.clone())).map_err(|e| e.to_string())?;
        for (k, r) in rs.iter().enumerate() { w.write_record(r).map_err(|e| e.to_string())?; ensure!(safe.borrow().iter().filter(|b| **b == b'\n').count() == k + 2, "record {k} would be lost in a crash") }
        let text = String::from_utf8(safe.borrow().clone()).map_err(|e| e.to_string())?; let mut l = text.lines(); ensure!(l.next() == Some("epoch_jd_tt,obs_type,satellite,residual_m,sigma_m,rejected"), "header"); let rows: Vec<Vec<&str>> = l.map(|x| x.split(',').collect()).collect(); ensure!(rows.len() == rs.len(), "rows");
        for (f, r) in rows.iter().zip(rs) { ensure!(f.len() == 6 && (num(f[0])? - r.epoch_jd_tt).abs() <= 1.0e-9 && f[1] == r.obs_type && f[2] == r.satellite && (num(f[3])? - r.residual_m).abs() <= 5.01e-7 && (num(f[4])? - r.sigma_m).abs() <= 5.01e-7 && f[5] == r.rejected.to_string(), "{f:?} for {r:?}") }
        let mut p = ResidualParquetWriter::new(std::io::Cursor::new(Vec::<u8>::new())); for r in rs { p.push(r.clone()) } let b = np("finish", || p.finish())?.map_err(|e| e.to_string())?.into_inner();
        let p = scratch("parquet"); std::fs::write(&p, &b).map_err(|e| e.to_string())?; let f = std::fs::File::open(&p).map_err(|e| e.to_string())?; let _ = std::fs::remove_file(&p);
        let rd = SerializedFileReader::new(f).map_err(|e| e.to_string())?; let mut got = vec![]; for row in rd.get_row_iter(None).map_err(|e| e.to_string())? { got.push(row.map_err(|e| e.to_string())?) } ensure!(got.len() == rs.len(), "{} rows in Parquet", got.len());
        use parquet::record::Field; let bits = |x: f64| x.to_bits();
        for (g, r) in got.iter().zip(rs) { let m: BTreeMap<String, Field> = g.get_column_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let d = |k: &str| match m.get(k) { Some(Field::Double(v)) => bits(*v), _ => 1 }; let s = |k: &str| match m.get(k) { Some(Field::Str(v)) => v.clone(), _ => "?".into() };
            ensure!(m.len() == 6 && d("epoch_jd_tt") == bits(r.epoch_jd_tt) && d("residual_m") == bits(r.residual_m) && d("sigma_m") == bits(r.sigma_m) && s("obs_type") == r.obs_type && s("satellite") == r.satellite && m.get("rejected") == Some(&Field::Bool(r.rejected)), "{m:?} for {r:?}") }
        Ok(if rs.len() < 2 { "-at most one" } else { "several records" })
    });

    c.prop("manifests and dataset hashes", 15_000, || ("[a-z0-9\"\\\\é-]{1,10}", refs(6), refs(4)).prop_map(|(id, ins, outs)| Man { id, ins, outs }), |m| {
        let mk = |v: &[(String, String, Vec<u8>)]| v.iter().map(|(p, k, b)| DatasetRef::from_bytes(p.clone(), k.clone(), b)).collect::<Vec<_>>();
        let man = RunManifest { run_id: m.id.clone(), tool_version: "t 1".into(), config_sha256: hash(m.id.as_bytes()), inputs: mk(&m.ins), outputs: mk(&m.outs), started_at: "2026-01-01T00:00:00Z".into(), finished_at: "2026-01-01T00:00:01Z".into() };
        let write = |x: &RunManifest| -> Result<Vec<u8>, String> { let mut b = vec![]; ManifestWriter::write(&mut b, x).map_err(|e| e.to_string())?; Ok(b) }; let b = write(&man)?; ensure!(b.ends_with(b"}\n"), "end of the document");
        let v: serde_json::Value = serde_json::from_slice(&b).map_err(|e| e.to_string())?; let schema: serde_json::Value = serde_json::from_str(RUN_MANIFEST_SCHEMA_V1).unwrap();
        let fields = |x: &serde_json::Value| x.as_object().map(|o| o.keys().cloned().collect::<std::collections::BTreeSet<_>>()); ensure!(fields(&v) == fields(&schema["properties"]), "members {:?}", fields(&v));
        for (name, items) in [("inputs", &m.ins), ("outputs", &m.outs)] {
            let mut want: Vec<(String, String, u64, String)> = items.iter().map(|(p, k, b)| (k.clone(), p.clone(), b.len() as u64, hash(b))).collect(); let got: Vec<(String, String, u64, String)> = v[name].as_array().ok_or("no list")?.iter().map(|d| { (d["kind"].as_str().unwrap_or("").into(), d["path"].as_str().unwrap_or("").into(), d["bytes"].as_u64().unwrap_or(9), d["sha256"].as_str().unwrap_or("").into()) }).collect();
            for d in v[name].as_array().unwrap() { ensure!(fields(d) == fields(&schema["definitions"]["DatasetRef"]["properties"]), "members of a dataset") }
            let path = |p: &String| std::path::PathBuf::from(p); ensure!(got.windows(2).all(|w| (&w[0].0, path(&w[0].1)) <= (&w[1].0, path(&w[1].1))), "{name} are not in canonical order: {got:?}");
            let mut g = got; g.sort(); want.sort(); ensure!(g == want, "{name}: {g:?} instead of {want:?}");
        }
        // Same run, other order of insertion: the same bytes, unless two entries share kind and path.
        let keys: std::collections::BTreeSet<_> = m.ins.iter().map(|x| (&x.1, std::path::Path::new(&x.0))).collect(); let mut rev = man.clone(); rev.inputs.reverse(); if keys.len() == m.ins.len() { ensure!(write(&rev)? == b, "the document depends on the order of insertion") }
        let back: RunManifest = serde_json::from_slice(&b).map_err(|e| e.to_string())?; let mut canon = man.clone(); canon.canonicalize(); ensure!(back == canon, "read back {back:?}");
        if let Some((_, k, d)) = m.ins.first() { let p = scratch("data"); std::fs::write(&p, d).map_err(|e| e.to_string())?; let r = DatasetRef::from_file(&p, k.clone()); let _ = std::fs::remove_file(&p); let r = r.map_err(|e| e.to_string())?; ensure!(r == DatasetRef { path: p.clone(), kind: k.clone(), bytes: d.len() as u64, sha256: hash(d) }, "file {r:?}"); ensure!(DatasetRef::from_file(&p, "x").is_err(), "a missing file is hashed"); }
        Ok(if m.ins.len() < 2 { "-at most one input" } else { "several inputs" })
    });

    c.prop("product names parse back to their fields", 40_000, || (("[A-Z]{3}", "[0-9A-Z]", "[A-Z]{6}", 0i64..22_000, 0u32..24, 0u32..60), ("[0-9]{2}[SMHD]", "[0-9]{2}[SMH]", "[A-Z]{3}", "[A-Z]{3}"), prop_oneof![1u32..60, (1u32..60).prop_map(|m| m * 60), (1u32..100).prop_map(|h| h * 3600), 1u32..350_000], 0u8..6), |((ac, ver, camp, day, h, mi), (span, smp, fty, ext), rate, kind)| {
        let v = ver.chars().next().unwrap(); let (y, mo, d) = civil(day + 3657); let date = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32).unwrap(); let doy = (days(y, mo, d) - days(y, 1, 1) + 1) as u32;
        // Token of a sample interval, and the interval a reader takes from it.
        let tok = sample_rate_to_lfn(*rate); let (n, u) = tok.split_at(2); let sec = n.parse::<u32>().map_err(|e| e.to_string())? * match u { "S" => 1, "M" => 60, "H" => 3600, _ => 0 }; let unit = if *rate < 60 { 1 } else if *rate < 3600 { 60 } else { 3600 };
        ensure!(sec == rate / unit * unit, "{rate} s is written {tok}, which reads {sec} s");
        ensure!(u == match unit { 1 => "S", 60 => "M", _ => "H" }, "{rate} s is written {tok}");
        let (got, want) = match kind {
            0 => (igs_lfn(ac, v, camp, y as i32, doy, *h, *mi, span, smp, fty, ext), (v, camp.as_str(), *h, *mi, span.as_str(), smp.as_str(), fty.as_str(), ext.as_str())),
            1 => (sp3_lfn(ac, v, camp, y as i32, doy, *h, *mi, span, smp), (v, camp.as_str(), *h, *mi, span.as_str(), smp.as_str(), "ORB", "SP3")),
            2 => (clk_filename(ac, v, camp, y as i32, doy, *h, *mi, span, smp), (v, camp.as_str(), *h, *mi, span.as_str(), smp.as_str(), "CLK", "CLK")),
            3 => (rnx_obs_filename(ac, v, camp, y as i32, doy, *h, *mi, span, smp), (v, camp.as_str(), *h, *mi, span.as_str(), smp.as_str(), "MO", "rnx")),
            4 => { let (ty, tag) = if h % 2 == 0 { (Sp3FileType::PositionOnly, "ORB") } else { (Sp3FileType::PositionVelocity, "OBV") }; let (ve, vc) = [(Sp3Version::A, 'a'), (Sp3Version::C, 'c'), (Sp3Version::D, 'd')][*mi as usize % 3]; ensure!(ty.lfn_file_type_tag() == tag && ve.lfn_version_char() == vc, "tags"); (sp3_filename(ac, date, ty, *rate, ve), (vc, "OPSFIN", 0, 0, "01D", tok.as_str(), tag, "SP3")) }
            _ => { let p = sp3_short_filename(&ac.to_lowercase(), date, Sp3Version::C); let s = p.to_str().ok_or("name")?.to_string(); ensure!(s.len() == 12 && s.starts_with(&ac.to_lowercase()) && s.ends_with(".sp3"), "{s}"); let (w, dow) = (s[3..7].parse::<i64>().map_err(|e| e.to_string())?, s[7..8].parse::<i64>().map_err(|e| e.to_string())?); ensure!(dow < 7 && w * 7 + dow + days(1980, 1, 6) == days(y, mo, d), "{s} for {date}"); return Ok("GPS week names") }
        };
        let s = got.to_str().ok_or("name")?; let (stem, e) = s.rsplit_once('.').ok_or("no extension")?; let f: Vec<&str> = stem.split('_').collect(); ensure!(f.len() == 5 && f[0].len() == 10 && f[1].len() == 11, "{s}");
        let n = |a: usize, b: usize| f[1][a..b].parse::<u32>().unwrap_or(9999);
        ensure!((&f[0][..3], f[0].chars().nth(3).unwrap(), &f[0][4..], n(0, 4) as i64, n(4, 7), n(7, 9), n(9, 11)) == (ac.as_str(), want.0, want.1, y, doy, want.2, want.3), "{s} for {y} day {doy}"); ensure!((f[2], f[3], f[4], e) == (want.4, want.5, want.6, want.7), "{s}");
        Ok("long names")
    });

    c.prop("residual statistics", 40_000, || (proptest::collection::vec((0usize..4, prop_oneof![4 => -10.0f64..10.0, 1 => 1e6f64..1.0001e6, 1 => -1e-9f64..1e-9]), 0..40), any::<bool>()), |(v, offset)| {
        let v: Vec<(usize, f64)> = v.iter().map(|(k, x)| (*k, x + if *offset { 50.0 } else { 0.0 })).collect(); let names = ["C1C", "L1C", "SLR", ""]; let all: Vec<f64> = v.iter().map(|x| x.1).collect(); let s = ResidualStats::from_slice(&all); same(&s, &all)?;
        let g = ResidualsByGroup::from_pairs(v.iter().map(|(k, x)| (names[*k], *x))); same(&g.overall, &all)?; let used: std::collections::BTreeSet<&str> = v.iter().map(|x| names[x.0]).collect(); ensure!(g.groups.keys().map(|k| k.as_str()).collect::<std::collections::BTreeSet<_>>() == used, "groups {:?}", g.groups.keys());
        for (k, n) in names.iter().enumerate() { if let Some(x) = g.groups.get(*n) { same(x, &v.iter().filter(|y| y.0 == k).map(|y| y.1).collect::<Vec<_>>())? } }
        let r = SlrValidationReport::from_pairs(v.iter().map(|(k, x)| (2.45e6 + *k as f64, *x))); same(&r.stats, &all)?; ensure!(r.residuals.len() == v.len() && r.residuals.iter().zip(&v).all(|(a, b)| a.jd_tt == 2.45e6 + b.0 as f64 && a.residual_m == b.1), "passes");
        let doc = QcDocument { schema_version: "qc.v1".into(), run_id: "r".into(), software_version: "s".into(), n_obs: v.len(), n_params: 6, reduced_chi2: s.rms, iterations: 3, residuals: g.clone() }; let mut b = vec![]; write_qc_json(&mut b, &doc).map_err(|e| e.to_string())?; let j: serde_json::Value = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
        ensure!(j["n_obs"] == v.len() && j["n_params"] == 6 && j["iterations"] == 3 && j["schema_version"] == "qc.v1" && j["run_id"] == "r" && j["software_version"] == "s" && near(j["reduced_chi2"].as_f64().unwrap_or(-1.0), s.rms), "document {j}");
        let back: ResidualsByGroup = serde_json::from_value(j["residuals"].clone()).map_err(|e| e.to_string())?; ensure!(back.groups.len() == g.groups.len() && near(back.overall.mean, g.overall.mean) && back.overall.n == g.overall.n, "read back {back:?}");
        Ok(if v.len() < 2 { "-at most one" } else if used.len() < 2 { "one group" } else { "several groups" })
    });

    c.prop("orbit differences in radial, along and cross track", 40_000, || proptest::collection::vec((vec3(40_000.0), vec3(9.0), vec3(5.0), vec3(1.0), -1e9f64..1e9), 0..12), |v| {
        let v: Vec<_> = v.iter().filter(|x| { let (r, w) = (norm(x.0), norm(x.1)); r > 100.0 && w > 0.01 && norm(cross(x.0, x.1)) > 0.01 * r * w }).collect();
        let refs: Vec<OrbitState> = v.iter().map(|x| orbit(&(x.4, x.0, x.1))).collect(); let est: Vec<OrbitState> = v.iter().map(|x| orbit(&(x.4, add(x.0, x.2), add(x.1, x.3)))).collect();
        let d = np("rtn_diff", || rtn_diff(&est, &refs))?; ensure!(d.len() == v.len(), "{} differences", d.len()); let mut sum = [0.0; 3];
        for (d, x) in d.iter().zip(&v) {
            let r = scale(x.0, 1.0 / norm(x.0)); let h = cross(x.0, x.1); let n = scale(h, 1.0 / norm(h)); let t = cross(n, r); let w = [dot(x.2, r) * 1e3, dot(x.2, t) * 1e3, dot(x.2, n) * 1e3];
            ensure!((d.r_m - w[0]).abs() < 2e-6 && (d.t_m - w[1]).abs() < 2e-6 && (d.n_m - w[2]).abs() < 2e-6, "{d:?} instead of {w:?}"); ensure!(((d.jd_tt - 2_451_545.0) * 86_400.0 - x.4).abs() < 1e-4, "epoch {d:?}");
            let k = d.position_rtn_km(); ensure!(near(k.x().value() * 1e3, d.r_m) && near(k.y().value() * 1e3, d.t_m) && near(k.z().value() * 1e3, d.n_m), "typed {k:?}"); for i in 0..3 { sum[i] += w[i] * w[i] }
        }
        let s = rtn_summary(&d); let m = |x: f64| if v.is_empty() { 0.0 } else { (x / v.len() as f64).sqrt() }; let w = [m(sum[0]), m(sum[1]), m(sum[2]), m(sum[0] + sum[1] + sum[2])];
        ensure!(s.n == v.len() && (s.rms_r_m - w[0]).abs() < 5e-6 && (s.rms_t_m - w[1]).abs() < 5e-6 && (s.rms_n_m - w[2]).abs() < 5e-6 && (s.rms_3d_m - w[3]).abs() < 5e-6, "{s:?} instead of {w:?}");
        if v.len() > 1 { ensure!(rtn_diff(&est[1..], &refs).len() == v.len() - 1, "unequal lengths"); let short = np("rtn_diff with fewer reference states", || rtn_diff(&est, &refs[..v.len() - 1]))?; ensure!(short.len() == v.len() - 1, "unequal lengths") }
        Ok(if v.len() < 2 { "-at most one" } else { "several epochs" })
    });
    c.finish()
}
