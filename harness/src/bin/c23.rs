//! C23: ILRS CPF and CRD files against the generated tables they were written from.
use proptest::prelude::*;
use siderust::formats::ilrs::{cpf::*, crd::*};
use siderust::formats::ParseMode;
use vharness::*;

fn mjd_civil(mjd: i64) -> (i64, i64, i64) { // proleptic Gregorian, from days since 0000-03-01
    let z = mjd + 678_881; let era = z.div_euclid(146_097); let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, d)
}
/// Microseconds since MJD 0 of a returned epoch, by its civil reading.
fn micros(t: siderust::time::Time<siderust::time::UTC>) -> Result<i64, String> {
    let c = t.try_to_chrono().map_err(|e| format!("epoch has no civil reading: {e:?}"))?;
    Ok(c.timestamp_micros() + 40_587 * 86_400_000_000)
}
/// A decimal second of day: exact nanoseconds plus more digits, and its text.
#[derive(Debug, Clone)]
struct Sod { text: String, us: i64 }
fn sod() -> impl Strategy<Value = Sod> {
    let whole = prop_oneof![6 => 0u64..86_400, 1 => Just(0), 2 => Just(86_399), 1 => (0u64..1440).prop_map(|m| m * 60 + 59)];
    let frac = prop_oneof![2 => Just(String::new()), 2 => Just(".0".to_string()), 3 => "[0-9]{1,12}".prop_map(|d| format!(".{d}")), 2 => (1usize..13).prop_map(|n| format!(".{}", "9".repeat(n))), 1 => Just(".9996".to_string()), 1 => Just(".0000000000049".to_string())];
    (whole, frac).prop_map(|(w, f)| { let us = w as f64 * 1e6 + f.strip_prefix('.').map_or(0.0, |d| d.parse::<f64>().unwrap() / 10f64.powi(d.len() as i32)) * 1e6; Sod { text: format!("{w}{f}"), us: us.round() as i64 } })
}
/// Decimal text of a number and the number.
fn num(lim: f64) -> impl Strategy<Value = String> { (-1.0f64..1.0, 0usize..7).prop_map(move |(v, n)| format!("{:.n$}", v * lim)) }
fn word() -> impl Strategy<Value = String> { "[A-Za-z][A-Za-z0-9_.-]{0,9}" }
/// Midnights that follow a leap second: the civil reading of an instant within rounding of one may be 23:59:60.
const LEAPS: [i64; 28] = [41317, 41499, 41683, 42048, 42413, 42778, 43144, 43509, 43874, 44239, 44786, 45151, 45516, 46247, 47161, 47892, 48257, 48804, 49169, 49534, 50083, 50630, 51179, 53736, 54832, 56109, 57204, 57754];
fn off(got: i64, want: i64) -> i64 {
    let d = got - want; let day = 86_400_000_000;
    if LEAPS.iter().any(|l| (want - l * day).abs() <= 1000) { [d, d - 1_000_000, d + 1_000_000].into_iter().min_by_key(|v| v.abs()).unwrap() } else { d }
}
const TOL: i64 = 100; // microseconds: the time library's own civil rounding

#[derive(Debug, Clone)]
struct Pred { mjd: i64, sod: Sod, dir: u8, leap: i32, p: [String; 3] }
#[derive(Debug, Clone)]
struct Cpf { ver: u8, source: String, id: String, sic: i32, norad: String, step: String, frame: String, recs: Vec<(Pred, String)>, bad: Vec<(usize, usize)>, extra: u8, trail: bool }
fn cpf() -> impl Strategy<Value = Cpf> {
    let mjd = prop_oneof![6 => 41_400i64..73_000, 1 => Just(60_369), 1 => Just(60_310), 1 => Just(51_543), 1 => Just(51_603)];
    let pred = (mjd, sod(), 0u8..3, prop_oneof![8 => Just(0), 1 => Just(1)], [num(4.3e7), num(4.3e7), num(4.3e7)]).prop_map(|(mjd, sod, dir, leap, p)| Pred { mjd, sod, dir, leap, p });
    let sep = prop_oneof![Just(" ".to_string()), Just("   ".to_string()), Just("\t".to_string())];
    ((prop_oneof![Just(1u8), Just(2)], word(), word(), 0i32..10_000, "[0-9]{1,7}", prop_oneof![4 => (1u32..1000).prop_map(|v| v.to_string()), 1 => Just("0".to_string()), 1 => Just("0.5".to_string()), 1 => Just("7.25".to_string())], word()),
     proptest::collection::vec((pred, sep), 0..30), proptest::collection::vec((0usize..30, 0usize..16), 0..3), any::<u8>(), any::<bool>())
        .prop_map(|((ver, source, id, sic, norad, step, frame), recs, bad, extra, trail)| Cpf { ver, source, id, sic, norad, step, frame, recs, bad, extra, trail })
}
/// Damaged replacements of a position record that no reader may take at face value.
fn broken(k: usize) -> &'static str {
    ["10", "10 1", "10 1 x 0.0 0 1.0 2.0 3.0", "10 1 60310", "10 1 60310 z 0 1.0 2.0 3.0", "10 1 60310 0.0 0", "10 1 60310 0.0 0 1.0", "10 1 60310 0.0 0 1.0 2.0", "10 1 60310 0.0 0 1.0 2.0 q", "10 1 60310 -5.0 0 1.0 2.0 3.0", "10 1 60310 nan 0 1.0 2.0 3.0", "10 1 60310 inf 0 1.0 2.0 3.0", "10 1 60310 90000.0 0 1.0 2.0 3.0", "10 1 9000000000000000000 0.0 0 1.0 2.0 3.0", "10 1 -9223372036854775808 0.0 0 1.0 2.0 3.0", "10 1 60310 0.0 0 nan 2.0 3.0"][k]
}
fn text(f: &Cpf, damaged: bool) -> String {
    let (end, eol) = (if f.trail { "  " } else { "" }, if f.extra & 16 != 0 { "\r\n" } else { "\n" });
    let mut s = format!("H1 CPF {} {} 2024 02 29 12 0601 {end}{eol}", f.ver, f.source);
    s += &format!("H2 {} {} {} 2024 02 29 00 00 00 2024 03 01 23 59 00 {} 1 1 {}{end}{eol}", f.id, f.sic, f.norad, f.step, f.frame);
    if f.extra & 1 != 0 { s += "H3 1 2 3\nH9\n" }
    for (i, (r, sep)) in f.recs.iter().enumerate() {
        if f.extra & 2 != 0 && i % 3 == 0 { s += "\n20 0 100.0 200.0 300.0\n30 0 1 2 3 4\n" }
        if damaged { for (at, k) in &f.bad { if *at == i { s += broken(*k); s += eol } } }
        s += &["10".to_string(), r.dir.to_string(), r.mjd.to_string(), r.sod.text.clone(), r.leap.to_string(), r.p[0].clone(), r.p[1].clone(), r.p[2].clone()].join(sep); s += end; s += eol;
    }
    if damaged { for (at, k) in &f.bad { if *at >= f.recs.len() { s += broken(*k); s += eol } } }
    if f.extra & 4 == 0 { s += "99\n"; if f.extra & 8 != 0 { s += "10 1 60310 0.0 0 1.0 2.0 3.0\n" } }
    s
}
fn header(c: &CpfFile, f: &Cpf) -> Result<(), String> {
    ensure!(c.version == f.ver.to_string() && c.source == f.source, "H1 {} {} read as {} {}", f.ver, f.source, c.version, c.source);
    ensure!(c.cospar_id == f.id && c.target_name == f.id && c.sic == f.sic && c.norad == f.norad, "H2 identity {} {} {} read as {} {} {} {}", f.id, f.sic, f.norad, c.cospar_id, c.target_name, c.sic, c.norad);
    ensure!(c.time_step_s == f.step.parse::<f64>().unwrap(), "H2 step {} read as {}", f.step, c.time_step_s);
    ensure!(c.reference_frame == f.frame, "H2 frame {} read as {}", f.frame, c.reference_frame);
    Ok(())
}
fn records(c: &CpfFile, f: &Cpf, us: i64, m: f64) -> Result<(), String> {
    ensure!(c.ephemeris.entries.len() == f.recs.len() && c.ephemeris.iter().count() == f.recs.len(), "{} records read of {}", c.ephemeris.entries.len(), f.recs.len());
    for (i, (r, _)) in f.recs.iter().enumerate() {
        let e = &c.ephemeris[i];
        let want = r.mjd * 86_400_000_000 + r.sod.us; let got = micros(e.epoch)?;
        ensure!(off(got, want).abs() <= us, "record {i}: MJD {} + {} s ({:?}) read {} us off", r.mjd, r.sod.text, mjd_civil(r.mjd), got - want);
        for (k, v) in [e.position.x().value(), e.position.y().value(), e.position.z().value()].into_iter().enumerate() {
            let w: f64 = r.p[k].parse().unwrap();
            ensure!((v * 1e3 - w).abs() <= m + w.abs() * 1e-14, "record {i} axis {k}: {} m read as {v} km", r.p[k]);
        }
    }
    Ok(())
}

#[derive(Debug, Clone)]
struct Np { sod: Sod, tof: String, sys: Option<String>, f: [u8; 4], raws: u32, rms: String, skew: [String; 3], rate: String, cols: usize }
#[derive(Debug, Clone)]
struct Pass { station: (String, [i32; 4]), target: (String, i32, String, [i32; 2]), day: Option<i64>, c0: Option<String>, nps: Vec<Np> }
#[derive(Debug, Clone)]
struct Crd { ver: u8, passes: Vec<Pass>, bad: Vec<(usize, usize)>, extra: u8 }
fn crd() -> impl Strategy<Value = Crd> {
    let np = (sod(), (1e-3f64..3.0, 9usize..13).prop_map(|(v, n)| format!("{v:.n$}")), word(), [0u8..3, 0u8..3, 0u8..6, 0u8..3], 0u32..5000, num(500.0), [num(3.0), num(9.0), num(99.0)], (0u32..1001).prop_map(|v| format!("{:.1}", v as f64 / 10.0)), 0usize..13)
        .prop_map(|(sod, tof, sys, f, raws, rms, skew, rate, cols)| Np { sod, tof, sys: (cols > 0).then_some(sys), f, raws, rms, skew, rate, cols });
    let pass = ((word(), [0i32..10_000, 0i32..100, 0i32..100, 0i32..12]), (word(), 0i32..10_000, "[0-9]{4,9}", [0i32..2, 0i32..9]), prop_oneof![8 => (41_400i64..73_000).prop_map(Some), 1 => Just(None)], proptest::option::of(word()), proptest::collection::vec(np, 0..12))
        .prop_map(|(station, target, day, c0, nps)| Pass { station, target, day, c0, nps });
    (1u8..3, proptest::collection::vec(pass, 1..4), proptest::collection::vec((0usize..12, 0usize..7), 0..3), any::<u8>()).prop_map(|(ver, passes, bad, extra)| Crd { ver, passes, bad, extra })
}
fn broken11(k: usize) -> &'static str { ["11", "11 x 0.05 std", "11 100.0", "11 100.0 q std", "10 100.0", "11 nan 0.05 std", "11 100.0 inf std"][k] }
fn crd_text(f: &Crd, damaged: bool) -> String {
    let mut s = format!("H1 CRD {} 2024 02 29 12\n", f.ver); let mut n = 0;
    for p in &f.passes {
        let (a, b) = (&p.station, &p.target);
        s += &format!("H2 {} {} {} {} {}\nH3 {} {} {} {} {}\n", a.0, a.1[0], a.1[1], a.1[2], a.1[3], b.0, b.1, b.2, b.3[0], b.3[1]);
        if let Some(d) = p.day { let (y, m, dd) = mjd_civil(d); s += &format!("H4 1 {y} {m:02} {dd:02} 08 05 09 {y} {m} {dd} 23 59 59 0 0 0 0 1 0 2 0\nH5 1 24\n") }
        if let Some(c) = &p.c0 { s += &format!("C0 0 532.000 {c} a b c\nC1 0 x y\n").replace("532.000 ", "") }
        for q in &p.nps {
            if damaged { for (at, k) in &f.bad { if *at == n { s += broken11(*k); s.push('\n') } } } n += 1;
            if f.extra & 1 != 0 { s += "20 33085.0 801.80 282.10 39. 0\n10 100.0 0.08 std 2 0 0 0\n40 1 2 3\n50 a b\n\n" }
            let mut cols = vec!["11".into(), q.sod.text.clone(), q.tof.clone()];
            cols.extend([q.sys.clone().unwrap_or_default(), q.f[0].to_string(), q.f[1].to_string(), q.f[2].to_string(), q.f[3].to_string(), q.raws.to_string(), q.rms.clone(), q.skew[0].clone(), q.skew[1].clone(), q.skew[2].clone(), q.rate.clone(), "0".to_string()].into_iter().take(q.cols));
            s += &cols.join(if f.extra & 2 != 0 { "  " } else { " " }); s += if f.extra & 4 != 0 { " \r\n" } else { "\n" };
        }
        s += "H8\n";
    }
    s + "H9\n"
}
fn crd_records(c: &CrdFile, f: &Crd) -> Result<(), String> {
    ensure!(c.format_version == f.ver.to_string(), "H1 version {} read as {}", f.ver, c.format_version);
    let l = f.passes.last().unwrap(); let (a, b) = (&l.station, &l.target);
    ensure!(c.station == CrdStation { name: a.0.clone(), cdp_pad: a.1[0], sys_no: a.1[1], occ_no: a.1[2], time_zone: a.1[3] }, "H2 {a:?} read as {:?}", c.station);
    ensure!(c.target == CrdTarget { name: b.0.clone(), sic: b.1, norad: b.2.clone(), sc_flag: b.3[0], epoch_id: b.3[1] }, "H3 {b:?} read as {:?}", c.target);
    ensure!((&c.station_name, c.station_cdp_pad, &c.satellite_name, c.satellite_sic, &c.satellite_norad) == (&a.0, a.1[0], &b.0, b.1, &b.2), "mirrored identity differs");
    let total: usize = f.passes.iter().map(|p| p.nps.len()).sum();
    ensure!(c.normal_points.len() == total, "{} normal points read of {total}", c.normal_points.len());
    let (mut i, mut day, mut sys) = (0, None, "std".to_string());
    for p in &f.passes {
        day = p.day.or(day); if let Some(s) = &p.c0 { sys = s.clone() }
        for q in &p.nps {
            let g = &c.normal_points[i]; let at = format!("normal point {i}");
            let (s, t): (f64, f64) = (q.sod.text.parse().unwrap(), q.tof.parse().unwrap());
            ensure!(g.seconds_of_day.value() == s && g.time_of_flight.value() == t, "{at}: {s} {t} read as {:?} {:?}", g.seconds_of_day, g.time_of_flight);
            ensure!((g.range_m.value() - 149_896_229.0 * t).abs() < 1e-7, "{at}: range {:?} for a flight of {t} s", g.range_m);
            ensure!(g.system_config_id == *q.sys.as_ref().unwrap_or(&sys), "{at}: configuration {:?} (or {sys}) read as {}", q.sys, g.system_config_id);
            match (day, g.epoch) {
                (None, None) => {}
                (Some(d), Some(e)) => { let got = micros(e)?; ensure!(off(got, d * 86_400_000_000 + q.sod.us).abs() <= TOL, "{at}: epoch of {:?} + {} s is {} us off", mjd_civil(d), q.sod.text, got - d * 86_400_000_000 - q.sod.us) }
                (d, e) => return Err(format!("{at} at {} s: session day {d:?} but epoch {e:?}", q.sod.text)),
            }
            let flag = |k: usize| if q.cols > k + 1 { q.f[k] } else { 0 };
            ensure!([g.epoch_event, g.filter_flag, g.data_quality, g.format_flag] == [flag(0), flag(1), flag(2), flag(3)], "{at}: flags {:?} (of {} columns) read as {:?}", q.f, q.cols, [g.epoch_event, g.filter_flag, g.data_quality, g.format_flag]);
            ensure!(g.num_raws == (q.cols > 5).then_some(q.raws), "{at}: {} raw ranges read as {:?}", q.raws, g.num_raws);
            let rms: f64 = q.rms.parse().unwrap();
            ensure!(g.bin_rms_m.is_some() == (q.cols > 6) && g.bin_rms_m.is_none_or(|v| close(v.value(), rms * 149.896_229e-6, 1e-12, 1e-12)), "{at}: bin rms {rms} ps read as {:?}", g.bin_rms_m);
            ensure!(g.return_rate == (q.cols > 10).then(|| q.rate.parse().unwrap()), "{at}: return rate {} (of {} columns) read as {:?}", q.rate, q.cols, g.return_rate);
            i += 1;
        }
    }
    match (day, c.session_date) {
        (None, None) => {}
        (Some(d), Some(t)) => ensure!(off(micros(t)?, d * 86_400_000_000).abs() <= TOL, "session date of {:?} read {} us off", mjd_civil(d), micros(t)? - d * 86_400_000_000),
        (d, t) => return Err(format!("session date {d:?} read as {t:?}")),
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C23", "a file with at least one record whose seconds of day carry a fraction");
    c.prop("CPF predictions are read as written", 15_000, || cpf(), |f| {
        let s = text(f, false);
        let frac = f.recs.iter().any(|r| r.0.sod.text.contains('.'));
        for mode in [ParseMode::Strict, ParseMode::Permissive] {
            let g = np("parse_cpf", || parse_cpf_with_mode(&s, mode))?.map_err(|e| format!("{mode:?} refuses a well-formed file: {e}"))?;
            ensure!(g.parse_mode == mode, "mode {:?} reported for {mode:?}", g.parse_mode);
            header(&g, f)?; records(&g, f, TOL, 1e-9)?;
        }
        Ok(if f.recs.is_empty() { "-no records" } else if frac { "fractional" } else { "-whole seconds" })
    });
    c.prop("CPF predictions survive a write and a read", 10_000, || cpf(), |f| {
        let g = parse_cpf(&text(f, false)).map_err(|e| e.to_string())?;
        let mut b = Vec::new(); np("write_cpf", || write_cpf(&g, &mut b).map_err(|e| e.to_string()))??;
        let s = String::from_utf8(b).map_err(|e| e.to_string())?;
        let h = parse_cpf(&s).map_err(|e| format!("the written file is refused: {e}\n{s}"))?;
        header(&h, f)?; records(&h, f, 500 + 2 * TOL, 5.001e-4)?;
        let mut b2 = Vec::new(); write_cpf(&h, &mut b2).map_err(|e| e.to_string())?;
        let s2 = String::from_utf8(b2).map_err(|e| e.to_string())?;
        ensure!(s.lines().count() == s2.lines().count(), "writing again gives other records");
        Ok(if f.recs.iter().any(|r| r.0.sod.text.contains(".999")) { "near a carry" } else if f.recs.is_empty() { "-no records" } else { "written" })
    });
    c.prop("a damaged CPF record is an error, or skipped alone", 8000, || cpf().prop_filter("damage", |f| !f.bad.is_empty()), |f| {
        let s = text(f, true);
        ensure!(np("parse_cpf", || parse_cpf(&s))?.is_err(), "strict mode accepts {:?}", f.bad.iter().map(|b| broken(b.1)).collect::<Vec<_>>());
        let g = np("parse_cpf_with_mode", || parse_cpf_with_mode(&s, ParseMode::Permissive))?.map_err(|e| format!("permissive mode fails on {:?}: {e}", f.bad.iter().map(|b| broken(b.1)).collect::<Vec<_>>()))?;
        header(&g, f)?; records(&g, f, TOL, 1e-9)?;
        Ok(if f.recs.is_empty() { "-nothing else" } else { "damaged" })
    });
    c.prop("CRD normal points are read as written", 15_000, || crd(), |f| {
        let s = crd_text(f, false);
        for mode in [ParseMode::Strict, ParseMode::Permissive] {
            let g = np("parse_crd", || parse_crd_with_mode(&s, mode))?.map_err(|e| format!("{mode:?} refuses a well-formed file: {e}"))?;
            ensure!(g.parse_mode == mode, "mode {:?} reported for {mode:?}", g.parse_mode);
            crd_records(&g, f)?;
        }
        let n = f.passes.iter().flat_map(|p| &p.nps).filter(|q| q.sod.text.contains('.')).count();
        Ok(if n == 0 { "-whole seconds" } else if f.passes.len() > 1 { "several passes" } else { "one pass" })
    });
    c.prop("a damaged CRD range record is an error, or skipped alone", 8000, || crd(), |f| {
        let total: usize = f.passes.iter().map(|p| p.nps.len()).sum();
        if !f.bad.iter().any(|b| b.0 < total) { return Ok("-no damage") }
        let s = crd_text(f, true);
        ensure!(np("parse_crd", || parse_crd(&s))?.is_err(), "strict mode accepts {:?}", f.bad.iter().map(|b| broken11(b.1)).collect::<Vec<_>>());
        let g = np("parse_crd_with_mode", || parse_crd_with_mode(&s, ParseMode::Permissive))?.map_err(|e| format!("permissive mode fails: {e}"))?;
        crd_records(&g, f)?;
        Ok("damaged")
    });
    c.prop("files on disk say what their text says", 1500, || (cpf(), crd(), any::<bool>()), |(p, q, damaged)| {
        let (a, b) = (text(p, *damaged), crd_text(q, *damaged));
        let (fa, fb) = (Scratch::new("a.cpf", a.as_bytes())?, Scratch::new("b.crd", b.as_bytes())?);
        let (x, y) = (np("read_cpf", || read_cpf(fa.path()))?, np("parse_cpf", || parse_cpf(&a))?);
        ensure!(x.is_ok() == y.is_ok() && x.ok().map(|f| format!("{f:?}")) == y.ok().map(|f| format!("{f:?}")), "read_cpf and parse_cpf differ on\n{a}");
        let (x, y) = (np("read_crd", || read_crd(fb.path()))?, np("parse_crd", || parse_crd(&b))?);
        ensure!(x.is_ok() == y.is_ok() && x.ok().map(|f| format!("{f:?}")) == y.ok().map(|f| format!("{f:?}")), "read_crd and parse_crd differ on\n{b}");
        ensure!(read_cpf(fa.beside("none.cpf")).is_err() && read_crd(fa.beside("none.crd")).is_err(), "a file that is not there was read");
        Ok("files")
    });
    c.prop("seconds beyond the day name no instant", 20_000, || (41_400i64..73_000, prop_oneof![3 => 86_400.001f64..86_500.0, 2 => 86_500.0f64..1e6, 2 => -1e4f64..-1e-3]), |(mjd, sod)| {
        let s = format!("H1 CPF 2 X 2024 01 01 00 001 01 name\nH9\n10 0 {mjd} {sod:.3} 0 1.0 2.0 3.0\n99\n");
        ensure!(parse_cpf(&s.replace(&format!(" {sod:.3} "), " 43200.0 ")).is_ok_and(|g| g.ephemeris.entries.len() == 1), "the same file at noon is refused");
        let got = np("parse_cpf", || parse_cpf(&s))?;
        ensure!(got.is_err(), "MJD {mjd} + {sod:.3} s accepted as {:?}", got.map(|g| g.ephemeris.entries.len()));
        let g = np("parse_cpf_with_mode", || parse_cpf_with_mode(&s, ParseMode::Permissive))?;
        ensure!(g.is_err() || g.is_ok_and(|g| g.ephemeris.entries.is_empty()), "MJD {mjd} + {sod:.3} s kept");
        let (y, m, d) = mjd_civil(*mjd);
        let s = format!("H1 CRD 2 2024 02 29 12\nH2 a 1 2 3 4\nH3 b 1 12345 0 1\nH4 1 {y} {m:02} {d:02} 08 05 09 {y} {m} {d} 23 59 59 0 0 0 0 1 0 2 0\n11 {sod:.3} 0.05 std\nH8\nH9\n");
        if let Ok(g) = np("parse_crd", || parse_crd(&s))? { ensure!(g.normal_points.iter().all(|p| p.epoch.is_none()), "a normal point at {sod:.3} s of {y}-{m}-{d} is dated {:?}", g.normal_points[0].epoch.map(micros)) }
        Ok("outside the day")
    });
    c.known_finding(|| {
        // Record 11 of the ILRS CRD manual: configuration, epoch event, window length, raw ranges, rms, ...
        let f = parse_crd("H3 ajisai 8606101 1500 16908 0 1\nH4 1 2006 11 13 18 24 42 2006 11 13 18 25 5 0 0 0 0 1 0 2 0\n11 66282.468083200 0.013984526400 std 2 120.0 18 94.0 -0.385 -1.091 -57.0 0.0\nH8\n").ok()?;
        let p = &f.normal_points[0];
        (p.num_raws != Some(18) || f.target.sic != 1500).then(|| format!("CRD records 11 and H3 are read in a column order of the module's own: the ILRS example's 18 raw ranges are read as {:?}, its SIC 1500 as {}", p.num_raws, f.target.sic))
    });
    c.finish()
}
