//! C21: CCSDS OEM (KVN, XML), OPM and TDM messages.
use proptest::prelude::*;
use siderust::formats::ccsds::{oem::*, opm::*, tdm::*};
use siderust::formats::FormatError;
use vharness::gen::*;
use vharness::*;

/// A decimal numeral as printed in a document.
fn numeral() -> impl Strategy<Value = String> {
    let x = || prop_oneof![4 => -5e4f64..5e4, 2 => (logu(-12.0, 12.0), any::<bool>()).prop_map(|(v, s)| if s { -v } else { v }), 1 => Just(0.0), 1 => (-1000i32..1000).prop_map(|k| k as f64)];
    prop_oneof![4 => x().prop_map(|v| format!("{v}")), 2 => x().prop_map(|v| format!("{v:e}")), 2 => x().prop_map(|v| format!("{v:.6}")), 2 => x().prop_map(|v| format!("{v:.14E}")), 1 => x().prop_map(|v| format!("{v:+.3}"))]
}
fn num(s: &str) -> f64 { s.parse().unwrap() }
fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn mdays(y: i64, m: i64) -> i64 { [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1] }
/// Days since 1900-01-01, by counting.
fn daynum(y: i64, m: i64, d: i64) -> i64 { (1900..y).map(|k| if leap(k) { 366 } else { 365 }).sum::<i64>() - (y..1900).map(|k| if leap(k) { 366 } else { 365 }).sum::<i64>() + (1..m).map(|k| mdays(y, k)).sum::<i64>() + d - 1 }
fn undays(mut n: i64) -> (i64, i64, i64) { let mut y = 1900; loop { let l = if leap(y) { 366 } else { 365 }; if n < l { break } n -= l; y += 1 } let mut m = 1; while n >= mdays(y, m) { n -= mdays(y, m); m += 1 } (y, m, n + 1) }
const JD1900: f64 = 2_415_020.5;
/// Calendar instant: day count since 1900 and microsecond of day.
type T = (i64, i64);
fn instant() -> impl Strategy<Value = T> {
    let day = prop_oneof![6 => 0i64..80_000, 2 => (0i64..200).prop_map(|y| daynum(1900 + y, 12, 31)), 1 => (0i64..200).prop_map(|y| daynum(1900 + y, 3, 1) - 1), 1 => (0i64..200).prop_map(|y| daynum(1900 + y, 1, 1)), 1 => (0i64..9, -1i64..2).prop_map(|(k, o)| daynum([1900, 1904, 1996, 2000, 2004, 2096, 2100, 2104, 2024][k as usize], 3, 1) + o)];
    let us = prop_oneof![5 => 0i64..86_400_000_000, 1 => Just(0i64), 1 => Just(86_399_999_999), 2 => (0i64..86_400).prop_map(|s| s * 1_000_000), 2 => (1i64..1440).prop_map(|m| m * 60_000_000 - 1)];
    (day, us)
}
fn jd(t: T) -> f64 { JD1900 + t.0 as f64 + t.1 as f64 / 86_400e6 }
fn iso(t: T, digits: usize) -> String { let (y, m, d) = undays(t.0); let s = t.1 / 1_000_000; let mut o = format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60); if digits > 0 { o += &format!(".{:06}", t.1 % 1_000_000)[..digits + 1] } o }
fn cut(t: T, digits: usize) -> T { let q = 10i64.pow(6 - digits.min(6) as u32); (t.0, t.1 / q * q) }
/// Strict reader of the timestamps the writers print; microseconds since 1900.
fn stamp(s: &str) -> Option<i64> {
    let f = |a: usize, b: usize| s.get(a..b).filter(|x| x.bytes().all(|c| c.is_ascii_digit())).and_then(|x| x.parse::<i64>().ok());
    let (y, m, d, h, mi, se) = (f(0, 4)?, f(5, 7)?, f(8, 10)?, f(11, 13)?, f(14, 16)?, f(17, 19)?);
    let fr = s.get(20..).filter(|x| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()))?;
    if s.as_bytes()[4] != b'-' || s.as_bytes()[7] != b'-' || s.as_bytes()[10] != b'T' || s.as_bytes()[13] != b':' || s.as_bytes()[16] != b':' || s.as_bytes()[19] != b'.' { return None }
    if !(1..=12).contains(&m) || d < 1 || d > mdays(y, m) || h > 23 || mi > 59 || se > 59 { return None }
    let us = (format!("{fr:0<6}")[..6]).parse::<i64>().ok()?;
    Some(((daynum(y, m, d) * 24 + h) * 60 + mi) * 60_000_000 + se * 1_000_000 + us)
}
fn word() -> impl Strategy<Value = String> { prop_oneof![5 => "[A-Z0-9][A-Z0-9 ()+./_-]{0,18}[A-Z0-9)]", 2 => "[A-Za-zé°日本&<>'\"=:;#,]{1,12}", 1 => Just("A&amp;B = <C>".to_string()), 1 => Just("EARTH BARYCENTER".to_string()), 1 => "[0-9]{4}-[0-9]{3}[A-Z]"] }
const META: [&str; 5] = ["OBJECT_NAME", "OBJECT_ID", "CENTER_NAME", "REF_FRAME", "TIME_SYSTEM"];
fn words() -> impl Strategy<Value = [String; 5]> { [word(), word(), word(), word(), word()] }
fn meta_of(m: &OemMetadata) -> [&str; 5] { [&m.object_name, &m.object_id, &m.center_name, &m.ref_frame, &m.time_system] }
fn oem_meta(m: &[String; 5]) -> OemMetadata { OemMetadata { object_name: m[0].clone(), object_id: m[1].clone(), center_name: m[2].clone(), ref_frame: m[3].clone(), time_system: m[4].clone() } }
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&#39;") }

#[derive(Clone, Debug)]
struct Seg { meta: [String; 5], rows: Vec<(T, usize, [String; 6])>, block: Option<(usize, bool)>, extra: u32 }
#[derive(Clone, Debug)]
struct Msg { vers: String, date: String, orig: String, segs: Vec<Seg>, noise: u32 }
fn seg() -> impl Strategy<Value = Seg> {
    let row = (instant(), 0usize..7, [numeral(), numeral(), numeral(), numeral(), numeral(), numeral()]);
    (words(), proptest::collection::vec(row, 1..7), proptest::option::of((0usize..8, any::<bool>())), any::<u32>()).prop_map(|(meta, rows, b, extra)| { let n = rows.len(); Seg { meta, rows, block: b.map(|(k, c)| (k % (n + 1), c)), extra } })
}
fn msg() -> impl Strategy<Value = Msg> { (prop_oneof![Just("1.0"), Just("2.0"), Just("3.0")], instant(), word(), proptest::collection::vec(seg(), 1..4), any::<u32>()).prop_map(|(v, t, orig, segs, noise)| Msg { vers: v.into(), date: iso(t, 3), orig, segs, noise }) }
/// One document line, tagged so that damage can be aimed.
#[derive(Clone, Debug, PartialEq)]
enum L { Meta(usize), Row, Open, Close, Other }
fn kvn(m: &Msg) -> Vec<(L, String)> {
    let n = m.noise;
    let pad = |k: usize| " ".repeat((n >> (k % 19)) as usize % 3);
    let kv = |k: usize, key: &str, v: &str| format!("{}{key}{}={}{v}{}", pad(k), pad(k + 3), pad(k + 5), pad(k + 7));
    let mut o = vec![(L::Other, kv(0, "CCSDS_OEM_VERS", &m.vers))];
    if n & 1 != 0 { o.push((L::Other, "COMMENT a header remark".into())) }
    o.push((L::Other, kv(1, "CREATION_DATE", &m.date)));
    o.push((L::Other, kv(2, "ORIGINATOR", &m.orig)));
    for s in &m.segs {
        o.push((L::Other, String::new()));
        o.push((L::Open, "META_START".into()));
        for q in 0..5 { let k = (q + s.extra as usize) % 5; o.push((L::Meta(k), kv(k, META[k], &s.meta[k]))); if s.extra >> q & 1 == 1 { o.push((L::Other, ["COMMENT x = y", "START_TIME = 2000-01-01T00:00:00", "INTERPOLATION = HERMITE", "INTERPOLATION_DEGREE = 7", "USEABLE_STOP_TIME = 2040-01-01T00:00:00"][q].into())) } }
        o.push((L::Close, "META_STOP".into()));
        let block = |o: &mut Vec<(L, String)>, cov: bool| {
            if cov {
                o.push((L::Other, "COVARIANCE_START".into()));
                o.push((L::Other, "EPOCH = 2000-01-01T00:00:00".into()));
                o.push((L::Other, "COV_REF_FRAME = EME2000".into()));
                for k in 1..7 { o.push((L::Other, vec!["1.0e-7"; k].join(" "))) }
                o.push((L::Other, "COVARIANCE_STOP".into()));
            } else { for x in ["MAN_START", "MAN_ID = 7", "2000-01-01T00:00:00 1 2 3 4 5 6", "MAN_STOP"] { o.push((L::Other, x.into())) } }
        };
        for (k, (t, dig, x)) in s.rows.iter().enumerate() {
            if let Some((_, cov)) = s.block.filter(|b| b.0 == k) { block(&mut o, cov) }
            let sep = ["  ", " ", "\t"][(n >> k % 11) as usize % 3];
            o.push((L::Row, format!("{}{}{sep}{}", pad(k), iso(*t, *dig), x.join(sep))));
            if n >> k % 23 & 4 != 0 { o.push((L::Other, "COMMENT between rows".into())) }
        }
        if let Some((_, cov)) = s.block.filter(|b| b.0 == s.rows.len()) { block(&mut o, cov) }
    }
    o
}
fn glue(v: &[(L, String)], crlf: bool) -> String { v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(if crlf { "\r\n" } else { "\n" }) + "\n" }
fn oem_xml(m: &Msg) -> String {
    let ns = if m.noise & 8 != 0 { "oem:" } else { "" };
    let ind = if m.noise & 16 != 0 { "\n   " } else { "" };
    let el = |k: &str, v: &str| if m.noise & 32 != 0 && !v.contains("]]>") && k.starts_with("OBJECT") { format!("{ind}<{ns}{k}><![CDATA[{v}]]></{ns}{k}>") } else { format!("{ind}<{ns}{k}>{}{}{}</{ns}{k}>", ind, esc(v), ind) };
    let mut o = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<{ns}oem {}><!-- <segment> --><{ns}header>", if m.noise & 128 != 0 { format!("version=\"{}\" id=\"CCSDS_OEM_VERS\"", m.vers) } else { format!("id=\"CCSDS_OEM_VERS\" version=\"{}\"", m.vers) });
    o += &el("CREATION_DATE", &m.date); o += &el("ORIGINATOR", &m.orig); o += &format!("</{ns}header><{ns}body>");
    for s in &m.segs {
        o += &format!("<{ns}segment><{ns}metadata>");
        for q in 0..5 { let k = (q + s.extra as usize) % 5; o += &el(META[k], &s.meta[k]); if s.extra >> q & 1 == 1 { o += &el(["COMMENT", "START_TIME", "INTERPOLATION", "INTERPOLATION_DEGREE", "STOP_TIME"][q], ["x", "2000-01-01T00:00:00", "HERMITE", "7", "2000-01-01T00:00:00"][q]) } }
        o += &format!("</{ns}metadata><{ns}data>");
        for (t, dig, x) in &s.rows {
            o += &format!("<{ns}stateVector>"); o += &el("EPOCH", &iso(*t, *dig));
            for (k, tag) in ["X", "Y", "Z", "X_DOT", "Y_DOT", "Z_DOT"].iter().enumerate() { o += &format!("{ind}<{ns}{tag} units=\"{}\">{}</{ns}{tag}>", if k < 3 { "km" } else { "km/s" }, x[k]) }
            o += &format!("</{ns}stateVector>");
        }
        o += &format!("</{ns}data></{ns}segment>");
    }
    o + &format!("</{ns}body></{ns}oem>")
}
impl Msg {
    /// Both notations, with the only epoch replaced.
    fn clone_with(&self, e: &str) -> (String, String) {
        let (t, d, _) = &self.segs[0].rows[0];
        let put = |s: String| s.replace(&iso(*t, *d), e);
        (put(glue(&kvn(self), false)), put(oem_xml(self)))
    }
}
fn check_oem(f: &OemFile, m: &Msg, what: &str) -> Result<(), String> {
    ensure!(f.version == m.vers && f.creation_date == m.date && f.originator == m.orig, "{what}: header read as {:?} {:?} {:?}", f.version, f.creation_date, f.originator);
    ensure!(f.segments.len() == m.segs.len(), "{what}: {} segments read of {}", f.segments.len(), m.segs.len());
    for (k, (g, s)) in f.segments.iter().zip(&m.segs).enumerate() {
        for (q, got) in meta_of(&g.metadata).iter().enumerate() { ensure!(*got == s.meta[q], "{what}: segment {k} {} read as {got:?}, written {:?}", META[q], s.meta[q]) }
        ensure!(g.states.len() == s.rows.len(), "{what}: segment {k} has {} of {} states", g.states.len(), s.rows.len());
        for (j, (a, (t, dig, x))) in g.states.iter().zip(&s.rows).enumerate() {
            ensure!((a.epoch_jd - jd(cut(*t, *dig))).abs() <= 1e-9, "{what}: segment {k} row {j}: epoch {} written {}", a.epoch_jd, iso(*t, *dig));
            for c in 0..3 { ensure!(a.position_km[c] == num(&x[c]) && a.velocity_km_s[c] == num(&x[c + 3]), "{what}: segment {k} row {j}: components {:?} {:?} written {x:?}", a.position_km, a.velocity_km_s) }
        }
    }
    Ok(())
}
fn rd<T>(what: &str, f: impl FnOnce() -> Result<T, FormatError>) -> Result<Result<T, FormatError>, String> { np(what, f) }

#[derive(Clone, Debug)]
struct P { meta: [String; 5], epoch: String, x: [String; 6], kep: Option<[String; 6]>, order: u64, noise: u32 }
const XYZ: [&str; 6] = ["X", "Y", "Z", "X_DOT", "Y_DOT", "Z_DOT"];
const KEP: [&str; 6] = ["SEMI_MAJOR_AXIS", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "TRUE_ANOMALY"];
fn opm() -> impl Strategy<Value = P> {
    let six = || [numeral(), numeral(), numeral(), numeral(), numeral(), numeral()];
    (words(), instant(), six(), proptest::option::of(six()), any::<u64>(), any::<u32>()).prop_map(|(meta, t, x, kep, order, noise)| P { meta, epoch: iso(t, 3), x, kep, order, noise })
}
fn opm_lines(p: &P) -> Vec<(Option<String>, String)> {
    let pad = |k: usize| " ".repeat((p.noise >> (k % 19)) as usize % 3);
    let line = |k: usize, key: &str, v: &str| (Some(key.to_string()), format!("{}{key}{}={}{v}", pad(k), pad(k + 2), pad(k + 5)));
    let mut o = vec![(None, "CCSDS_OPM_VERS = 2.0".to_string()), (None, "CREATION_DATE = 2020-01-01T00:00:00".into()), (None, "ORIGINATOR = X = Y".into()), (None, "META_START".into())];
    for k in 0..5 { o.push(line(k, META[k], &p.meta[k])) }
    o.push((None, "META_STOP".into()));
    if p.noise & 1 == 1 { o.push((None, "COMMENT X = 1".into())) }
    o.push(line(3, "EPOCH", &p.epoch));
    let unit = |k: usize, v: &str| if p.noise & 2 == 2 { format!("{v} [{}]", if k < 3 { "km" } else { "km/s" }) } else { v.to_string() };
    for k in 0..6 { let k = (k + p.order as usize) % 6; o.push(line(k, XYZ[k], &unit(k, &p.x[k]))) }
    if let Some(e) = &p.kep { for k in 0..6 { let u = ["[km]", "", "[deg]", "[deg]", "[deg]", "[deg]"][k]; o.push(line(k + 4, KEP[k], &if p.noise & 4 == 4 { format!("{} {u}", e[k]) } else { e[k].clone() })) } }
    if p.noise & 8 == 8 { for x in ["GM = 398600.4415", "MASS = 1913.000", "COV_REF_FRAME = RTN", "CX_X = 3.3e-04", "MAN_EPOCH_IGNITION = 2000-06-03T04:23:00", "USER_DEFINED_X = 7"] { o.push((None, x.into())) } }
    o
}
fn opm_is(g: &OpmMessage, p: &P, what: &str) -> Result<(), String> {
    let m = [&g.metadata.object_name, &g.metadata.object_id, &g.metadata.center_name, &g.metadata.ref_frame, &g.metadata.time_system];
    for k in 0..5 { ensure!(*m[k] == p.meta[k], "{what}: {} is {:?}, written {:?}", META[k], m[k], p.meta[k]) }
    ensure!(g.state.epoch == p.epoch, "{what}: epoch {:?} written {:?}", g.state.epoch, p.epoch);
    for c in 0..3 { ensure!(g.state.position_km[c] == num(&p.x[c]) && g.state.velocity_km_s[c] == num(&p.x[c + 3]), "{what}: state {:?} written {:?}", g.state, p.x) }
    ensure!(g.keplerian.is_some() == p.kep.is_some(), "{what}: Keplerian block {:?}", g.keplerian);
    if let (Some(e), Some(w)) = (&g.keplerian, &p.kep) {
        let got = [e.semi_major_axis_km, e.eccentricity, e.inclination_deg, e.ra_of_asc_node_deg, e.arg_of_pericenter_deg, e.true_anomaly_deg];
        for k in 0..6 { ensure!(got[k] == num(&w[k]), "{what}: {} is {} written {}", KEP[k], got[k], w[k]) }
    }
    Ok(())
}

type Obs = (String, String, String);
#[derive(Clone, Debug)]
struct Tdm { metas: Vec<(Vec<String>, Option<String>, Option<String>, Option<String>)>, data: Vec<Vec<Obs>>, noise: u32 }
fn tdm() -> impl Strategy<Value = Tdm> {
    let kw = prop_oneof![3 => Just("RANGE".to_string()), 2 => Just("DOPPLER_INSTANTANEOUS".to_string()), 1 => Just("DOPPLER_INTEGRATED".to_string()), 2 => Just("ANGLE_1".to_string()), 2 => Just("ANGLE_2".to_string()), 1 => Just("RECEIVE_FREQ_1".to_string()), 1 => "[A-Z][A-Z_0-9]{2,12}"];
    let obs = (kw, (instant(), 0usize..7).prop_map(|(t, d)| iso(t, d)), numeral());
    let o = || proptest::option::of(word());
    ((proptest::collection::vec((proptest::collection::vec(word(), 1..5), o(), o(), o()), 1..4), proptest::collection::vec(proptest::collection::vec(obs, 0..8), 1..4)), any::<u32>()).prop_map(|((metas, data), noise)| Tdm { metas, data, noise })
}
fn tdm_lines(t: &Tdm) -> Vec<(L, String)> {
    let mut o = vec![(L::Other, "CCSDS_TDM_VERS = 1.0".to_string()), (L::Other, "COMMENT x".into()), (L::Other, "CREATION_DATE = 2005-06-11T20:15:00".into()), (L::Other, "ORIGINATOR = NASA".into())];
    let n = t.metas.len().max(t.data.len());
    for k in 0..n {
        if let Some(m) = t.metas.get(k) {
            o.push((L::Open, "META_START".into()));
            if let Some(x) = &m.3 { o.push((L::Other, format!("TIME_SYSTEM = {x}"))) }
            for (j, p) in m.0.iter().enumerate() { o.push((L::Other, format!("PARTICIPANT_{} = {p}", j + 1))) }
            if let Some(x) = &m.1 { o.push((L::Other, format!("MODE={x}"))) }
            if let Some(x) = &m.2 { o.push((L::Other, format!("PATH =  {x}"))) }
            if t.noise & 2 != 0 { o.push((L::Other, "INTEGRATION_INTERVAL = 1.0".into())) }
            o.push((L::Close, "META_STOP".into()));
        }
        if let Some(d) = t.data.get(k) {
            o.push((L::Open, "DATA_START".into()));
            if t.noise & 4 != 0 { o.push((L::Other, "COMMENT data".into())); o.push((L::Other, String::new())) }
            for (kw, e, v) in d { o.push((L::Row, format!("{kw} = {e}{}{v}", if t.noise & 1 == 1 { " : " } else { " " }))) }
            o.push((L::Close, "DATA_STOP".into()));
        }
    }
    o
}
fn keyword(o: &ObservationType) -> &str { match o { ObservationType::Range => "RANGE", ObservationType::Doppler => "DOPPLER_INSTANTANEOUS", ObservationType::Angle1 => "ANGLE_1", ObservationType::Angle2 => "ANGLE_2", ObservationType::Other(s) => s } }
fn tdm_is(g: &TdmMessage, t: &Tdm, what: &str) -> Result<(), String> {
    ensure!(g.metadata.len() == t.metas.len(), "{what}: {} metadata blocks of {}", g.metadata.len(), t.metas.len());
    for (a, b) in g.metadata.iter().zip(&t.metas) { ensure!(a.participants == b.0 && a.mode == b.1.clone().unwrap_or_default() && a.path == b.2.clone().unwrap_or_default() && a.time_system == b.3.clone().unwrap_or_default(), "{what}: metadata {a:?} written {b:?}") }
    let all: Vec<&Obs> = t.data.iter().flatten().collect();
    ensure!(g.observations.len() == all.len(), "{what}: {} observations of {}", g.observations.len(), all.len());
    for (k, (a, b)) in g.observations.iter().zip(all).enumerate() {
        ensure!(keyword(&a.obs_type) == b.0, "{what}: observation {k} of type {} read as {:?}", b.0, a.obs_type);
        ensure!(!matches!(&a.obs_type, ObservationType::Other(s) if ["RANGE", "DOPPLER_INSTANTANEOUS", "ANGLE_1", "ANGLE_2"].contains(&s.as_str())), "{what}: known type {} not recognised", b.0);
        ensure!(a.epoch == b.1 && a.value == num(&b.2), "{what}: observation {k} {a:?} written {b:?}");
    }
    Ok(())
}
const BADNUM: [&str; 7] = ["", "abc", "NaN", "inf", "-Infinity", "1.2.3", "1,5"];

fn main() {
    let mut c = Check::new("C21", "documents with at least one state or observation");
    c.assume("text values are single-line and carry no surrounding white space, which neither notation can represent");

    c.prop("OEM documents read as written (KVN)", 21000, msg, |m| {
        let text = glue(&kvn(m), m.noise & 64 != 0);
        let f = rd("reading OEM KVN", || read_oem(text.as_bytes()))?.map_err(|e| format!("well-formed KVN refused: {e}\n{text}"))?;
        check_oem(&f, m, "KVN")?;
        Ok(if m.segs.iter().any(|s| s.block.is_some()) { "with skipped blocks" } else { if m.segs.len() > 1 { "several segments" } else { "one segment" } })
    });
    c.prop("OEM documents read as written (XML)", 15000, msg, |m| {
        let text = oem_xml(m);
        let f = rd("reading OEM XML", || read_oem_xml(text.as_bytes()))?.map_err(|e| format!("well-formed XML refused: {e}\n{text}"))?;
        check_oem(&f, m, "XML")?;
        Ok(if m.segs.len() > 1 { "several segments" } else { "one segment" })
    });
    c.prop("OEM writers are inverted by the readers and print valid stamps", 21000, || (words(), proptest::collection::vec((prop_oneof![3 => instant().prop_map(jd), 1 => jd_modern(), 1 => (instant(), -3i64..3).prop_map(|(t, k)| f64::from_bits((jd((t.0, (t.1 + 30_000_000) / 60_000_000 * 60_000_000)).to_bits() as i64 + k) as u64))], proptest::array::uniform3(prop_oneof![3 => -5e4f64..5e4, 1 => -4e8f64..4e8, 1 => -1e-6f64..1e-6]), proptest::array::uniform3(prop_oneof![-12.0f64..12.0, -1e-8f64..1e-8])), 1..8)), |(meta, rows)| {
        let st: Vec<OemState> = rows.iter().map(|r| OemState::new(r.0, r.1, r.2)).collect();
        let md = oem_meta(meta);
        for enc in 0..2 {
            let mut b = vec![];
            np("writing an OEM", || if enc == 0 { write_oem(&mut b, &md, &st) } else { write_oem_xml(&mut b, &md, &st) })?.map_err(|e| format!("not written: {e}"))?;
            let text = String::from_utf8(b).map_err(|e| e.to_string())?;
            let f = if enc == 0 { read_oem(text.as_bytes()) } else { read_oem_xml(text.as_bytes()) }.map_err(|e| format!("own output refused: {e}\n{text}"))?;
            ensure!(f.segments.len() == 1 && f.segments[0].states.len() == st.len(), "{} segments back\n{text}", f.segments.len());
            let s = &f.segments[0];
            ensure!(meta_of(&s.metadata) == meta_of(&md), "metadata {:?} came back as {:?}", md, s.metadata);
            for (a, b) in s.states.iter().zip(&st) {
                ensure!((a.epoch_jd - b.epoch_jd).abs() <= 1e-9, "epoch {} came back as {}\n{text}", b.epoch_jd, a.epoch_jd);
                for k in 0..3 { ensure!(close(a.position_km[k], b.position_km[k], 5.001e-7, 4e-16) && close(a.velocity_km_s[k], b.velocity_km_s[k], 5.001e-10, 4e-16), "state {b:?} came back as {a:?}") }
            }
            // Every stamp is a real calendar instant, equal to the state's.
            let pick = |line: &str| -> Option<String> { let l = line.trim(); if enc == 0 { if let Some(x) = l.strip_prefix("START_TIME").or(l.strip_prefix("STOP_TIME")) { return Some(x.trim_start_matches([' ', '=']).to_string()) } let w = l.split(' ').next()?; (w.len() > 10 && w.as_bytes()[4] == b'-' && w.contains('T') && l.split(' ').count() == 7).then(|| w.to_string()) } else { ["<START_TIME>", "<STOP_TIME>", "<EPOCH>"].iter().find_map(|t| l.strip_prefix(t)).map(|x| x.split('<').next().unwrap().to_string()) } };
            let body = text.split_once(if enc == 0 { "TIME_SYSTEM" } else { "<TIME_SYSTEM>" }).unwrap().1;
            let stamps: Vec<String> = body.lines().skip(1).filter_map(pick).collect();
            ensure!(stamps.len() == st.len() + 2, "{} time stamps for {} states\n{text}", stamps.len(), st.len());
            let want: Vec<f64> = [st[0].epoch_jd, st[st.len() - 1].epoch_jd].into_iter().chain(st.iter().map(|s| s.epoch_jd)).collect();
            for (s, w) in stamps.iter().zip(want) {
                let us = stamp(s).ok_or_else(|| format!("printed stamp {s:?} is not a calendar instant (epoch {w})"))?;
                let exact = (w - JD1900) * 86_400e6;
                ensure!((us as f64 - exact).abs() <= 1.0, "stamp {s} is {} us away from epoch {w}", us as f64 - exact);
            }
        }
        Ok(if st.len() > 1 { "several states" } else { "one state" })
    });
    c.prop("OEM readers refuse damaged documents", 27000, || (msg(), any::<u32>(), 0usize..9, 0usize..7, 0usize..6), |(m, r, kind, bad, col)| {
        let mut v = kvn(m);
        let r = *r as usize;
        let at = |v: &[(L, String)], f: &dyn Fn(&L) -> bool| -> usize { let ix: Vec<usize> = (0..v.len()).filter(|k| f(&v[*k].0)).collect(); ix[r % ix.len()] };
        let what = match kind {
            0 => { let k = at(&v, &|l| matches!(l, L::Meta(_))); v.remove(k); "missing mandatory keyword" }
            1 | 2 => { let k = at(&v, &|l| *l == L::Row); let mut w: Vec<String> = v[k].1.split_whitespace().map(String::from).collect(); w[1 + col] = BADNUM[*bad].into(); v[k].1 = w.join(" "); "malformed component" }
            3 => { let k = at(&v, &|l| *l == L::Row); let mut w: Vec<&str> = v[k].1.split_whitespace().collect(); w.remove(col + 1); v[k].1 = w.join(" "); "missing component" }
            4 => { let k = at(&v, &|l| *l == L::Close); v.truncate(k); "unterminated metadata" }
            5 => { v.retain(|x| x.0 == L::Other); v.truncate(4); v.retain(|x| !x.1.is_empty()); "no segment" }
            6 | 7 => { let k = at(&v, &|l| *l == L::Row); let mut w: Vec<String> = v[k].1.split_whitespace().map(String::from).collect(); w[0] = ["2001-13-01T00:00:00", "2001-00-10T00:00:00", "2001-02-29T00:00:00", "2001-04-31T12:00:00", "2001-01-00T00:00:00", "2001-01-01T24:30:00", "2001-01-01T10:60:00", "2001-01-01T10:00:61.5", "2001-01-01T10:00:NaN", "2001-01-01", "2001-01-01T10:00:-5", "2001-1x-01T00:00:00", "2001-01-01T10:00:00:00", "junk"][(r / 7) % 14].into(); v[k].1 = w.join(" "); "impossible epoch" }
            _ => { let k = at(&v, &|l| matches!(l, L::Meta(_))); v[k].1 = v[k].1.replace('=', " "); "metadata line without =" }
        };
        let text = glue(&v, false);
        if let Ok(f) = rd("reading a damaged OEM", || read_oem(text.as_bytes()))? { return Err(format!("{what}: accepted as {f:?}\n{text}")) }
        // The XML notation, same damage.
        let mut x = oem_xml(m);
        let m2 = |f: &dyn Fn(&mut Seg)| -> String { let mut q = m.clone(); let n = q.segs.len(); f(&mut q.segs[r % n]); oem_xml(&q) };
        match kind {
            0 => { let tag = format!("{}>", META[r % 5]); let (a, b) = (x.find(&tag).unwrap(), x[x.find(&tag).unwrap() + 1..].find(&tag).unwrap() + x.find(&tag).unwrap() + 1 + tag.len()); let a = x[..a].rfind('<').unwrap(); x.replace_range(a..b, ""); }
            1 | 2 => x = m2(&|s| { let n = s.rows.len(); s.rows[r % n].2[*col] = BADNUM[*bad].into() }),
            3 => { let t = XYZ[*col]; let a = x.find(&format!("{t} units")).unwrap(); let a = x[..a].rfind('<').unwrap(); let e = format!("{t}>"); let b = x[a..].find(&e).unwrap() + a + e.len(); x.replace_range(a..b, "") }
            4 => { let k = x.rfind("</").unwrap(); let k = 60 + r % (k - 60); let k = (0..=k).rev().find(|j| x.is_char_boundary(*j)).unwrap(); x.truncate(k); }
            _ => return Ok(what),
        }
        if let Ok(f) = rd("reading a damaged OEM", || read_oem_xml(x.as_bytes()))? { return Err(format!("XML, {what}: accepted as {f:?}\n{x}")) }
        Ok(what)
    });
    c.prop("only calendar dates are accepted", 60_000, || (1900i64..2200, 0i64..14, prop_oneof![3 => 0i64..33, 2 => 28i64..33], instant(), any::<bool>(), any::<bool>()), |(y, m, d, t, turn, february)| {
        let y = if *turn { [1900, 2000, 2100, 1996, 2004, 2096, 2104][*y as usize % 7] } else { *y };
        let (m, d) = if *february { (2, d.max(&28).to_owned()) } else { (*m, *d) };
        let e = format!("{y:04}-{m:02}-{d:02}T{}", &iso(*t, 3)[11..]);
        let doc = |e: &str| Msg { vers: "2.0".into(), date: "2020-01-01T00:00:00".into(), orig: "X".into(), segs: vec![Seg { meta: ["A", "B", "C", "D", "UTC"].map(String::from), rows: vec![(*t, 3, ["1", "2", "3", "4", "5", "6"].map(String::from))], block: None, extra: 0 }], noise: 0 }.clone_with(e);
        let (k, x) = doc(&e);
        let real = (1..=12).contains(&m) && d >= 1 && d <= mdays(y, m);
        for (enc, r) in [("KVN", rd("reading OEM KVN", || read_oem(k.as_bytes()))?), ("XML", rd("reading OEM XML", || read_oem_xml(x.as_bytes()))?)] {
            match r {
                Ok(f) => { ensure!(real, "{enc}: the date {e} was accepted as {}", f.segments[0].states[0].epoch_jd); let w = jd((daynum(y, m, d), t.1 / 1000 * 1000)); ensure!((f.segments[0].states[0].epoch_jd - w).abs() < 1e-9, "{enc}: {e} read as {}, not {w}", f.segments[0].states[0].epoch_jd) }
                Err(x) => ensure!(!real, "{enc}: the date {e} was refused: {x}"),
            }
        }
        Ok(if real { "calendar date" } else { "impossible date" })
    });
    c.prop("an ephemeris without states is not written as one", 1000, words, |w| {
        for enc in 0..2 {
            let mut o = vec![];
            if np("writing an OEM", || if enc == 0 { write_oem(&mut o, &oem_meta(w), &[]) } else { write_oem_xml(&mut o, &oem_meta(w), &[]) })?.is_ok() {
                let f = if enc == 0 { read_oem(&o[..]) } else { read_oem_xml(&o[..]) };
                ensure!(f.as_ref().is_ok_and(|f| f.segments.len() == 1 && f.segments[0].states.is_empty()), "an empty ephemeris is written as {:?}, read as {f:?}", String::from_utf8_lossy(&o));
            }
        }
        Ok("empty")
    });
    c.prop("writers refuse states no reader could return", 1800, || (words(), 0usize..7, 0usize..3), |(m, k, b)| {
        let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][*b];
        let mut s = OemState::new(2_451_545.0, [1.0; 3], [2.0; 3]);
        match k { 0 => s.epoch_jd = bad, 1..=3 => s.position_km[k - 1] = bad, _ => s.velocity_km_s[k - 4] = bad }
        let st = [OemState::new(2_451_544.0, [1.0; 3], [2.0; 3]), s];
        for enc in 0..2 { let mut o = vec![]; if np("writing an OEM", || if enc == 0 { write_oem(&mut o, &oem_meta(m), &st) } else { write_oem_xml(&mut o, &oem_meta(m), &st) })?.is_ok() { return Err(format!("non-finite state {s:?} written")) } }
        Ok("non-finite")
    });

    c.prop("OPM documents read as written and survive rewriting", 27000, opm, |p| {
        let text = opm_lines(p).into_iter().map(|x| x.1).collect::<Vec<_>>().join(if p.noise & 16 != 0 { "\r\n" } else { "\n" });
        let g = rd("reading an OPM", || read_opm(text.as_bytes()))?.map_err(|e| format!("well-formed OPM refused: {e}\n{text}"))?;
        opm_is(&g, p, "read")?;
        let mut b = vec![];
        np("writing an OPM", || write_opm(&mut b, &g))?.map_err(|e| format!("not written: {e}"))?;
        let back = rd("reading an OPM", || read_opm(&b[..]))?.map_err(|e| format!("own output refused: {e}"))?;
        opm_is(&back, p, "rewritten")?;
        Ok(if p.kep.is_some() { "with elements" } else { "state only" })
    });
    c.prop("OPM readers refuse damaged documents", 15000, || (opm(), any::<u32>(), any::<bool>(), 0usize..7), |(p, r, drop, bad)| {
        let mut v = opm_lines(p);
        let ix: Vec<usize> = (0..v.len()).filter(|k| match &v[*k].0 { None => false, Some(s) if s == "SEMI_MAJOR_AXIS" => !*drop, Some(s) => *drop || XYZ.contains(&s.as_str()) || KEP.contains(&s.as_str()) }).collect();
        let k = ix[*r as usize % ix.len()];
        let key = v[k].0.clone().unwrap();
        if *drop { v.remove(k); } else { v[k].1 = format!("{key} = {}", BADNUM[*bad]) }
        let text = v.into_iter().map(|x| x.1).collect::<Vec<_>>().join("\n");
        if let Ok(g) = rd("reading a damaged OPM", || read_opm(text.as_bytes()))? { return Err(format!("{key} {}: accepted as {g:?}\n{text}", if *drop { "missing" } else { "malformed" })) }
        Ok(if *drop { "missing" } else { "malformed" })
    });
    c.prop("TDM documents read as written and survive rewriting", 27000, tdm, |t| {
        let text = glue(&tdm_lines(t), t.noise & 16 != 0);
        let g = rd("reading a TDM", || read_tdm(text.as_bytes()))?.map_err(|e| format!("well-formed TDM refused: {e}\n{text}"))?;
        tdm_is(&g, t, "read")?;
        let mut b = vec![];
        np("writing a TDM", || write_tdm(&mut b, &g))?.map_err(|e| format!("not written: {e}"))?;
        let back = rd("reading a TDM", || read_tdm(&b[..]))?.map_err(|e| format!("own output refused: {e}"))?;
        tdm_is(&back, t, "rewritten")?;
        Ok(if g.observations.is_empty() { "-no observation" } else { "observations" })
    });
    c.prop("TDM readers refuse damaged documents", 12000, || (tdm(), any::<u32>(), 0usize..4, 0usize..7), |(t, r, kind, bad)| {
        let mut v = tdm_lines(t);
        let rows: Vec<usize> = (0..v.len()).filter(|k| v[*k].0 == L::Row).collect();
        let r = *r as usize;
        if *kind < 3 && rows.is_empty() { return Ok("-no observation") }
        match kind {
            0 => { let k = rows[r % rows.len()]; let (a, _) = v[k].1.rsplit_once(' ').unwrap(); v[k].1 = format!("{a} {}", BADNUM[*bad]) }
            1 => { let k = rows[r % rows.len()]; let mut w: Vec<&str> = v[k].1.split(' ').collect(); w.truncate(3); v[k].1 = w.join(" ") }
            2 => { let k = rows[r % rows.len()]; v[k].1 = v[k].1.replace('=', " ") }
            _ => { let ix: Vec<usize> = (0..v.len()).filter(|k| v[*k].0 == L::Close).collect(); v.truncate(ix[r % ix.len()]) }
        }
        let text = glue(&v, false);
        if let Ok(g) = rd("reading a damaged TDM", || read_tdm(text.as_bytes()))? { return Err(format!("damage {kind}: accepted as {g:?}\n{text}")) }
        Ok(["malformed value", "missing value", "no equals sign", "unterminated block"][*kind])
    });
    c.finish()
}
