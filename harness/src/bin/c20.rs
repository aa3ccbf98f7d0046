//! C20: OMM documents in KVN, XML and JSON.
use chrono::{Duration, TimeZone, Utc};
use proptest::prelude::*;
use siderust::formats::tle::omm::{json, kvn, xml, Omm};
use siderust::formats::tle::*;
use siderust::qtty::*;
use tempoch::{Time, UTC};
use vharness::gen::*;
use vharness::*;

const MANDATORY: [&str; 10] = ["OBJECT_NAME", "OBJECT_ID", "EPOCH", "MEAN_MOTION", "ECCENTRICITY", "INCLINATION", "RA_OF_ASC_NODE", "ARG_OF_PERICENTER", "MEAN_ANOMALY", "NORAD_CAT_ID"];
const OPTIONAL: [&str; 7] = ["EPHEMERIS_TYPE", "CLASSIFICATION_TYPE", "ELEMENT_SET_NO", "REV_AT_EPOCH", "BSTAR", "MEAN_MOTION_DOT", "MEAN_MOTION_DDOT"];
/// Field values as document text; every number is exactly what is printed.
#[derive(Clone, Debug)]
struct D { name: String, id: String, epoch: i64, f: [f64; 6], cat: u32, eph: u8, cls: usize, el: u16, rev: u32, drag: [f64; 3] }
fn civil(us: i64) -> chrono::DateTime<Utc> { Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap() + Duration::microseconds(us) }
fn text(d: &D, k: &str) -> String {
    match k {
        "OBJECT_NAME" => d.name.clone(), "OBJECT_ID" => d.id.clone(),
        "EPOCH" => civil(d.epoch).format("%Y-%m-%dT%H:%M:%S%.6f").to_string(),
        "MEAN_MOTION" => format!("{}", d.f[0]), "ECCENTRICITY" => format!("{}", d.f[1]), "INCLINATION" => format!("{}", d.f[2]),
        "RA_OF_ASC_NODE" => format!("{}", d.f[3]), "ARG_OF_PERICENTER" => format!("{}", d.f[4]), "MEAN_ANOMALY" => format!("{}", d.f[5]),
        "NORAD_CAT_ID" => d.cat.to_string(), "EPHEMERIS_TYPE" => d.eph.to_string(), "CLASSIFICATION_TYPE" => ["U", "C", "S"][d.cls].into(),
        "ELEMENT_SET_NO" => d.el.to_string(), "REV_AT_EPOCH" => d.rev.to_string(),
        "BSTAR" => format!("{:e}", d.drag[0]), "MEAN_MOTION_DOT" => format!("{:e}", d.drag[1]), "MEAN_MOTION_DDOT" => format!("{:e}", d.drag[2]),
        "CENTER_NAME" => "EARTH".into(), "REF_FRAME" => "TEME".into(), "TIME_SYSTEM" => "UTC".into(), "MEAN_ELEMENT_THEORY" => "SGP4".into(),
        "ORIGINATOR" => "TEST".into(), "CREATION_DATE" => "2020-01-01T00:00:00".into(), "USER_DEFINED_X" => "EPOCH = 5".into(), _ => unreachable!(),
    }
}
fn is_text(k: &str) -> bool { matches!(k, "OBJECT_NAME" | "OBJECT_ID" | "EPOCH" | "CLASSIFICATION_TYPE" | "CENTER_NAME" | "REF_FRAME" | "TIME_SYSTEM" | "MEAN_ELEMENT_THEORY" | "ORIGINATOR" | "CREATION_DATE" | "USER_DEFINED_X") }
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;") }
fn quote(s: &str) -> String { serde_json::to_string(s).unwrap() }
/// Reference writer: fields in the given order, with layout noise.
fn doc(enc: usize, fields: &[(String, String)], noise: u32) -> String {
    let nl = if noise & 1 == 1 { "\r\n" } else { "\n" };
    let mut s = String::new();
    match enc {
        0 => {
            s += &format!("CCSDS_OMM_VERS = 2.0{nl}");
            for (k, (key, v)) in fields.iter().enumerate() {
                if noise >> (k % 20) & 2 != 0 { s += &format!("COMMENT made up{nl}{nl}") }
                let pad = " ".repeat((noise >> (k % 13)) as usize % 4);
                s += &format!("{pad}{key}{pad}={pad}{v}{pad}{nl}");
            }
        }
        1 => {
            s += &format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>{nl}<omm id=\"CCSDS_OMM_VERS\" version=\"2.0\"><body><segment><metadata>{nl}");
            for (k, (key, v)) in fields.iter().enumerate() {
                let pad = if noise >> (k % 13) & 2 != 0 { format!("{nl}  ") } else { String::new() };
                s += &format!("{pad}<{key}>{pad}{}{pad}</{key}>", esc(v));
            }
            s += "</metadata></segment></body></omm>";
        }
        _ => {
            let body: Vec<String> = fields.iter().map(|(k, v)| format!("{}:{}{}", quote(k), if noise & 2 != 0 { " " } else { "" }, if is_text(k) { quote(v) } else { v.clone() })).collect();
            s = format!("{{{}}}", body.join(if noise & 4 != 0 { ",\n " } else { "," }));
        }
    }
    s
}
fn read(enc: usize, s: &str) -> Result<Result<Omm, TleError>, String> { np("reading an OMM document", || match enc { 0 => kvn::read(s), 1 => xml::read(s), _ => json::read(s) }) }
fn write(enc: usize, o: &Omm) -> Result<String, String> { np("writing an OMM document", || match enc { 0 => kvn::write(o), 1 => xml::write(o), _ => json::write(o) })?.map_err(|e| format!("not written: {e}")) }
const ENC: [&str; 3] = ["KVN", "XML", "JSON"];
fn micros(t: Time<UTC>) -> Result<f64, String> {
    let c = t.try_to_chrono().map_err(|e| format!("epoch not civil: {e:?}"))?;
    // Instants beside a leap second may be labelled within it; both its ends are midnight here.
    let sub = if c.timestamp_subsec_nanos() >= 1_000_000_000 { 1_000_000 } else { c.timestamp_subsec_micros() as i64 };
    Ok(((c.timestamp() - civil(0).timestamp()) * 1_000_000 + sub) as f64)
}
/// tempoch converts civil times to within tens of microseconds.
const TICK: f64 = 60.0;
fn same(o: &Omm, d: &D, keep: &dyn Fn(&str) -> bool) -> Result<(), String> {
    let eq = |k: &str, got: f64, want: f64| -> Result<(), String> { let want = if keep(k) { want } else { 0.0 }; ensure!(close(got, want, 0.0, 4e-16), "{k} reads {got}, the document says {want}"); Ok(()) };
    ensure!(o.object_name == d.name && o.object_id == d.id, "name/id {:?} {:?} for {:?} {:?}", o.object_name, o.object_id, d.name, d.id);
    let t = micros(o.epoch)?;
    ensure!((t - d.epoch as f64).abs() <= TICK, "epoch {} us away from the document's", t - d.epoch as f64);
    for (k, got, want) in [("MEAN_MOTION", o.mean_motion.value(), d.f[0]), ("ECCENTRICITY", o.eccentricity, d.f[1]), ("INCLINATION", o.inclination.value(), d.f[2]), ("RA_OF_ASC_NODE", o.ra_of_asc_node.value(), d.f[3]), ("ARG_OF_PERICENTER", o.arg_of_pericenter.value(), d.f[4]), ("MEAN_ANOMALY", o.mean_anomaly.value(), d.f[5]), ("BSTAR", o.bstar, d.drag[0]), ("MEAN_MOTION_DOT", o.mean_motion_dot, d.drag[1]), ("MEAN_MOTION_DDOT", o.mean_motion_ddot, d.drag[2]), ("EPHEMERIS_TYPE", o.ephemeris_type as f64, d.eph as f64), ("ELEMENT_SET_NO", o.element_set_no as f64, d.el as f64), ("REV_AT_EPOCH", o.rev_at_epoch as f64, d.rev as f64)] { eq(k, got, want)? }
    ensure!(o.norad_id.0 == d.cat, "catalogue number {} for {}", o.norad_id.0, d.cat);
    let cls = if keep("CLASSIFICATION_TYPE") { d.cls } else { 0 };
    ensure!(o.classification == [Classification::Unclassified, Classification::Classified, Classification::Secret][cls], "classification {:?}", o.classification);
    Ok(())
}
fn agree(a: &Omm, b: &Omm, exact: bool, label: &str) -> Result<(), String> {
    ensure!(a.object_name == b.object_name && a.object_id == b.object_id && a.norad_id == b.norad_id && a.classification == b.classification, "{label}: identity differs: {a:?} {b:?}");
    ensure!((a.ephemeris_type, a.element_set_no, a.rev_at_epoch) == (b.ephemeris_type, b.element_set_no, b.rev_at_epoch), "{label}: counters differ");
    let q = |x: f64| if exact { 0.0 } else { 0.5000001 * x };
    for (k, x, y, res) in [("mean motion", a.mean_motion.value(), b.mean_motion.value(), 1e-8), ("eccentricity", a.eccentricity, b.eccentricity, 1e-7), ("inclination", a.inclination.value(), b.inclination.value(), 1e-4), ("node", a.ra_of_asc_node.value(), b.ra_of_asc_node.value(), 1e-4), ("pericenter", a.arg_of_pericenter.value(), b.arg_of_pericenter.value(), 1e-4), ("anomaly", a.mean_anomaly.value(), b.mean_anomaly.value(), 1e-4)] {
        ensure!(close(x, y, q(res), 4e-16), "{label}: {k} {x} became {y}");
    }
    for (k, x, y) in [("BSTAR", a.bstar, b.bstar), ("derivative", a.mean_motion_dot, b.mean_motion_dot), ("second derivative", a.mean_motion_ddot, b.mean_motion_ddot)] { ensure!(close(x, y, 0.0, if exact { 4e-16 } else { 5.1e-9 }), "{label}: {k} {x} became {y}"); }
    let (x, y) = (micros(a.epoch)?, micros(b.epoch)?);
    ensure!((x - y).abs() <= TICK, "{label}: epoch moved by {} us", y - x);
    Ok(())
}
fn grid(max: f64, step: f64) -> impl Strategy<Value = f64> { prop_oneof![4 => 0.0..max, 4 => (0.0..max).prop_map(move |x| { let k = (x / step).round(); format!("{:.*}", (-step.log10()).round() as usize, k * step).parse().unwrap() }), 1 => Just(0.0)] }
fn drag() -> impl Strategy<Value = f64> { prop_oneof![3 => -1.0f64..1.0, 3 => (-9i32..1, -99_999i64..100_000).prop_map(|(e, m)| format!("{m}e{}", e - 5).parse().unwrap()), 1 => Just(0.0), 1 => logu(-20.0, 0.0)] }
fn leap_free() -> impl Strategy<Value = i64> { prop_oneof![6 => 0i64..2_200_000_000_000_000, 1 => (0i64..25_000).prop_map(|d| d * 86_400_000_000), 1 => (0i64..25_000).prop_map(|d| d * 86_400_000_000 + 86_399_999_999)] }
fn record() -> impl Strategy<Value = D> {
    let name = prop_oneof![4 => "[A-Z][A-Z0-9 ()+./=&<>'\"-]{0,20}[A-Z0-9)]", 1 => "[a-zA-Zéß°→日本&;<>'\"=]{1,12}", 1 => Just("A&amp;B &lt;C&gt;".to_string())];
    let id = prop_oneof![6 => "(19[6-9][0-9]|20[0-4][0-9])-[0-9]{3}[A-Z]{1,3}", 1 => "[A-Z0-9-]{1,12}"];
    let cat = prop_oneof![3 => 0u32..100_000, 3 => 100_000u32..340_000, 1 => 340_000u32..1_000_000_000, 1 => Just(99_999), 1 => Just(100_000), 1 => Just(999_999_999)];
    ((name, id, leap_free(), (grid(18.0, 1e-8), grid(0.999, 1e-7), grid(180.0, 1e-4), grid(360.0, 1e-4), grid(360.0, 1e-4), grid(360.0, 1e-4))), (cat, any::<u8>(), 0usize..3, any::<u16>(), any::<u32>(), (drag(), drag(), drag())))
        .prop_map(|((name, id, epoch, f), (cat, eph, cls, el, rev, g))| D { name, id, epoch, f: [f.0, f.1, f.2, f.3, f.4, f.5], cat, eph, cls, el, rev, drag: [g.0, g.1, g.2] })
}
fn omm(d: &D) -> Omm {
    Omm { object_name: d.name.clone(), object_id: d.id.clone(), epoch: Time::<UTC>::try_from_chrono(civil(d.epoch)).unwrap(), mean_motion: siderust::qtty::angular_rate::AngularRate::new(d.f[0]), eccentricity: d.f[1], inclination: Degrees::new(d.f[2]), ra_of_asc_node: Degrees::new(d.f[3]), arg_of_pericenter: Degrees::new(d.f[4]), mean_anomaly: Degrees::new(d.f[5]), ephemeris_type: d.eph, classification: [Classification::Unclassified, Classification::Classified, Classification::Secret][d.cls], norad_id: SatelliteNumber(d.cat), element_set_no: d.el, rev_at_epoch: d.rev, bstar: d.drag[0], mean_motion_dot: d.drag[1], mean_motion_ddot: d.drag[2] }
}
fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut x = seed | 1;
    for i in (1..n).rev() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v.swap(i, (x % (i as u64 + 1)) as usize) }
    v
}
/// The document's fields: everything mandatory, the optional ones of `mask`, and boilerplate.
fn fields(d: &D, mask: u32, order: u64) -> Vec<(String, String)> {
    let mut v: Vec<&str> = MANDATORY.to_vec();
    v.extend(OPTIONAL.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, f)| *f));
    for (k, f) in ["CENTER_NAME", "REF_FRAME", "TIME_SYSTEM", "MEAN_ELEMENT_THEORY", "ORIGINATOR", "CREATION_DATE", "USER_DEFINED_X"].iter().enumerate() { if mask >> (8 + k) & 1 == 1 { v.push(f) } }
    shuffled(v.len(), order).into_iter().map(|i| (v[i].to_string(), text(d, v[i]))).collect()
}

fn main() {
    let mut c = Check::new("C20", "element sets with any epoch 2000-2069, catalogue numbers to nine digits, names with XML and Unicode characters, numbers on and off the TLE grid; documents in every field order, optional-field subset and layout; every mandatory field dropped and every field spoilt in turn; a case is trivial when the spoilt text is still a valid value");
    c.assume("KVN and XML are written to the TLE's digits, so values off that grid come back rounded; tempoch converts civil times to within tens of microseconds");
    c.prop("write_read", 60_000, record, |d| {
        let o = omm(d);
        let mut back = Vec::new();
        for enc in 0..3 {
            let t = write(enc, &o)?;
            let r = read(enc, &t)?.map_err(|e| format!("{} written here is refused: {e}\n{t}", ENC[enc]))?;
            agree(&o, &r, enc == 2, ENC[enc])?;
            // The rounded record is a fixed point, up to the last microsecond digits of the epoch.
            let t2 = write(enc, &r)?;
            let strip = |s: &str| -> String { s.lines().filter(|l| !l.contains("EPOCH") && !l.contains("CREATION")).collect::<Vec<_>>().join("\n") };
            ensure!(enc == 2 || strip(&t2) == strip(&t), "{}: writing what was read gives another document\n{t}\n{t2}", ENC[enc]);
            back.push(r);
        }
        agree(&back[0], &back[1], true, "KVN against XML")?;
        agree(&back[2], &back[0], false, "JSON against KVN")?;
        Ok("three encodings")
    });
    c.prop("foreign_documents", 120_000, || (record(), any::<u32>(), any::<u64>(), any::<u32>(), 0usize..6), |(d, mask, order, noise, zone)| {
        let keep = |k: &str| OPTIONAL.iter().position(|f| *f == k).is_none_or(|p| mask >> p & 1 == 1);
        let mut f = fields(d, *mask, *order);
        for (k, v) in f.iter_mut() {
            if k == "EPOCH" { match zone { 0 => *v += "Z", 1 => *v += "+00:00", 2 if d.epoch % 1_000_000 == 0 => { v.truncate(19) } 3 => *v = v.trim_end_matches('0').trim_end_matches('.').to_string(), _ => {} } }
            if k == "NORAD_CAT_ID" && *noise & 8 != 0 && d.cat < 340_000 && d.cat > 99_999 { *v = SatelliteNumber(d.cat).format_alpha5().map_err(|e| e.to_string())? }
            if k == "MEAN_ELEMENT_THEORY" && *noise & 16 != 0 { *v = "sgp4".into() }
        }
        let mut got = Vec::new();
        for enc in 0..3 {
            let mut g = f.clone();
            if enc == 2 { for (k, v) in g.iter_mut() { if k == "NORAD_CAT_ID" { *v = d.cat.to_string() } } }
            // XML and KVN cannot carry "EPOCH = 5" apart from their own EPOCH, which is the point of the field.
            let t = doc(enc, &g, *noise);
            let o = read(enc, &t)?.map_err(|e| format!("{} document refused: {e}\n{t}", ENC[enc]))?;
            same(&o, d, &keep).map_err(|e| format!("{}: {e}\n{t}", ENC[enc]))?;
            got.push(o);
        }
        agree(&got[0], &got[1], true, "KVN against XML")?;
        agree(&got[0], &got[2], true, "KVN against JSON")?;
        Ok(if mask & 127 == 127 { "all fields" } else { "some optional fields absent" })
    });
    c.prop("missing_or_spoilt", 200_000, || (record(), any::<u64>(), any::<u32>(), 0usize..MANDATORY.len() + OPTIONAL.len() + 1, 0usize..12, 0usize..3), |(d, order, noise, k, how, enc)| {
        let mut f = fields(d, 127 | (noise & 0x7f00), *order);
        let name = if *k < 10 { MANDATORY[*k] } else if *k < 17 { OPTIONAL[*k - 10] } else { "MEAN_ELEMENT_THEORY" };
        let enc = *enc;
        if *how == 0 {
            if *k >= 10 { return Ok("-optional field absent") }
            f.retain(|(n, _)| n != name);
            let t = doc(enc, &f, *noise);
            return match read(enc, &t)? {
                Ok(o) => Err(format!("{} document without {name} gives {o:?}", ENC[enc])),
                Err(TleError::OmmMissingField(n)) if enc < 2 && n == name => Ok("missing"),
                Err(TleError::OmmJson(m)) if enc == 2 && m.contains(name) => Ok("missing"),
                Err(e) => Err(format!("{} document without {name} reported as {e:?}", ENC[enc])),
            };
        }
        let epochs = ["2020-13-01T00:00:00", "2020-02-30T00:00:00", "2020-01-01T25:00:00", "2020-01-01T00:00:00+05:00", "2020-01-01T00:00:00-03:00", "2020-01-01", "yesterday", "2020-01-01T00:00", "2020-01-01T00:61:00", "2020/01/01T00:00:00", "T00:00:00"];
        let numbers = ["abc", "1.2.3", "--5", "1e", "0x10", "1,5", "12 34", "+-1", ".", "5deg", "-"];
        let counts = ["abc", "1.5", "-1", "99999999999", "0x10", "1,5", "12 34", "+-1", ".", "1e3", "-"];
        let bad = match name {
            "OBJECT_NAME" | "OBJECT_ID" => return Ok("-free text"),
            "EPOCH" => epochs[how - 1],
            "CLASSIFICATION_TYPE" => ["X", "u", "1", "?", "T", "c", "N", "-", "Z", "s", "É"][how - 1],
            "MEAN_ELEMENT_THEORY" => ["SGP", "SGP8", "SDP4", "DSST", "USM", "SGP4-XP", "X", "SGP 4", "4", "sgp", "TLE"][how - 1],
            "NORAD_CAT_ID" => ["abc", "1.5", "-1", "12345678901", "0x10", "1,5", "12 34", "+-1", "I1234", "1e3", "A12345"][how - 1],
            "EPHEMERIS_TYPE" | "ELEMENT_SET_NO" | "REV_AT_EPOCH" => counts[how - 1],
            _ => numbers[how - 1],
        };
        if !f.iter().any(|(n, _)| n == name) { f.push((name.into(), String::new())) }
        for (n, v) in f.iter_mut() { if n == name { *v = bad.into() } }
        // In JSON a bare word would break the syntax; a quoted one has the wrong type.
        let t = if enc == 2 && !is_text(name) { let g: Vec<(String, String)> = f.iter().map(|(n, v)| (n.clone(), if n == name { quote(v) } else { v.clone() })).collect(); doc(2, &g, *noise) } else { doc(enc, &f, *noise) };
        match read(enc, &t)? {
            Ok(o) => Err(format!("{} document with {name} = {bad:?} was read as {o:?}", ENC[enc])),
            Err(e) => {
                let ok = match (&e, name) {
                    (TleError::OmmUnsupportedTheory(x), "MEAN_ELEMENT_THEORY") => x == bad,
                    (TleError::InvalidClassification { .. }, "CLASSIFICATION_TYPE") => true,
                    (TleError::OmmInvalidEpoch { raw, .. }, "EPOCH") => raw == bad,
                    (TleError::OmmJson(_), _) => enc == 2,
                    (TleError::OmmMalformed { format, reason }, _) => *format == ENC[enc] && reason.contains(name),
                    (TleError::InvalidAlpha5 { .. } | TleError::InvalidNumber { .. }, "NORAD_CAT_ID") => true,
                    _ => false,
                };
                ensure!(ok, "{} document with {name} = {bad:?} reported as {e:?}", ENC[enc]);
                Ok("rejected")
            }
        }
    });
    // Through TLE text and back.
    let q = || ((0u32..340_000, "[0-9]{5}[A-Z]{1,3}", 0usize..3, 1972i32..2057, 1i64..366, 0i64..100_000_000), (-99_999_999i64..100_000_000, (10_000i64..100_000, -9i32..0), (10_000i64..100_000, -9i32..0), 0u32..10_000, 0u32..100_000), (0i64..1_800_000, 0i64..3_600_000, 0i64..10_000_000, 0i64..3_600_000, 0i64..3_600_000, 0i64..1_800_000_000));
    c.prop("tle_equivalence", 60_000, move || (q(), prop_oneof![Just(None), "[A-Z][A-Z0-9 ()<&-]{0,20}[A-Z]".prop_map(Some)]), |(((cat, des, cls, year, doy, frac), (nd, ndd, bs, el, rev), (i, o, e, w, m, n)), name)| {
        let sum = |s: &str| (s.bytes().map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum::<u32>() % 10).to_string();
        let sat = SatelliteNumber(*cat).format_alpha5().map_err(|e| e.to_string())?;
        let ade = |(m, e): (i64, i32)| format!(" {m:05}-{}", -e);
        let d4 = |x: i64| format!("{:>3}.{:04}", x / 10_000, x % 10_000);
        let mut l1 = format!("1 {sat}{} {des:<8} {:02}{doy:03}.{frac:08} {}.{:08} {} {} 0 {el:>4}", ["U", "C", "S"][*cls], year % 100, if *nd < 0 { '-' } else { ' ' }, nd.abs(), ade(*ndd), ade(*bs));
        let mut l2 = format!("2 {sat} {} {} {e:07} {} {} {:>2}.{:08}{rev:>5}", d4(*i), d4(*o), d4(*w), d4(*m), n / 100_000_000, n % 100_000_000);
        l1 += &sum(&l1); l2 += &sum(&l2);
        let t = match name { Some(s) => parse_3le(s, &l1, &l2), None => parse_tle(&l1, &l2) }.map_err(|e| format!("{e}\n{l1}\n{l2}"))?;
        let om = Omm::from_tle(&t);
        let yy: i32 = des[..2].parse().unwrap();
        let id = format!("{}-{}", if yy < 57 { 2000 + yy } else { 1900 + yy }, &des[2..]);
        ensure!((om.ephemeris_type, om.element_set_no as u32, om.rev_at_epoch) == (0, *el, *rev), "counters {} {} {} from\n{l1}\n{l2}", om.ephemeris_type, om.element_set_no, om.rev_at_epoch);
        ensure!(om.object_id == id, "designator {des} expanded to {}", om.object_id);
        ensure!(name.as_ref().is_none_or(|s| *s == om.object_name) && (name.is_some() || om.object_name.contains(&cat.to_string())), "object name {:?}", om.object_name);
        for enc in 0..3 {
            let r = read(enc, &write(enc, &om)?)?.map_err(|e| format!("{}: {e}", ENC[enc]))?;
            agree(&om, &r, false, ENC[enc])?;
            let back = r.to_tle();
            ensure!(back.name.as_deref() == Some(om.object_name.as_str()), "name lost");
            let (b1, b2) = format_tle(&back).map_err(|e| format!("{e}"))?;
            ensure!(b2 == l2, "{}: line 2 changes\n{l2}\n{b2}", ENC[enc]);
            // The exponent sign of a zero exponent is a matter of style.
            let norm = |l: &str| l[..68].replace("+0 ", "-0 ");
            ensure!(norm(&b1) == norm(&l1), "{}: line 1 changes\n{l1}\n{b1}", ENC[enc]);
        }
        Ok("through OMM")
    });
    // Identifiers outside the launch-year form pass through unchanged, both ways.
    let ident = || prop_oneof!["[0-9A-Z]{0,8}", "[0-9A-Z]{1,5}-[0-9A-Z]{1,5}", "[0-9]{3,5}-[0-9A-Z]{0,6}", "[0-9]{4}-[0-9]{3}[A-Z]{0,3}", "[0-9][A-Z][0-9]{3}[A-Z]", "[0-9]{4}-[0-9]{2}-[0-9]{2}", "[é日0-9]{1,8}", "[0-9]{2}[0-9A-Z]{0,6}"];
    c.prop("designators", 40_000, move || (record(), ident()), |(d, id)| {
        let mut o = omm(d);
        o.object_id = id.clone();
        let b = id.as_bytes();
        let dig = |a: usize, z: usize| b.len() >= z && b[a..z].iter().all(|x| x.is_ascii_digit());
        let want = if dig(0, 4) && b.get(4) == Some(&b'-') { id[2..4].to_string() + &id[5..] } else { id.clone() };
        let t = np("to_tle", || o.to_tle())?;
        ensure!(t.international_designator.0 == want, "object id {id:?} contracted to {:?}", t.international_designator.0);
        ensure!((t.element_set_number, t.revolution_number_at_epoch, t.norad_id, t.classification) == (o.element_set_no, o.rev_at_epoch, o.norad_id, o.classification), "counters of {t:?}");
        let mut u = t.clone();
        u.international_designator.0 = id.clone();
        let e = np("from_tle", || Omm::from_tle(&u))?;
        let want = if id.is_ascii() && b.len() >= 5 && dig(0, 2) { format!("{}{}-{}", if &id[..2] < "57" { 20 } else { 19 }, &id[..2], &id[2..]) } else { id.clone() };
        ensure!(e.object_id == want, "designator {id:?} expanded to {:?}", e.object_id);
        Ok(if want == *id { "passed through" } else { "launch year" })
    });
    c.prop("leap_seconds", 30_000, || (record(), 0usize..6, -2_000_000i64..2_000_000, 0usize..3, any::<u64>()), |(d, k, us, enc, order)| {
        // Microseconds counted from the start of the leap second.
        let day = ["1998-12-31", "2005-12-31", "2008-12-31", "2012-06-30", "2015-06-30", "2016-12-31"][*k];
        let next = ["1999-01-01", "2006-01-01", "2009-01-01", "2012-07-01", "2015-07-01", "2017-01-01"][*k];
        let label = |us: i64| { let s = us.div_euclid(1_000_000); let f = us.rem_euclid(1_000_000); if s < 1 { format!("{day}T23:59:{}.{f:06}", 60 + s) } else { format!("{next}T00:00:0{}.{f:06}", s - 1) } };
        let unlabel = |s: &str| -> Option<i64> { let sec: i64 = s[17..19].parse().ok()?; let f: i64 = s[20..].parse().ok()?; if s.len() != 26 { return None } Some(f + 1_000_000 * if s.starts_with(day) && &s[11..16] == "23:59" { sec - 60 } else if s.starts_with(next) && &s[11..16] == "00:00" { sec + 1 } else { return None }) };
        let mut f = fields(d, 127, *order);
        for (n, v) in f.iter_mut() { if n == "EPOCH" { *v = label(*us) } }
        let o = read(*enc, &doc(*enc, &f, 0))?.map_err(|e| format!("epoch {} refused: {e}", label(*us)))?;
        for enc in 0..3 {
            let t = write(enc, &o)?;
            let at = t.find("EPOCH").and_then(|p| t[p..].find(day).or(t[p..].find(next)).map(|q| p + q)).ok_or("no epoch written")?;
            let end = at + t[at..].find(|c: char| !"0123456789T:.-".contains(c)).unwrap_or(0);
            let got = unlabel(t[at..end].trim_end_matches(['"', '<'])).ok_or_else(|| format!("epoch {} written as {}", label(*us), &t[at..end]))?;
            ensure!((got - us).abs() as f64 <= TICK, "epoch {} written as {} ({})", label(*us), &t[at..end], ENC[enc]);
            let r = read(enc, &t)?.map_err(|e| format!("written epoch refused: {e}\n{t}"))?;
            ensure!((r.epoch.to::<tempoch::JD>().raw().value() - o.epoch.to::<tempoch::JD>().raw().value()).abs() < 2e-9, "re-read epoch moves");
        }
        Ok(if (0..1_000_000).contains(us) { "inside a leap second" } else { "beside a leap second" })
    });
    c.prop("many", 6_000, || (proptest::collection::vec(record(), 0..12), any::<prop::sample::Index>()), |(ds, _)| {
        let os: Vec<Omm> = ds.iter().map(omm).collect();
        let t = json::write_many(&os).map_err(|e| e.to_string())?;
        let back = json::read_many(&t).map_err(|e| format!("{e}"))?;
        ensure!(back.len() == os.len(), "{} records became {}", os.len(), back.len());
        for (a, b) in os.iter().zip(&back) { agree(a, b, true, "JSON list")? }
        Ok(if ds.len() < 2 { "-short" } else { "list" })
    });
    c.finish()
}
