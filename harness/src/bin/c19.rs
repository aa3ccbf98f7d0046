//! C19: TLE text round-trips and corruptions are rejected.
use chrono::{Duration, NaiveDate, TimeZone, Utc};
use proptest::prelude::*;
use siderust::formats::tle::*;
use siderust::qtty::*;
use tempoch::{Time, UTC};
use vharness::gen::*;
use vharness::*;

/// An element set in the integer quanta a TLE carries.
#[derive(Clone, Debug)]
struct Q { cat: u32, cls: usize, des: String, year: i32, day8: i64, nd: i64, ndd: (i64, i32), bs: (i64, i32), el: u32, rev: u32, inc: i64, raan: i64, ecc: i64, argp: i64, ma: i64, mm: i64, blank: bool }
fn cat5(n: u32) -> String {
    if n < 100_000 { format!("{n:05}") } else { format!("{}{:04}", "ABCDEFGHJKLMNPQRSTUVWXYZ".as_bytes()[(n / 10_000 - 10) as usize] as char, n % 10_000) }
}
/// Assumed-decimal field, mantissa in units of 1e-5 and a one-digit exponent.
fn ade((m, e): (i64, i32)) -> String { format!("{}{:05}{}{}", if m < 0 { '-' } else { ' ' }, m.abs(), if e > 0 { '+' } else { '-' }, e.abs()) }
fn sum(s: &str) -> u8 { (s.bytes().map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum::<u32>() % 10) as u8 }
fn close_line(s: String) -> String { let c = sum(&s); format!("{s}{c}") }
fn deg4(x: i64) -> String { format!("{:>3}.{:04}", x / 10_000, x % 10_000) }
/// Reference writer.
fn lines(q: &Q) -> (String, String) {
    let nd = format!("{}.{:08}", if q.nd < 0 { '-' } else { ' ' }, q.nd.abs());
    let l1 = format!("1 {}{} {:<8} {:02}{:03}.{:08} {nd} {} {} 0 {:>4}", cat5(q.cat), ["U", "C", "S"][q.cls], q.des, q.year % 100, q.day8 / 100_000_000, q.day8 % 100_000_000, ade(q.ndd), ade(q.bs), if q.blank { format!("{:04}", q.el) } else { q.el.to_string() });
    let l2 = format!("2 {} {} {} {:07} {} {} {:>2}.{:08}{:>5}", cat5(q.cat), deg4(q.inc), deg4(q.raan), q.ecc, deg4(q.argp), deg4(q.ma), q.mm / 100_000_000, q.mm % 100_000_000, if q.blank { format!("{:05}", q.rev) } else { q.rev.to_string() });
    (close_line(l1), close_line(l2))
}
/// Reference reader of the columns, strict, in the same quanta.
fn read(l1: &str, l2: &str) -> Option<Q> {
    if !l1.is_ascii() || !l2.is_ascii() || l1.len() != 69 || l2.len() != 69 { return None }
    for l in [l1, l2] { if sum(&l[..68]).to_string() != l[68..] { return None } }
    let cat = |s: &str| { let b = s.as_bytes()[0]; if !s.trim_start().bytes().skip(1).all(|b| b.is_ascii_digit()) || s.contains('+') { return None } if b.is_ascii_digit() || b == b' ' { s.trim_start().parse().ok() } else { "ABCDEFGHJKLMNPQRSTUVWXYZ".find(b as char).and_then(|k| s[1..].parse::<u32>().ok().map(|t| (k as u32 + 10) * 10_000 + t)) } };
    let int = |s: &str| -> Option<i64> { let t = s.trim(); if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { None } else { t.parse().ok() } };
    let fix = |s: &str, d: usize| -> Option<i64> { let t = s.trim(); if t.contains(' ') { return None } let (n, t) = if let Some(r) = t.strip_prefix('-') { (-1, r) } else { (1, t.strip_prefix('+').unwrap_or(t)) }; let (a, b) = t.split_once('.')?; if b.len() != d { return None } let a = if a.is_empty() { 0 } else { int(a)? }; Some(n * (a * 10i64.pow(d as u32) + int(b)?)) };
    let ex = |s: &str| -> Option<(i64, i32)> { let t = s.trim(); let (n, t) = if let Some(r) = t.strip_prefix('-') { (-1, r) } else { (1, t.strip_prefix('+').unwrap_or(t)) }; if t.len() != 7 || t.contains(' ') || !"+-".contains(&t[5..6]) { return None } let e = int(&t[6..])? as i32; Some((n * int(&t[..5])?, if &t[5..6] == "-" { -e } else { e })) };
    let yy = int(&l1[18..20])? as i32;
    let q = Q { cat: cat(&l1[2..7])?, cls: "UCS".find(&l1[7..8])?, des: l1[9..17].trim().into(), year: if yy < 57 { 2000 + yy } else { 1900 + yy }, day8: fix(&l1[20..32], 8)?, nd: fix(&l1[33..43], 8)?, ndd: ex(&l1[44..52])?, bs: ex(&l1[53..61])?, el: int(&l1[64..68])? as u32, rev: int(&l2[63..68])? as u32, inc: fix(&l2[8..16], 4)?, raan: fix(&l2[17..25], 4)?, ecc: if l2[26..33].contains(' ') { return None } else { int(&l2[26..33])? }, argp: fix(&l2[34..42], 4)?, ma: fix(&l2[43..51], 4)?, mm: fix(&l2[52..63], 8)?, blank: false };
    (cat(&l2[2..7])? == q.cat && &l1[..1] == "1" && &l2[..1] == "2").then_some(q)
}
fn civil(q: &Q) -> chrono::DateTime<Utc> {
    let d = NaiveDate::from_ymd_opt(q.year, 1, 1).unwrap() + Duration::days(q.day8 / 100_000_000 - 1);
    Utc.from_utc_datetime(&d.and_hms_opt(0, 0, 0).unwrap()) + Duration::microseconds(((q.day8 % 100_000_000) as i128 * 86_400_000_000 / 100_000_000) as i64)
}
fn close_to(t: Time<UTC>, want: chrono::DateTime<Utc>) -> Result<(), String> {
    let c = t.try_to_chrono().map_err(|e| format!("epoch not civil: {e:?}"))?;
    let mut d = (c.timestamp() - want.timestamp()) * 1_000_000_000 + c.timestamp_subsec_nanos() as i64 - want.timestamp_subsec_nanos() as i64;
    if c.timestamp_subsec_nanos() >= 1_000_000_000 { d -= d.clamp(0, 1_000_000_000) } // just before midnight, labelled within the leap second

    ensure!(d.abs() <= if want.timestamp() < 63_072_000 { 120_000_000 } else { 60_000 }, "epoch {c} should be {want}");
    Ok(())
}
fn exp(m: (i64, i32)) -> f64 { m.0 as f64 * 1e-5 * 10f64.powi(m.1) }
fn same(t: &TLE, q: &Q) -> Result<(), String> {
    let eq = |what: &str, got: f64, want: f64| -> Result<(), String> { ensure!(close(got, want, 0.0, 1e-14), "{what} reads {got}, the field holds {want}"); Ok(()) };
    ensure!(t.norad_id.0 == q.cat, "catalogue number {} for {}", t.norad_id.0, q.cat);
    ensure!(t.classification == [Classification::Unclassified, Classification::Classified, Classification::Secret][q.cls], "classification {:?}", t.classification);
    ensure!(t.international_designator.0 == q.des, "designator {:?} for {:?}", t.international_designator.0, q.des);
    ensure!(t.element_set_number as u32 == q.el && t.revolution_number_at_epoch == q.rev, "set/revolution number {}/{} for {}/{}", t.element_set_number, t.revolution_number_at_epoch, q.el, q.rev);
    eq("mean motion derivative", t.mean_motion_dot, q.nd as f64 * 1e-8)?;
    eq("second derivative", t.mean_motion_ddot, exp(q.ndd))?;
    eq("BSTAR", t.bstar, exp(q.bs))?;
    eq("inclination", t.inclination.value(), q.inc as f64 * 1e-4)?;
    eq("node", t.raan.value(), q.raan as f64 * 1e-4)?;
    eq("eccentricity", t.eccentricity, q.ecc as f64 * 1e-7)?;
    eq("perigee", t.argument_of_perigee.value(), q.argp as f64 * 1e-4)?;
    eq("anomaly", t.mean_anomaly.value(), q.ma as f64 * 1e-4)?;
    eq("mean motion", t.mean_motion.value(), q.mm as f64 * 1e-8)?;
    close_to(t.epoch, civil(q))
}
fn designator() -> impl Strategy<Value = String> { prop_oneof![8 => "[0-9]{5}[A-Z]{1,3}", 1 => Just(String::new()), 1 => "[0-9A-Z]{1,8}"] }
fn ade_s() -> impl Strategy<Value = (i64, i32)> { prop_oneof![2 => Just((0, 0)), 5 => (-99_999i64..100_000, -9i32..=0), 1 => (-99_999i64..100_000, -9i32..=9), 1 => Just((99_999, -4)), 1 => (-20i64..20, Just(-9))] }
fn ang(max: i64) -> impl Strategy<Value = i64> { prop_oneof![6 => 0..max * 10_000, 1 => Just(0), 1 => Just(max * 10_000), 1 => Just(max * 10_000 - 1)] }
fn quanta() -> impl Strategy<Value = Q> {
    let cat = prop_oneof![3 => 0u32..100_000, 3 => 100_000u32..340_000, 1 => Just(99_999), 1 => Just(100_000), 1 => Just(339_999), 1 => 179_998u32..180_003, 1 => 229_998u32..230_003, 1 => 0u32..10];
    let day = (prop_oneof![6 => 1i64..366, 1 => Just(366), 1 => Just(365), 1 => Just(1)], prop_oneof![6 => 0i64..100_000_000, 1 => Just(0), 1 => Just(99_999_999)]).prop_map(|(d, f)| d * 100_000_000 + f);
    let year = prop_oneof![4 => 1972i32..2057, 1 => Just(1999), 1 => Just(2000), 1 => Just(2056), 1 => Just(1972)];
    ((cat, 0usize..3, designator(), year, day, prop_oneof![6 => -99_999_999i64..100_000_000, 2 => -10_000i64..10_000, 1 => Just(0)], ade_s(), ade_s()), (0u32..10_000, 0u32..100_000, ang(180), ang(360), prop_oneof![5 => 0i64..10_000_000, 2 => 0i64..100_000, 1 => Just(9_999_999)], ang(360), ang(360), prop_oneof![4 => 0i64..1_800_000_000, 1 => 0i64..10_000_000_000], any::<bool>()))
        .prop_map(|((cat, cls, des, year, day8, nd, ndd, bs), (el, rev, inc, raan, ecc, argp, ma, mm, blank))| {
            let leap = NaiveDate::from_ymd_opt(year, 2, 29).is_some();
            let day8 = if day8 >= 36_600_000_000 && !leap { day8 - 100_000_000 } else { day8 };
            Q { cat, cls, des, year, day8, nd, ndd: if ndd.0 == 0 { (0, 0) } else { ndd }, bs: if bs.0 == 0 { (0, 0) } else { bs }, el, rev, inc, raan, ecc, argp, ma, mm, blank }
        })
}
fn check_lines(l1: &str, l2: &str) -> Result<Q, String> {
    for (k, l) in [l1, l2].iter().enumerate() {
        ensure!(l.len() == 69 && l.is_ascii(), "line {} has {} columns: {l:?}", k + 1, l.len());
        ensure!(sum(&l[..68]).to_string() == l[68..], "line {} carries a wrong checksum: {l:?}", k + 1);
    }
    read(l1, l2).ok_or_else(|| format!("formatted lines are not a valid TLE:\n{l1}\n{l2}"))
}

fn main() {
    let mut c = Check::new("C19", "element sets on and off the TLE grid (catalogue 0-339999, years 1972-2056, every exponent, all column extremes), values outside what a TLE can hold, and single-character, length and whole-field corruptions of valid lines with and without a repaired checksum; a corruption is trivial when it changes nothing");
    c.assume("tempoch converts civil times to within some tens of microseconds, well under the TLE resolution of 0.86 ms; before 1972 it steps by tenths of a second, so the generators start there; UTC before 1961 is undefined, so two-digit years 57-60 are refused");
    c.prop("round_trip", 300_000, || (quanta(), prop_oneof![Just(None), "[A-Z][A-Z0-9 ()+./-]{0,22}[A-Z0-9)]".prop_map(Some)], any::<bool>()), |(q, name, zero)| {
        let (l1, l2) = lines(q);
        let t = match name {
            None => parse_tle(&l1, &l2),
            Some(n) => parse_3le(&if *zero { format!("0 {n}") } else { n.clone() }, &l1, &l2),
        }.map_err(|e| format!("valid lines refused: {e}\n{l1}\n{l2}"))?;
        ensure!(t.name == *name, "name {:?} read as {:?}", name, t.name);
        same(&t, q).map_err(|e| format!("{e}\n{l1}\n{l2}"))?;
        ensure!(validate_tle_checksum(&l1).is_ok() && validate_tle_checksum(&l2).is_ok() && compute_tle_checksum(&l1[..68]) == sum(&l1[..68]), "checksum of a valid line");
        let (w1, w2) = np("format_tle", || format_tle(&t))?.map_err(|e| format!("a parsed TLE cannot be formatted: {e}\n{l1}\n{l2}"))?;
        let r = check_lines(&w1, &w2)?;
        let t2 = parse_tle(&w1, &w2).map_err(|e| format!("formatted lines refused: {e}\n{w1}\n{w2}"))?;
        let ok = (r.cat, r.cls, &r.des, r.year, r.day8, r.nd, r.el, r.rev) == (q.cat, q.cls, &q.des, q.year, q.day8, q.nd, q.el, q.rev) && (r.inc, r.raan, r.ecc, r.argp, r.ma, r.mm) == (q.inc, q.raan, q.ecc, q.argp, q.ma, q.mm);
        ensure!(ok && close(exp(r.ndd), exp(q.ndd), 0.0, 1e-12) && close(exp(r.bs), exp(q.bs), 0.0, 1e-12), "formatting changes the elements\n{l1}\n{w1}\n{l2}\n{w2}");
        same(&t2, q)?;
        Ok(if name.is_some() { "named" } else { "two lines" })
    });
    let num = || prop_oneof![6 => -1.0f64..1.0, 2 => logu(-14.0, 0.0), 1 => logu(-14.0, 0.0).prop_map(|x| -x), 1 => (-12i32..2, 0.99999f64..1.00001).prop_map(|(k, x)| x * 10f64.powi(k)), 1 => Just(0.0), 1 => (-5i32..12).prop_map(|k| 10f64.powi(-k))];
    let deg = |m: f64| prop_oneof![6 => 0.0..m, 1 => Just(0.0), 1 => (0.0f64..1e-4).prop_map(move |x| m - x)];
    let when = || (1972i64..2057, 0.0f64..1.0, 0u8..4, -0.1f64..0.1).prop_map(|(y, f, k, s)| {
        let start = Utc.with_ymd_and_hms(y as i32, 1, 1, 0, 0, 0).unwrap();
        let year_end = Utc.with_ymd_and_hms(y as i32 + 1, 1, 1, 0, 0, 0).unwrap();
        match k { 0 => year_end - Duration::nanoseconds(((s * 1e-2).abs() * 1e9) as i64 + 1), 1 => start + Duration::nanoseconds((s.abs() * 1e9) as i64), _ => start + Duration::microseconds(((year_end - start).num_seconds() as f64 * f * 1e6) as i64) }
    });
    c.prop("format_any", 300_000, move || ((quanta(), when()), (num(), num(), num()), (deg(180.0), deg(360.0), deg(360.0), deg(360.0)), prop_oneof![0.0f64..1.0, logu(-9.0, 0.0).prop_map(|x| 1.0 - x)], prop_oneof![0.0f64..18.0, 0.0f64..101.0, (0.0f64..1e-8).prop_map(|x| 100.0 - x)], (0u8..12)), |((q, when), (nd, ndd, bs), (i, o, w, m), e, n, hurt)| {
        let mut t = TleBuilder::new().norad_id(SatelliteNumber(q.cat)).international_designator(InternationalDesignator(q.des.clone())).epoch(Time::<UTC>::try_from_chrono(*when).map_err(|x| format!("{x:?}"))?)
            .mean_motion_dot(*nd).mean_motion_ddot(*ndd).bstar(*bs).element_set_number(q.el as u16).revolution_number_at_epoch(q.rev)
            .inclination(Degrees::new(*i)).raan(Degrees::new(*o)).argument_of_perigee(Degrees::new(*w)).mean_anomaly(Degrees::new(*m)).eccentricity(*e).mean_motion(siderust::qtty::angular_rate::AngularRate::new(*n))
            .name(q.des.clone()).classification(Classification::from_char(['U', 'C', 'S'][q.cls]).unwrap()).build().map_err(|x| format!("complete builder: {x}"))?;
        ensure!(t.name.as_deref() == Some(&q.des[..]), "the builder's name is lost: {:?}", t.name);
        // Fields no TLE can hold.
        let mut hopeless = true;
        match hurt {
            0 => t.element_set_number = 10_000 + q.el as u16,
            1 => t.revolution_number_at_epoch = 100_000 + q.rev,
            2 => t.international_designator.0 = format!("{}ABCDEFGHI", q.des),
            3 => t.norad_id.0 = 340_000 + q.cat * 7,
            4 => t.inclination = Degrees::new([f64::NAN, f64::INFINITY, 1000.0, -100.0, 1e300][q.el as usize % 5]),
            5 => t.eccentricity = [f64::NAN, f64::INFINITY, 1.0, -0.1, 1e300][q.el as usize % 5],
            6 => t.bstar = [f64::NAN, f64::INFINITY, 1e10, -1e10, f64::NEG_INFINITY][q.el as usize % 5],
            7 => t.mean_motion_dot = [f64::NAN, f64::INFINITY, 1.0, -7.0, 1e300][q.el as usize % 5],
            8 => t.epoch = Time::<UTC>::try_from_chrono(Utc.with_ymd_and_hms([2057, 2061, 2099, 2157, 2300][q.el as usize % 5], 3, 1, 0, 0, 0).unwrap()).unwrap(),
            _ => hopeless = false,
        }
        let out = np("format_tle", || format_tle(&t))?;
        let big = *n >= 99.999_999_995 || *e >= 0.999_999_95 || nd.abs() >= 0.999_999_995;
        if hopeless {
            if let Ok((a, b)) = out { return Err(format!("a value no TLE can hold was written (case {hurt}):\n{a}\n{b}")) }
            return Ok("not representable");
        }
        let (l1, l2) = match out { Ok(x) => x, Err(x) => { ensure!(big || *when >= Utc.with_ymd_and_hms(2056, 12, 31, 23, 59, 59).unwrap() || *e > 0.9999999 || ndd.abs() > 0.99 * 1e9, "a representable element set was refused: {x}"); return Ok("not representable") } };
        let r = check_lines(&l1, &l2)?;
        ensure!((r.cat, r.cls, &r.des, r.el, r.rev) == (q.cat, q.cls, &q.des, q.el, q.rev), "identification {q:?} written as\n{l1}\n{l2}");
        let half = |what: &str, got: f64, want: f64, q: f64| -> Result<(), String> { ensure!((got - want).abs() <= 0.5 * q * (1.0 + 1e-9) + 1e-13 * want.abs(), "{what} {want} written as {got}\n{l1}\n{l2}"); Ok(()) };
        half("inclination", r.inc as f64 * 1e-4, *i, 1e-4)?;
        half("node", r.raan as f64 * 1e-4, *o, 1e-4)?;
        half("perigee", r.argp as f64 * 1e-4, *w, 1e-4)?;
        half("anomaly", r.ma as f64 * 1e-4, *m, 1e-4)?;
        half("eccentricity", r.ecc as f64 * 1e-7, *e, 1e-7)?;
        half("mean motion", r.mm as f64 * 1e-8, *n, 1e-8)?;
        half("mean motion derivative", r.nd as f64 * 1e-8, *nd, 1e-8)?;
        for (what, f, v) in [("second derivative", r.ndd, *ndd), ("BSTAR", r.bs, *bs)] {
            ensure!((exp(f) - v).abs() <= (v.abs() * 5.1e-5).max(0.51e-14), "{what} {v} written as {}\n{l1}", exp(f));
            // Normalised mantissas keep five digits.
            ensure!((exp(f) - v).abs() <= (v.abs() * 5.01e-6 * if v.abs() < 1e-10 { 1e9 } else { 10.0 }).max(0.51e-14), "{what} {v} loses digits as {}", exp(f));
        }
        let off = (civil(&r) - *when).num_microseconds().unwrap_or(i64::MAX);
        ensure!(off.abs() <= 434 + 60, "epoch {when} written {off} us away:\n{l1}");
        let t2 = parse_tle(&l1, &l2).map_err(|x| format!("formatted lines refused: {x}\n{l1}\n{l2}"))?;
        same(&t2, &r)?;
        Ok("written")
    });
    c.prop("incomplete", 20_000, || (quanta(), 0u16..512), |(q, mask)| {
        let has = |k: u32| mask >> k & 1 == 1;
        let mut b = TleBuilder::new();
        if has(0) { b = b.norad_id(SatelliteNumber(q.cat)) }
        if has(1) { b = b.international_designator(InternationalDesignator(q.des.clone())) }
        if has(2) { b = b.epoch(Time::<UTC>::try_from_chrono(civil(q)).map_err(|x| format!("{x:?}"))?) }
        if has(3) { b = b.inclination(Degrees::new(q.inc as f64 * 1e-4)) }
        if has(4) { b = b.raan(Degrees::new(q.raan as f64 * 1e-4)) }
        if has(5) { b = b.eccentricity(q.ecc as f64 * 1e-7) }
        if has(6) { b = b.argument_of_perigee(Degrees::new(q.argp as f64 * 1e-4)) }
        if has(7) { b = b.mean_anomaly(Degrees::new(q.ma as f64 * 1e-4)) }
        if has(8) { b = b.mean_motion(siderust::qtty::angular_rate::AngularRate::new(q.mm as f64 * 1e-8)) }
        let names = ["norad_id", "international_designator", "epoch", "inclination", "raan", "eccentricity", "argument_of_perigee", "mean_anomaly", "mean_motion"];
        match b.build() {
            Ok(t) => { ensure!(*mask == 511, "a builder without {:?} builds {t:?}", names.iter().enumerate().filter(|(k, _)| !has(*k as u32)).map(|x| x.1).collect::<Vec<_>>());
                ensure!(t.name.is_none() && t.bstar == 0.0 && t.mean_motion_dot == 0.0 && t.mean_motion_ddot == 0.0 && t.element_set_number == 0 && t.revolution_number_at_epoch == 0 && t.classification == Classification::Unclassified, "defaults: {t:?}");
                Ok("-complete") }
            Err(TleError::BuilderMissingField(f)) => { ensure!(names.iter().position(|n| *n == f).is_some_and(|k| !has(k as u32)), "{f} reported missing, mask {mask:b}"); Ok("missing field") }
            Err(e) => Err(format!("{e}")),
        }
    });
    let ch = || prop_oneof![6 => (32u8..127).prop_map(|b| b as char), 3 => (b'0'..=b'9').prop_map(|b| b as char), 1 => Just('é'), 1 => Just('°'), 1 => Just('\u{1F6F0}'), 1 => Just('-'), 1 => Just('+'), 1 => Just(' ')];
    c.prop("one_character", 600_000, move || (quanta(), any::<bool>(), 0usize..69, ch(), 0u8..4), |(q, first, col, ch, how)| {
        let (l1, l2) = lines(q);
        let mut l = if *first { l1.clone() } else { l2.clone() };
        match how {
            0 => { l.remove(*col); }
            1 => l.insert(*col, *ch),
            _ => { l.replace_range(*col..*col + 1, &ch.to_string()); }
        }
        // Either leave the checksum alone or repair it, so that the fields themselves are examined.
        let repaired = *how == 3 && *col != 68 && l.is_ascii();
        if repaired { l = close_line(l[..68].to_string()) }
        let (a, b) = if *first { (&l, &l2) } else { (&l1, &l) };
        let got = np("parse_tle", || parse_tle(a, b))?;
        let chk = np("validate_tle_checksum", || validate_tle_checksum(&l))?;
        let line = if *first { 1u8 } else { 2 };
        if l == l1 || l == l2 { return Ok("-same line") }
        if l.len() != 69 {
            ensure!(matches!(got, Err(TleError::BadLength { .. })), "a line of {} columns gives {got:?}", l.len());
            ensure!(chk.is_err(), "checksum accepted for the wrong length");
            return Ok("length");
        }
        let valid = l.is_ascii() && l.as_bytes()[68].is_ascii_digit() && sum(&l[..68]).to_string() == l[68..];
        ensure!(chk.is_ok() == valid, "checksum verdict {chk:?} for {l:?}");
        match got {
            Ok(t) => {
                ensure!(valid, "a line with a wrong checksum or foreign characters was accepted: {l:?}");
                // Lenient spellings are fine as long as a strict reading, where there is one, agrees.
                if let Some(r) = read(a, b) { ensure!(NaiveDate::from_yo_opt(r.year, (r.day8 / 100_000_000) as u32).is_some(), "a date that does not exist was accepted\n{a}"); same(&t, &r)?; }
                ensure!(&l[..1] == &line.to_string(), "line number {:?} accepted as line {line}", &l[..1]);
                ensure!(l[2..7].trim() == if *first { &l2[2..7] } else { &l1[2..7] } || read(a, b).is_some(), "catalogue numbers differ");
                for v in [t.bstar, t.mean_motion_dot, t.mean_motion_ddot, t.inclination.value(), t.raan.value(), t.argument_of_perigee.value(), t.mean_anomaly.value(), t.mean_motion.value()] { ensure!(v.is_finite(), "a non-finite element was read from {l:?}") }
                ensure!((0.0..1.0).contains(&t.eccentricity) && t.element_set_number < 10_000 && t.revolution_number_at_epoch < 100_000, "an element outside its columns' range was read from {l:?}");
                Ok("harmless to the checksum")
            }
            Err(e) => {
                ensure!(read(a, b).is_none_or(|r| NaiveDate::from_yo_opt(r.year, (r.day8 / 100_000_000) as u32).is_none() || r.year < 1961), "a valid pair was refused: {e}\n{a}\n{b}");
                match (*how, *col) {
                    (_, 0) => ensure!(matches!(e, TleError::BadLeadingChar { line: n, .. } if n == line), "wrong line number reported as {e:?}"),
                    (2, _) if l.is_ascii() && !valid => ensure!(matches!(e, TleError::BadChecksum { line: n, .. } if n == line), "wrong checksum reported as {e:?}"),
                    (3, k) if repaired && l.is_ascii() => match k {
                        2..=6 => ensure!(matches!(e, TleError::MismatchedSatelliteNumber { .. } | TleError::InvalidAlpha5 { .. } | TleError::InvalidNumber { .. }), "catalogue number problem reported as {e:?}"),
                        7 if *first => ensure!(matches!(e, TleError::InvalidClassification { raw } if raw == *ch), "classification problem reported as {e:?}"),
                        18..=31 if *first => ensure!(matches!(e, TleError::InvalidEpoch { .. } | TleError::InvalidNumber { .. } | TleError::EpochConversion(_)), "epoch problem reported as {e:?}"),
                        26..=32 if !*first => ensure!(matches!(e, TleError::InvalidNumber { field: "eccentricity", .. }), "eccentricity problem reported as {e:?}"),
                        8..=15 if !*first => ensure!(matches!(e, TleError::InvalidNumber { field: "inclination", .. }), "inclination problem reported as {e:?}"),
                        _ => {}
                    },
                    _ => {}
                }
                Ok("rejected")
            }
        }
    });
    // Whole fields replaced, checksum repaired.
    c.prop("bad_fields", 100_000, || (quanta(), 0usize..15, 0usize..8), |(q, f, k)| {
        let (mut l1, mut l2) = lines(q);
        let put = |l: &mut String, a: usize, s: &str| { l.replace_range(a..a + s.len(), s); *l = close_line(l[..68].to_string()) };
        let words = |w: usize| -> String { let s = ["NaN", "inf", "-inf", "nan", "1e9", "", "x", "."][*k]; format!("{s:>w$.w$}") };
        match f {
            0 => put(&mut l1, 20, ["000.50000000", "367.00000000", "400.00000000", "999.99999999", "-01.00000000", "366.99999999", "         NaN", "         inf"][*k]),
            1 => put(&mut l1, 18, ["-5", "+5", "x1", "  ", "1.", "5-", "-0", "+9"][*k]),
            2 => put(&mut l1, 33, &words(10)),
            3 => put(&mut l1, 44, [" 1234x-3", "  NaN   ", " 12345 3", " 12.45-3", " --234-3", " 12345--", "-12345-+", "infinity"][*k]),
            4 => put(&mut l1, 53, [" 1234x-3", "  NaN   ", " 12345 3", " 12.45-3", " --234-3", " 12345--", "-12345-+", "infinity"][*k]),
            5 => put(&mut l1, 64, ["  -1", "-999", "  +1", " 1.5", "    ", "1e3 ", " NaN", "0x10"][*k]),
            6 => put(&mut l2, 63, ["   -1", "-9999", "   +1", "  1.5", "     ", "  1e3", "  NaN", " 0x10"][*k]),
            7 => put(&mut l2, 8, &words(8)),
            8 => put(&mut l2, 17, &words(8)),
            9 => put(&mut l2, 34, &words(8)),
            10 => put(&mut l2, 43, &words(8)),
            11 => put(&mut l2, 52, &words(11)),
            12 => put(&mut l2, 26, ["-000001", "+000001", "0.12345", "   NaN ", "       ", "1e-0003", "12 4567", "123456x"][*k]),
            13 => put(&mut l2, 2, &cat5((q.cat + 1 + *k as u32 * 1111) % 340_000)),
            _ => put(&mut l1, 2, ["I1234", "O1234", "a1234", "A123 ", "12A45", "     ", "-1234", "+1234"][*k]),
        }
        if *f == 0 && *k == 5 && q.year % 4 == 0 { return Ok("-leap year") }
        let tolerated = (*k == 4 && (2..=2).contains(f)) || (*k == 4 && (7..=11).contains(f)); // "1e9" is a number
        match np("parse_tle", || parse_tle(&l1, &l2))? {
            Err(e) => {
                if *f == 13 { ensure!(matches!(e, TleError::MismatchedSatelliteNumber { l1, .. } if l1 == q.cat), "mismatch reported as {e:?}") }
                let want = ["", "epoch_year", "mean_motion_dot", "mean_motion_ddot", "bstar", "element_set_number", "revolution_number", "inclination", "raan", "argument_of_perigee", "mean_anomaly", "mean_motion", "eccentricity"].get(*f).copied().unwrap_or("");
                if !want.is_empty() { ensure!(matches!(&e, TleError::InvalidNumber { field, .. } if *field == want), "a bad {want} field is reported as {e:?}") }
                Ok("rejected")
            }
            Ok(t) => { ensure!(tolerated, "field {f} variant {k} accepted as {t:?}\n{l1}\n{l2}"); Ok("-lenient number") }
        }
    });
    c.finish()
}
