//! C25: ADS-B frames and CPR positions against an independent DO-260B encoder.
use proptest::prelude::*;
use siderust::formats::adsb::{cpr::*, *};
use vharness::*;

/// Mode S parity of the leading 88 bits, by long division of the bit string.
fn parity(b: &[u8]) -> u32 {
    let poly: u64 = 0x1FF_F409; let mut rem: u64 = 0;
    for i in 0..112 { let bit = if i < 88 { (b[i / 8] >> (7 - i % 8)) & 1 } else { 0 }; rem = rem << 1 | u64::from(bit); if rem >> 24 != 0 { rem ^= poly } }
    rem as u32
}
fn hex(b: &[u8], upper: bool) -> String { b.iter().map(|v| if upper { format!("{v:02X}") } else { format!("{v:02x}") }).collect() }
/// A frame from a downlink format, capability, address and 56-bit message field.
fn frame(df: u8, ca: u8, icao: u32, me: u64) -> [u8; 14] {
    let mut b = [0u8; 14]; b[0] = df << 3 | ca; b[1..4].copy_from_slice(&icao.to_be_bytes()[1..]); b[4..11].copy_from_slice(&me.to_be_bytes()[1..]);
    let p = parity(&b); b[11..].copy_from_slice(&p.to_be_bytes()[1..]); b
}
/// Number of longitude zones, by the transition latitudes of DO-260B.
fn zones(lat: f64) -> u32 {
    let l = lat.abs(); if l > 87.0 { return 1 } if l == 87.0 { return 2 } if l == 0.0 { return 59 }
    (2..60u32).rev().find(|n| l <= transition(*n)).unwrap_or(1)
}
fn transition(n: u32) -> f64 { if n == 2 { return 87.0 } let pi = std::f64::consts::PI; ((1.0 - (pi / 30.0).cos()) / (1.0 - (2.0 * pi / f64::from(n)).cos())).sqrt().acos().to_degrees() }
struct Enc { lat: u32, lon: u32, rlat: f64, dlat: f64, dlon: f64, edge: bool }
fn encode(lat: f64, lon: f64, odd: bool) -> Enc {
    let i = u32::from(odd); let dlat = 360.0 / f64::from(60 - i);
    // Zone number and place in the zone from one quotient, which may round up to the next zone.
    let zone = (lat / dlat).floor();
    let yz = (131_072.0 * (lat / dlat - zone) + 0.5).floor();
    let rlat = dlat * (yz / 131_072.0 + zone);
    let nl = zones(rlat); let dlon = 360.0 / f64::from((nl - i).max(1));
    let xz = (131_072.0 * (lon.rem_euclid(dlon)) / dlon + 0.5).floor();
    let edge = (3..60).any(|n| (rlat.abs() - transition(n)).abs() < 1e-9);
    Enc { lat: yz as u32 & 0x1_FFFF, lon: xz as u32 & 0x1_FFFF, rlat, dlat, dlon, edge }
}
fn dlon_err(a: f64, b: f64) -> f64 { (a - b + 180.0).rem_euclid(360.0) - 180.0 }
fn place(what: &str, got: (f64, f64), lat: f64, lon: f64, e: &Enc) -> Result<(), String> {
    ensure!(got.0.abs() <= 90.0 + 1e-9 && got.1 >= -180.0 && got.1 < 180.0, "{what}: {got:?} is not a geographic position");
    ensure!((got.0 - lat).abs() <= e.dlat / 262_144.0 + 1e-9, "{what}: latitude {} of {lat}", got.0);
    ensure!(dlon_err(got.1, lon).abs() <= e.dlon / 262_144.0 + 1e-9, "{what}: longitude {} of {lon} at latitude {lat}", got.1);
    Ok(())
}
fn lat() -> impl Strategy<Value = f64> {
    prop_oneof![6 => -90.0f64..90.0, 2 => (2u32..60, -0.01f64..0.01, any::<bool>()).prop_map(|(n, d, s)| (transition(n) + d) * if s { 1.0 } else { -1.0 }), 2 => (86.9f64..90.0, any::<bool>()).prop_map(|(l, s)| if s { l } else { -l }), 1 => prop_oneof![Just(90.0), Just(-90.0), Just(87.0), Just(-87.0), Just(0.0)], 1 => -0.1f64..0.1]
}
fn lon() -> impl Strategy<Value = f64> { prop_oneof![5 => -180.0f64..180.0, 1 => -0.05f64..0.05, 1 => (-0.05f64..0.05).prop_map(|d| 180.0 + d), 1 => Just(-180.0), 1 => Just(0.0), 1 => Just(90.0)] }
fn norm(lon: f64) -> f64 { (lon + 180.0).rem_euclid(360.0) - 180.0 }

fn main() {
    let mut c = Check::new("C25", "a decodable frame, position pair or damaged frame");
    c.prop("a frame is accepted exactly when format, length and parity are right", 60_000, || (0u8..32, 0u8..8, 0u32..1 << 24, 0u64..1 << 56, any::<bool>(), proptest::collection::vec(0usize..112, 0..6), 0usize..5), |(df, ca, icao, me, upper, flips, cut)| {
        let df = if df % 2 == 0 { 17 + (df / 2) % 2 } else { *df };
        let mut b = frame(df, *ca, *icao, *me); for f in flips { b[f / 8] ^= 0x80 >> (f % 8) }
        let good = parity(&b) == u32::from_be_bytes([0, b[11], b[12], b[13]]) && matches!(b[0] >> 3, 17 | 18);
        let s = hex(&b, *upper); let r = np("parse_frame", || parse_frame(&s))?;
        ensure!(r.is_ok() == good, "{s} (DF{}, {} bits flipped): {:?}", b[0] >> 3, flips.len(), r.as_ref().err());
        if let Ok(f) = &r {
            let m = u64::from_be_bytes([0, b[4], b[5], b[6], b[7], b[8], b[9], b[10]]);
            ensure!(f.downlink_format() == b[0] >> 3 && f.icao24() == u32::from_be_bytes([0, b[1], b[2], b[3]]) && u64::from_be_bytes({ let mut w = [0; 8]; w[1..].copy_from_slice(&f.me()); w }) == m && u64::from(f.type_code()) == m >> 51, "{s}: fields differ");
            let (i, p, v) = (decode_identification(f).is_ok(), decode_airborne_position(f).is_ok(), decode_airborne_velocity(f).is_ok());
            let tc = f.type_code();
            ensure!(!i || (1..=4).contains(&tc), "type code {tc} decodes as identification"); ensure!(p == (9..=18).contains(&tc), "type code {tc} as position: {p}"); ensure!(v == (tc == 19 && matches!((m >> 48) & 7, 1 | 2)), "type code {tc} subtype {} as velocity: {v}", (m >> 48) & 7);
        }
        let damaged = match cut { 0 => s[..27].to_string(), 1 => format!("{s}0"), 2 => format!("g{}", &s[1..]), 3 => format!("{} ", &s[..27]), _ => format!("é{}", &s[2..]) };
        ensure!(np("parse_frame", || parse_frame(&damaged))?.is_err(), "{damaged:?} is accepted");
        Ok(if good { "valid" } else if flips.is_empty() { "other downlink format" } else { "damaged" })
    });
    c.prop("identification, altitude and velocity decode to what was sent", 60_000, || (0u32..1 << 24, 1u8..5, 0u8..8, "[A-Z0-9 ]{8}", 9u8..19, [0u16..2048, 0u16..1024, 0u16..1024, 0u16..512], any::<[bool; 6]>(), 0u8..4, [0u32..1 << 17, 0u32..1 << 17]), |(icao, tc, cat, call, ptc, n, f, ss, cpr)| {
        let me = call.bytes().fold(u64::from(tc << 3 | cat), |m, ch| m << 6 | u64::from(match ch { b' ' => 32, b'0'..=b'9' => ch, _ => ch - b'A' + 1 }));
        let fr = parse_frame(&hex(&frame(17, 5, *icao, me), true)).map_err(|e| e.to_string())?;
        let id = np("decode_identification", || decode_identification(&fr))?.map_err(|e| format!("callsign {call:?} refused: {e}"))?;
        ensure!(id.callsign == call.trim_end_matches(' ') && id.category == *cat, "{call:?} category {cat} read as {id:?}");
        // a reserved character
        let at = (n[0] % 8) as u32; let bad = me & !(63 << (6 * at)) | u64::from([0u8, 27, 31, 33, 47, 58, 63][(n[1] % 7) as usize]) << (6 * at);
        ensure!(decode_identification(&parse_frame(&hex(&frame(18, 0, *icao, bad), false)).map_err(|e| e.to_string())?).is_err(), "a reserved callsign character is accepted");
        // altitude: 25 ft steps from -1000 ft, Q bit set
        let code = n[0] >> 4 << 5 | 16 | n[0] & 15;
        let me = u64::from(*ptc) << 51 | u64::from(*ss) << 49 | u64::from(f[0]) << 48 | u64::from(code) << 36 | u64::from(f[1]) << 35 | u64::from(f[2]) << 34 | u64::from(cpr[0]) << 17 | u64::from(cpr[1]);
        let p = decode_airborne_position(&parse_frame(&hex(&frame(17, 5, *icao, me), true)).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(p == AirbornePositionMessage { surveillance_status: *ss, single_antenna: f[0], encoded_altitude: code, cpr_odd: f[2], cpr_lat: cpr[0], cpr_lon: cpr[1] }, "position fields {ss} {} {code} {} {cpr:?} read as {p:?}", f[0], f[2]);
        let alt = decode_altitude(code).ok_or("altitude with the Q bit set is refused")?.value(); let ft = 25.0 * f64::from(n[0]) - 1000.0;
        ensure!((alt - ft * 0.3048).abs() < 1e-9, "{ft} ft read as {alt} m");
        ensure!(decode_altitude(code & !16).is_none(), "a code without the Q bit is read in 25 ft steps");
        // velocity over ground
        for sub in [1u64, 2] {
            let me = 19u64 << 51 | sub << 48 | u64::from(f[3]) << 42 | u64::from(n[1]) << 32 | u64::from(f[4]) << 31 | u64::from(n[2]) << 21 | u64::from(f[0]) << 20 | u64::from(f[5]) << 19 | u64::from(n[3]) << 10 | u64::from(cpr[0] & 1023);
            let v = np("decode_airborne_velocity", || decode_airborne_velocity(&parse_frame(&hex(&frame(17, 5, *icao, me), true)).unwrap()))?.map_err(|e| e.to_string())?;
            let k = 1852.0 / 3600.0 * if sub == 2 { 4.0 } else { 1.0 };
            let s = |neg: bool, raw: u16| f64::from(raw - 1) * if neg { -1.0 } else { 1.0 };
            if n[1] == 0 || n[2] == 0 { ensure!(v.ground_speed_mps.is_none() && v.heading.is_none(), "velocity without a component ({}, {}) read as {v:?}", n[1], n[2]) }
            else {
                let (e, no) = (s(f[3], n[1]) * k, s(f[4], n[2]) * k);
                ensure!(v.ground_speed_mps.is_some_and(|g| close(g.value(), e.hypot(no), 1e-9, 2e-6)), "velocity E {e} N {no} read as {v:?}");
                match v.heading { Some(h) => { let a = e.atan2(no).to_degrees().rem_euclid(360.0); ensure!(e.hypot(no) > 0.0 && h.value() >= 0.0 && h.value() < 360.0 + 1e-9 && dlon_err(h.value(), a).abs() < 1e-9, "track of E {e} N {no} read as {h:?}") } None => ensure!(e == 0.0 && no == 0.0, "no track for E {e} N {no}") }
            }
            if n[3] == 0 { ensure!(v.vertical_rate_mps.is_none(), "no vertical rate read as {v:?}") }
            else { ensure!(v.vertical_rate_mps.is_some_and(|r| close(r.value(), s(f[5], n[3]) * 64.0 * 0.3048 / 60.0, 1e-9, 1e-9)), "vertical rate {} x 64 ft/min read as {v:?}", s(f[5], n[3])) }
        }
        Ok(if n[1] == 0 || n[2] == 0 || n[3] == 0 { "not available" } else { "fields" })
    });
    // Codes of zero are rare above.
    c.prop("velocity components that are not available are not invented", 10_000, || ([0u16..3, 0u16..3, 0u16..3], any::<[bool; 3]>(), 1u64..3), |(n, f, sub)| {
        let me = 19u64 << 51 | sub << 48 | u64::from(f[0]) << 42 | u64::from(n[0]) << 32 | u64::from(f[1]) << 31 | u64::from(n[1]) << 21 | u64::from(f[2]) << 19 | u64::from(n[2]) << 10;
        let v = decode_airborne_velocity(&parse_frame(&hex(&frame(18, 1, 0xABCDEF, me), true)).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(v.ground_speed_mps.is_some() == (n[0] > 0 && n[1] > 0) && v.vertical_rate_mps.is_some() == (n[2] > 0) && v.heading.is_some() == (n[0] > 0 && n[1] > 0 && (n[0] > 1 || n[1] > 1)), "codes {n:?} read as {v:?}");
        Ok("not available or still")
    });
    c.prop("an even and odd pair decodes to the position sent", 100_000, || (lat(), lon(), any::<bool>(), prop_oneof![3 => Just([0.0, 0.0]), 2 => [-0.02f64..0.02, -0.02f64..0.02]]), |(la, lo, odd_last, mv)| {
        let la2 = (la + mv[0]).clamp(-90.0, 90.0); let lo2 = norm(lo + mv[1] / la.to_radians().cos().max(0.02).min(1.0) * 0.05);
        let ((la0, lo0), (la1, lo1)) = if *odd_last { ((la2, lo2), (*la, *lo)) } else { ((*la, *lo), (la2, lo2)) };
        let (a, b) = (encode(la0, lo0, false), encode(la1, lo1, true));
        if a.edge || b.edge { return Ok("-on a zone boundary") }
        let r = np("decode_globally", || decode_globally(a.lat, a.lon, b.lat, b.lon, *odd_last))?;
        if zones(a.rlat) != zones(b.rlat) { ensure!(r.is_err(), "a pair from {} and {} zones decodes to {r:?}", zones(a.rlat), zones(b.rlat)); return Ok("straddling zones") }
        let r = r.map_err(|e| format!("a consistent pair at {la} {lo} is refused: {e}"))?;
        place("global", (r.0.value(), r.1.value()), *la, *lo, if *odd_last { &b } else { &a })?;
        Ok(if la.abs() > 87.0 { "polar" } else if mv[0] != 0.0 { "moving" } else { "fixed" })
    });
    c.prop("any pair gives a position consistent with both frames or an error", 60_000, || ([0u32..1 << 17, 0u32..1 << 17, 0u32..1 << 17, 0u32..1 << 17], any::<bool>()), |(v, odd_last)| {
        let Ok((la, lo)) = np("decode_globally", || decode_globally(v[0], v[1], v[2], v[3], *odd_last))? else { return Ok("refused") };
        let (la, lo) = (la.value(), lo.value());
        ensure!(la.abs() <= 90.0 + 1e-9 && lo >= -180.0 && lo < 180.0, "{v:?} decodes to {la} {lo}");
        let e = encode(la.clamp(-90.0, 90.0), lo, *odd_last); if e.edge { return Ok("-on a zone boundary") }
        let (y, x) = if *odd_last { (v[2], v[3]) } else { (v[0], v[1]) };
        let near = |p: u32, q: u32| matches!((p + (1 << 17) - q) & 0x1_FFFF, 0 | 1 | 0x1_FFFF);
        ensure!(near(e.lat, y) && near(e.lon, x), "{v:?} decodes to {la} {lo}, which is sent as {} {}", e.lat, e.lon);
        Ok("position")
    });
    c.prop("one frame decodes locally near a reference", 100_000, || (lat(), lon(), any::<bool>(), 0.0f64..2.9, 0.0f64..std::f64::consts::TAU), |(la, lo, odd, r, az)| {
        let e = encode(*la, *lo, *odd); if e.edge { return Ok("-on a zone boundary") }
        let rla = la + r * az.cos(); if rla.abs() > 90.0 { return Ok("-reference beyond the pole") }
        let dl = (r * az.sin() / rla.abs().max(la.abs()).to_radians().cos().max(1e-3)).clamp(-0.45 * e.dlon, 0.45 * e.dlon); let rlo = norm(lo + dl);
        let g = np("decode_locally", || decode_locally(e.lat, e.lon, *odd, rla, rlo))?.map_err(|e| e.to_string())?;
        place("local", (g.0.value(), g.1.value()), *la, *lo, &e)?;
        Ok(if lo.abs() > 177.0 { "date line" } else if la.abs() > 87.0 { "polar" } else { "local" })
    });
    c.finish()
}
