//! C24: every reader of external data under structure-aware mutation: no panic, no hang,
//! no crash, no allocation out of proportion to the input.
use proptest::prelude::*;
use siderust::catalogs::ingest::parse_csv_chunk;
use siderust::ephemeris::RuntimeEphemeris;
use siderust::formats::adsb::*;
use siderust::formats::ccsds::{oem::*, opm::*, tdm::*};
use siderust::formats::iers::eop::read_eop_c04;
use siderust::formats::igs::{antex::*, orbex::*, sinex::*, sp3::*};
use siderust::formats::ilrs::{cpf::*, crd::*};
use siderust::formats::rinex::{doris::*, nav::*, obs::*};
use siderust::formats::sck::parse_sck;
use siderust::formats::spice::spk::{parse_bsp, parse_indexed_segments};
use siderust::formats::spice::*;
use siderust::formats::tle::omm::{json, kvn, xml};
use siderust::formats::tle::*;
use siderust::formats::vlbi::vgosdb::read_vgosdb_sidecar;
use siderust::formats::ParseMode;
use siderust::spice::SpiceContext;
use std::alloc::{GlobalAlloc, Layout as Lay, System};
use std::cell::Cell;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};
use vharness::*;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Lay) -> *mut u8 {
        if ON.with(|o| o.get()) { let n = LIVE.with(|v| { v.set(v.get() + l.size() as i64); v.get() }); PEAK.with(|p| p.set(p.get().max(n))) }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Lay) { if ON.with(|o| o.get()) { LIVE.with(|v| v.set(v.get() - l.size() as i64)) } System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Counting = Counting;

const TLE1: &str = "1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927";
const TLE2: &str = "2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537";
const OEM: &str = "CCSDS_OEM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = ME\nCOMMENT x\nMETA_START\nOBJECT_NAME = SAT\nOBJECT_ID = 2024-001A\nCENTER_NAME = EARTH\nREF_FRAME = EME2000\nTIME_SYSTEM = UTC\nSTART_TIME = 2024-01-01T00:00:00\nSTOP_TIME = 2024-01-01T01:00:00.5\nINTERPOLATION = HERMITE\nINTERPOLATION_DEGREE = 7\nMETA_STOP\n2024-01-01T00:00:00.000 7000.0 0.5 -1.0 0.0 7.5 0.0\n2024-01-01T00:01:00 6999.0 1.5e2 -1.0 0.1 7.5 0.25\nCOVARIANCE_START\nEPOCH = 2024-01-01T00:00:00\nCOV_REF_FRAME = RTN\n1.0\n0.1 1.0\nCOVARIANCE_STOP\n";
const OPM: &str = "CCSDS_OPM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = ME\nMETA_START\nOBJECT_NAME = SAT\nOBJECT_ID = 2024-001A\nCENTER_NAME = EARTH\nREF_FRAME = EME2000\nTIME_SYSTEM = UTC\nMETA_STOP\nEPOCH = 2024-001T12:00:00.000\nX = 7000.0\nY = 0.0\nZ = 0.0\nX_DOT = 0.0\nY_DOT = 7.5 [km/s]\nZ_DOT = 0.0\nSEMI_MAJOR_AXIS = 7000.0\nECCENTRICITY = 0.001\nINCLINATION = 51.6\nRA_OF_ASC_NODE = 247.0\nARG_OF_PERICENTER = 130.0\nTRUE_ANOMALY = 325.0\nMAN_EPOCH_IGNITION = 2024-01-01T00:00:00\nMAN_DURATION = 12\n";
const TDM: &str = "CCSDS_TDM_VERS = 1.0\nMETA_START\nPARTICIPANT_1 = STATION_A\nPARTICIPANT_2 = SAT1\nMODE = SEQUENTIAL\nPATH = 1,2,1\nTIME_SYSTEM = UTC\nMETA_STOP\nDATA_START\nRANGE = 2024-001T12:00:00 : 23000.0\nANGLE_1 = 2024-001T00:02:00 : 3.0\nMY_CUSTOM_OBS = 2024-001T00:04:00 : 5.0\nDATA_STOP\n";
const SP3: &str = "#dP2024  1  1  0  0  0.00000000      96 ORBIT IGS20 HLM  IGS\n##  2295 518400.00000000   900.00000000 60310 0.0000000000000\n+    2   G01G02                                                     \n++         5   5                                                    \n%c L  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n%i    0    0    0    0      0      0      0      0         0\n/* COMMENT LINE\n*  2024  1  1  0  0  0.00000000\nPG01   1000.000000   2000.000000   3000.000000      0.000123\nVG01   1000.000000   2000.000000   3000.000000      0.000123\nPG02  -1500.000000   1700.000000  -2500.000000 999999.999999\n*  2024  1  1  0 15  0.00000000\nPG01   1100.000000   2100.000000   3100.000000      0.000124\nEOF\n";
const ANTEX: &str = "                                                            START OF ANTENNA\nTEST-ANTENNA   ABC                                          TYPE / SERIAL NO\n   G01                                                      START OF FREQUENCY\n      1.50      0.20     90.00                              NORTH / EAST / UP\n   NOAZI    0.00   -0.22\n                                                            END OF FREQUENCY\n                                                            END OF ANTENNA\n";
const SINEX: &str = "%=SNX 2.10 IGS 24:001:00000 IGS 00:000:00000 23:365:86370 P 00000 0 S\n+SITE/ID\n*Code Pt Domes____ T _Station Description__ _Longitude_ _Latitude__ _Height_\n ABCD  A 10101M001 P Some Station            010 00 00.0 050 00 00.0  100.000\n-SITE/ID\n+SOLUTION/ESTIMATE\n     1 STAX   ABCD  A    1 24:001:00000 m    2  1.000000000000000E+06  1.000E-04\n     2 STAY   ABCD  A    1 24:001:00000 m    2 -2.000000000000000E+06  1.000E-04\n     3 STAZ   ABCD  A    1 24:001:00000 m    2  3.000000000000000E+06  1.000E-04\n     4 VELX   ABCD  A    1 24:001:00000 m/y  2  0.010000000000000E+00  1.000E-04\n-SOLUTION/ESTIMATE\n%ENDSNX\n";
const ORBEX: &str = "%=ORBEX  0.09\n%%\n+FILE/DESCRIPTION\n-FILE/DESCRIPTION\n+EPHEMERIS/DATA\n#ORB\n## 2024 21 21600.000000000\n G01  1.0E+07  2.0E+06  3.0E+06 100.0 200.0 300.0\n#CLK\n## 2024 21 0.0\n G01  1.5E-7\n#ATT\n## 2024 21 0.0\n G01  1.0  0.0  0.0  0.0\n-EPHEMERIS/DATA\n%ENDORBEX\n";
const NAV: &str = "     3.04           N: GNSS NAV DATA    M (Mixed)           RINEX VERSION / TYPE\n                                                            END OF HEADER\nG01 2024 01 01 00 00 00 1.234567000000E-04 5.678000000000E-12 0.000000000000E+00\n     1.000000000000E+00 2.000000000000E+01 3.456000000000E-09 1.234567000000E+00\n     5.000000000000E-07 1.000000000000E-03 9.000000000000E-07 5.153651000000E+03\n     5.184000000000D+05 1.000000000000D-08 1.000000000000D+00 2.000000000000D-08\n     9.760000000000E-01 2.500000000000E+02-1.500000000000E+00-8.000000000000E-09\n     1.000000000000E-10 0.000000000000E+00 2.295000000000E+03 0.000000000000E+00\n     2.000000000000E+00 0.000000000000E+00-1.100000000000E-08 1.000000000000E+00\n     5.184000000000E+05 4.000000000000E+00\nR05 2024 01 01 00 15 00-1.0E-04 0.0E+00 0.0E+00\n     1.0E+04 1.0E+00 0.0E+00 0.0E+00\n     1.0E+04 1.0E+00 0.0E+00 0.0E+00\n     1.0E+04 1.0E+00 0.0E+00 0.0E+00\n";
const OBS: &str = "     3.04           OBSERVATION DATA    M (MIXED)           RINEX VERSION / TYPE\nTEST-MARK                                                   MARKER NAME\n  1234567.8901  -2345678.9012   5678901.2345                APPROX POSITION XYZ\nG    2 C1C L1C                                              SYS / # / OBS TYPES\n    30                                                      INTERVAL\n                                                            END OF HEADER\n> 2024 01 01 00 00  0.0000000  0  2\nG01  20123456.789         123456789.012\nG02  20123456.789 1       123456789.012 5\n> 2024 01 01 00 00 30.0000000  0  1\nG01  20124000.000         123457000.000\n";
const DORIS: &str = "     3.00           OBSERVATION DATA    D                   RINEX VERSION / TYPE\nPROGRAM             AGENCY                                  PGM / RUN BY / DATE \nSTATION-A                                                   MARKER NAME         \n1                   ANT                                     ANT # / TYPE\n1                   REC                                     REC # / TYPE / VERS\n                                                            END OF HEADER       \n> 2024 01 02 03 04 05.000\nD01 12345.678 678.9\nD02 12345.678 678.9\n";
const CPF: &str = "H1 CPF 2 CNES 2024 01 01 00 1\nH2 lageos1 1155 7603901 2024 1 1 0 0 0 2024 1 1 1 0 0 60 0 ITRF2014\n10 1 60310 0.000 0 6000000.000 9000000.000 7000000.000\n10 1 60310 60.000 0 6001200.000 8999100.000 7001500.000\n20 0 1 2 3\n99\n";
const CRD: &str = "H1 CRD 2 2024 01 01 00\nH2 GRAZ 7839 1 1 0\nH3 lageos1 1155 7603901 0 1\nH4 0 2024 01 01 08 00 00 2024 1 1 12 00 00 0 0 0 0 1 0\nC0 0 std 1 5 0\n11 28800.0 0.05123456789 std 0 0 1 0 5 8.0 0.1 0.0 0.0 90.0\n10 100.0 0.08 std\nH8\nH9\n";
const EOP: &str = "# EARTH ORIENTATION PARAMETER\n  2024   1   1  60310   0.137342   0.202870   0.0089340   0.0002540   0.000249  -0.000091   0.000028   0.000029  0.0000063  0.0000174    0.000042    0.000041\n  2024   1   2  60311   0.135 0.2 0.008 0.0002 0.0002 -0.0001\n";
const CSV: &str = "source_id,ra,dec,epoch,pmra,pmdec,parallax,radial_velocity,g_mag,bp_mag,rp_mag,quality\n# comment\n123456789,10.5,-20.25,2016.0,1.5,-2.5,10.0,20.0,12.5,13.0,12.0,ok\n5,10.5,-20.25,2016.0,,,,,,,,\n";
const VGOS: &str = "session_code=R1100\n# c\nstart_epoch=2024-01-01T00:00:00\nstations=KOKEE,WETTZELL\n";
const LSK: &str = "KPL/LSK\ntext here\n\\begindata\nDELTET/DELTA_T_A = 32.184\nDELTET/K = 1.657D-3\nDELTET/EB = 1.671D-2\nDELTET/M = ( 6.239996D0 1.99096871D-7 )\nDELTET/DELTA_AT = ( 10, @1972-JAN-1\n 11, @1972-JUL-1 37, @2017-JAN-1 )\n\\begintext\nmore\n";
const FK: &str = "\\begindata\nFRAME_TEST_TK = 2000\nFRAME_2000_NAME = 'TEST_TK'\nFRAME_2000_CLASS = 4\nFRAME_2000_CLASS_ID = 2000\nFRAME_2000_CENTER = 399\nTKFRAME_2000_SPEC = 'MATRIX'\nTKFRAME_2000_RELATIVE = 'J2000'\nTKFRAME_2000_MATRIX = ( 1 0 0 0 1 0 0 0 1 )\nFRAME_2001_NAME = 'B'\nFRAME_2001_CLASS = 4\nFRAME_2001_CLASS_ID = 2001\nFRAME_2001_CENTER = 399\nTKFRAME_2001_SPEC = 'MATRIX'\nTKFRAME_2001_RELATIVE = 'TEST_TK'\nTKFRAME_2001_MATRIX = ( 0 1 0 1 0 0 0 0 1 )\n";
const PCK: &str = "\\begindata\nBODY399_POLE_RA = ( 0.0 -0.641 0 )\nBODY399_POLE_DEC = ( 90.0 -0.557 0. )\nBODY399_PM = ( 190.147 360.9856235 0. )\nBODY399_RADII += ( 6378.137 6378.137 )\nBODY399_RADII += 6356.752\n";
const IK: &str = "\\begindata\nINS-82000_FOV_SHAPE = 'RECTANGLE'\nINS-82000_FOV_FRAME = 'CASSINI_ISS_NAC'\nINS-82000_BORESIGHT = ( 0 0 1 )\nINS-82000_FOV_REF_ANGLE = 0.35\nINS-82000_FOV_CROSS_ANGLE = 0.35\nINS-82000_FOV_BOUNDARY_CORNERS = ( 1 0 1 -1 0 1 )\n";
const SCLK: &str = "\\begindata\nSCLK01_COEFFICIENTS_-82 = ( 0 0 2 100 50 4 )\nSCLK_PARTITION_START_82 = 0\n";
const OMM_XML: &str = "<?xml version=\"1.0\"?>\n<ndm><omm id=\"CCSDS_OMM_VERS\" version=\"2.0\"><header><COMMENT>a &amp; b</COMMENT><CREATION_DATE>2024-01-01T00:00:00</CREATION_DATE></header><body><segment><metadata><OBJECT_NAME>ISS</OBJECT_NAME><OBJECT_ID>1998-067A</OBJECT_ID><MEAN_ELEMENT_THEORY>SGP4</MEAN_ELEMENT_THEORY></metadata><data><meanElements><EPOCH>2008-09-20T12:25:40.104192</EPOCH><MEAN_MOTION>15.72125391</MEAN_MOTION><ECCENTRICITY>0.0006703</ECCENTRICITY><INCLINATION>51.6416</INCLINATION><RA_OF_ASC_NODE>247.4627</RA_OF_ASC_NODE><ARG_OF_PERICENTER>130.5360</ARG_OF_PERICENTER><MEAN_ANOMALY>325.0288</MEAN_ANOMALY></meanElements><tleParameters><EPHEMERIS_TYPE>0</EPHEMERIS_TYPE><CLASSIFICATION_TYPE>U</CLASSIFICATION_TYPE><NORAD_CAT_ID>25544</NORAD_CAT_ID><ELEMENT_SET_NO>292</ELEMENT_SET_NO><REV_AT_EPOCH>56353</REV_AT_EPOCH><BSTAR>-.11606E-4</BSTAR><MEAN_MOTION_DOT>-.00002182</MEAN_MOTION_DOT><MEAN_MOTION_DDOT>0</MEAN_MOTION_DDOT></tleParameters></data></segment></body></omm></ndm>";
const OEM_XML: &str = "<?xml version=\"1.0\"?>\n<oem version=\"2.0\"><header><CREATION_DATE>2024-01-01T00:00:00</CREATION_DATE><ORIGINATOR>ME</ORIGINATOR></header><body><segment><metadata><OBJECT_NAME>SAT &lt;1&gt;</OBJECT_NAME><OBJECT_ID>2024-001A</OBJECT_ID><CENTER_NAME>EARTH</CENTER_NAME><REF_FRAME>EME2000</REF_FRAME><TIME_SYSTEM>UTC</TIME_SYSTEM><START_TIME>2024-01-01T00:00:00</START_TIME><STOP_TIME>2024-01-01T01:00:00</STOP_TIME></metadata><data><!-- c --><stateVector><EPOCH>2024-01-01T00:00:00</EPOCH><X units=\"km\">7000.0</X><Y>0.5</Y><Z>-1.0</Z><X_DOT>0.0</X_DOT><Y_DOT>7.5</Y_DOT><Z_DOT>0.0</Z_DOT></stateVector></data></segment></body></oem>";
const OMM_JSON: &str = "{\"OBJECT_NAME\":\"ISS\",\"OBJECT_ID\":\"1998-067A\",\"EPOCH\":\"2008-09-20T12:25:40.104192\",\"MEAN_MOTION\":15.72125391,\"ECCENTRICITY\":0.0006703,\"INCLINATION\":51.6416,\"RA_OF_ASC_NODE\":247.4627,\"ARG_OF_PERICENTER\":130.536,\"MEAN_ANOMALY\":325.0288,\"EPHEMERIS_TYPE\":0,\"CLASSIFICATION_TYPE\":\"U\",\"NORAD_CAT_ID\":25544,\"ELEMENT_SET_NO\":292,\"REV_AT_EPOCH\":56353,\"BSTAR\":-0.000011606,\"MEAN_MOTION_DOT\":-0.00002182,\"MEAN_MOTION_DDOT\":0}";
const OMM_KVN: &str = "CCSDS_OMM_VERS = 2.0\nCREATION_DATE = 2024-01-01T00:00:00\nORIGINATOR = me\nOBJECT_NAME = ISS (ZARYA)\nOBJECT_ID = 1998-067A\nCENTER_NAME = EARTH\nREF_FRAME = TEME\nTIME_SYSTEM = UTC\nMEAN_ELEMENT_THEORY = SGP4\nEPOCH = 2008-09-20T12:25:40.104192\nMEAN_MOTION = 15.72125391\nECCENTRICITY = 0.0006703\nINCLINATION = 51.6416\nRA_OF_ASC_NODE = 247.4627\nARG_OF_PERICENTER = 130.5360\nMEAN_ANOMALY = 325.0288\nEPHEMERIS_TYPE = 0\nCLASSIFICATION_TYPE = U\nNORAD_CAT_ID = 25544\nELEMENT_SET_NO = 292\nREV_AT_EPOCH = 56353\nBSTAR = -1.1606e-5\nMEAN_MOTION_DOT = -2.182e-5\nMEAN_MOTION_DDOT = 0\n";

fn text(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
fn omm(o: &omm::Omm) { let _ = (kvn::write(o), xml::write(o), json::write(o)); let t = o.to_tle(); let _ = siderust::astro::sgp4::TlePropagator::from_tle(&t).map(|_| ()); }
const ETS: [f64; 5] = [0.0, -1e9, 5e8, 1e300, f64::NAN];

struct Target { name: &'static str, seeds: fn() -> Vec<Vec<u8>>, run: fn(&[u8]) -> bool, cases: u32 }
fn s(v: &[&str]) -> Vec<Vec<u8>> { v.iter().map(|t| t.as_bytes().to_vec()).collect() }
fn spk_seed(ty: i32, big: bool) -> Vec<u8> {
    use vharness::spk::*;
    let pay = match ty {
        2 | 3 => Pay::Cheb { comps: if ty == 2 { 3 } else { 6 }, init: -1000.0, intlen: 1000.0, n: 4, coefs: (0..3).map(|r| (0..if ty == 2 { 12 } else { 24 }).map(|c| f64::from(r * 10 + c)).collect()).collect() },
        _ => Pay::Disc { ty, epochs: (0..6).map(|i| f64::from(i) * 100.0).collect(), states: (0..6).map(|i| [f64::from(i), 1.0, 2.0, 3.0, 4.0, 5.0]).collect(), size: 3 },
    };
    let seg = |target, center| Seg { target, center, frame: 1, start: -1000.0, end: 2000.0, pay: pay.clone() };
    spk(&Layout { big, comments: 0, per_record: 25, data_first: false, reversed: false }, &[seg(3, 0), seg(399, 3), seg(10, 0)])
}
fn ck_seed(big: bool) -> Vec<u8> {
    let words: Vec<f64> = (0..3).flat_map(|i| [f64::from(i) * 10.0, 1.0, 0.1, 0.2, 0.3]).chain([3.0]).collect();
    vharness::spk::daf(b"DAF/CK  ", 2, 6, &vharness::spk::Layout { big, comments: 0, per_record: 25, data_first: false, reversed: false }, &[(vec![0.0, 20.0], vec![-82_000, 1, 1, 0], words)])
}
fn sck_seed() -> Vec<u8> {
    let mut b = b"SCKERN01".to_vec(); for v in [3u32, 2, 0, 31, 0, 0] { b.extend(v.to_le_bytes()) } for v in [2_451_545.0f64, 2_451_575.0] { b.extend(v.to_le_bytes()) } b.resize(64, 0);
    for i in 0..22 { b.extend(f64::from(i).to_le_bytes()) } b
}
fn ctx(b: &[u8]) -> bool {
    let mut c = SpiceContext::new(); let ok = c.load_bytes("k", b.to_vec()).is_ok();
    for et in ETS { let _ = c.state_naif(399, 0, et); let _ = c.state_naif(10, 3, et); let _ = c.tdb_minus_utc(et); for f in [2000, 2001, 3000] { let _ = c.rotation_naif(1, f, et); } } ok
}
fn targets() -> Vec<Target> {
    macro_rules! t { ($n:expr, $c:expr, $s:expr, |$b:ident| $e:expr) => { Target { name: $n, cases: $c, seeds: || $s, run: |$b| $e } } }
    vec![
        t!("TLE", 6000, s(&[&format!("{TLE1}\n{TLE2}"), &format!("ISS (ZARYA)\n{TLE1}\n{TLE2}")]), |b| { let t = text(b); let l: Vec<&str> = t.lines().collect(); let r = match l[..] { [a, b] => parse_tle(a, b), [n, a, b, ..] => parse_3le(n, a, b), _ => return SatelliteNumber::parse(&t).is_ok() }; if let Ok(v) = &r { let _ = siderust::astro::sgp4::TlePropagator::from_tle(v).map(|_| ()); let _ = omm::Omm::from_tle(v); } r.is_ok() }),
        t!("OMM KVN", 6000, s(&[OMM_KVN]), |b| kvn::read(&text(b)).map(|o| omm(&o)).is_ok()),
        t!("OMM XML", 6000, s(&[OMM_XML]), |b| xml::read(&text(b)).map(|o| omm(&o)).is_ok()),
        t!("OMM JSON", 6000, s(&[OMM_JSON, &format!("[{OMM_JSON},{OMM_JSON}]")]), |b| { let t = text(b); json::read_many(&t).map(|o| o.iter().for_each(omm)).is_ok() | json::read(&t).map(|o| omm(&o)).is_ok() }),
        t!("OEM", 6000, s(&[OEM]), |b| read_oem(b).is_ok()),
        t!("OEM XML", 6000, s(&[OEM_XML]), |b| read_oem_xml(b).is_ok()),
        t!("OPM", 6000, s(&[OPM]), |b| read_opm(b).map(|m| { let mut v = vec![]; let _ = write_opm(&mut v, &m); }).is_ok()),
        t!("TDM", 6000, s(&[TDM]), |b| read_tdm(b).map(|m| { let mut v = vec![]; let _ = write_tdm(&mut v, &m); }).is_ok()),
        t!("SP3", 6000, s(&[SP3]), |b| { let r = read_sp3(b); if let Ok(v) = &r { let mut o = vec![]; let _ = write_sp3(&mut o, v); } if let Ok(mut st) = Sp3Stream::new(b) { while let Ok(Some(_)) = st.next_epoch() {} } r.is_ok() }),
        t!("ANTEX", 5000, s(&[ANTEX]), |b| read_antex(b).map(|c| { let mut v = vec![]; let _ = write_antex(&mut v, &c); }).is_ok()),
        t!("SINEX", 6000, s(&[SINEX]), |b| read_sinex(b, ParseMode::Permissive).is_ok() | read_sinex(b, ParseMode::Strict).is_ok()),
        t!("ORBEX", 5000, s(&[ORBEX]), |b| read_orbex(b, ParseMode::Permissive).is_ok() | read_orbex(b, ParseMode::Strict).is_ok()),
        t!("RINEX navigation", 6000, s(&[NAV]), |b| { let t = text(b); let r = parse_rinex_nav(&t); if let Ok(f) = &r { let mut v = vec![]; let _ = write_rinex_nav(&mut v, f); } let _ = parse_rinex_nav_with_mode(&t, ParseMode::Permissive); r.is_ok() }),
        t!("RINEX observation", 6000, s(&[OBS]), |b| read_rinex_obs(b).map(|f| { let mut v = vec![]; let _ = write_rinex_obs(&mut v, &f); }).is_ok()),
        t!("RINEX-DORIS", 6000, s(&[DORIS]), |b| read_rinex_doris(b).is_ok()),
        t!("CPF", 5000, s(&[CPF]), |b| { let t = text(b); let r = parse_cpf(&t); let p = parse_cpf_with_mode(&t, ParseMode::Permissive); for f in [&r, &p].into_iter().flatten() { let mut v = vec![]; let _ = write_cpf(f, &mut v); } r.is_ok() }),
        t!("CRD", 5000, s(&[CRD]), |b| { let t = text(b); let _ = parse_crd_with_mode(&t, ParseMode::Permissive); parse_crd(&t).is_ok() }),
        t!("EOP C04", 4000, s(&[EOP]), |b| read_eop_c04(b).is_ok()),
        t!("catalogue CSV", 4000, s(&[CSV]), |b| parse_csv_chunk(&text(b)).is_ok()),
        t!("vgosDB side-car", 2000, s(&[VGOS]), |b| read_vgosdb_sidecar(b).is_ok()),
        t!("ADS-B", 4000, s(&["8D40621D58C382D690C8AC2863A7", "8D4840D6232CC371CB3D2048E9A0", "8D4840D69900651920400034CDB3"]), |b| parse_frame(&text(b)).map(|f| { let _ = (decode_identification(&f), decode_airborne_velocity(&f)); if let Ok(p) = decode_airborne_position(&f) { let _ = (decode_altitude(p.encoded_altitude), cpr::decode_globally(p.cpr_lat, p.cpr_lon, p.cpr_lon, p.cpr_lat, p.cpr_odd), cpr::decode_locally(p.cpr_lat, p.cpr_lon, p.cpr_odd, 89.9, -179.9)); } }).is_ok()),
        t!("text kernel", 8000, s(&[LSK, FK, &FK.replace("'J2000'", "'B'"), PCK, IK, SCLK, &format!("{FK}FRAME_3000_NAME='P'\nFRAME_3000_CLASS=2\nFRAME_3000_CLASS_ID=399\nFRAME_3000_CENTER=399\n{PCK}")]), |b| { let t = text(b);
            let mut ok = TextKernel::parse(&t).is_ok();
            if let Ok(k) = lsk::LeapSecondKernel::from_text(&t) { ok = true; for et in ETS { let _ = (k.tai_minus_utc_at(et), k.tdb_minus_utc_at(et)); } }
            let _ = fk::FrameKernel::from_text(&t).map(|k| k.frame_by_id(2000).is_some()); let _ = ik::IkKernel::from_text(&t).map(|k| k.instrument(-82_000).is_some());
            if let Ok(k) = pck::PckKernel::from_text(&t) { for et in ETS { let _ = k.body(399).map(|b| b.rotation_to_j2000(et)); } }
            if let Ok(k) = sclk::SclkKernel::from_text(&t) { for et in ETS { for c in &k { let _ = (c.et_to_sclkdp(et), c.sclkdp_to_et(et)); } } }
            ctx(b) | ok }),
        t!("SPK", 12_000, [2, 3, 9, 13].into_iter().flat_map(|k| [spk_seed(k, false), spk_seed(k, true)]).collect(), |b| { let ok = SpkKernel::from_bytes(b.to_vec()).map(|k| { for et in ETS { let _ = (k.state(399, 3, et), k.state(3, 0, et)); for g in k.segments() { let _ = g.segment.as_ref().map(|s| s.evaluate(et)); } } }).is_ok(); let _ = (parse_bsp(b), parse_indexed_segments(b), daf::Daf::parse(b)); let _ = RuntimeEphemeris::from_bytes(b).map(|_| ()); ctx(b) | ok }),
        t!("CK", 8000, vec![ck_seed(false), ck_seed(true)], |b| { let ok = ck::CkKernel::from_bytes(b.to_vec()).map(|k| { for et in ETS { let _ = k.rotation(-82_000, et); } for g in k.segments() { for q in [0.0, 5.0, 20.0] { let _ = g.evaluate(q); } } }).is_ok(); ctx(b) | ok }),
        t!("SCK", 4000, vec![sck_seed()], |b| parse_sck(b).map(|k| k.record_stride()).is_ok()),
    ]
}

#[derive(Debug, Clone)]
struct Mut { kind: u8, at: u32, len: u32, arg: u64 }
const TOKENS: [&str; 46] = ["-", "+", ".", "e", "E308", "1e400", "-1e309", "nan", "inf", "-0", "0", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "2147483648", "4294967296", "18446744073709551616", "é", "日本", "\u{feff}", "\u{a0}", "\0", "\n", "\r\n", "\t", " ", "(", ")", "'", "\"", "<", ">", "</", "&", "&#x110000;", "&amp", "<!--", "<![CDATA[", "=", "+=", ":", ",", "@", "\\begindata", "{", "["];
const NUMS: [&str; 22] = ["0", "-1", "1", "00", "13", "24", "31", "32", "60", "61", "366", "367", "1900", "2099", "9999", "100000", "2147483647", "-2147483649", "1e30", "1e-320", "99999999999", "0.5"];
const INTS: [u64; 14] = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, u64::MAX, 0x1_0000, 0x100];
const FLTS: [f64; 16] = [0.0, -1.0, 1.0, 2.0, 1e9, 4e9, 1e18, 2e19, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-320, 0.5, -1e-9, 268_435_456.0];
fn apply(b: &mut Vec<u8>, ms: &[Mut], other: &[u8]) {
    for m in ms {
        let n = b.len().max(1); let at = m.at as usize % n; let at = at.min(b.len()); let end = (at + m.len as usize).min(b.len()); let a = m.arg;
        match m.kind {
            0 => if let Some(v) = b.get_mut(at) { *v ^= 1 << (a % 8) },
            1 => if let Some(v) = b.get_mut(at) { *v = a as u8 },
            2 => { b.drain(at..end); }
            3 => { let c = b[at..end].to_vec(); let k = 1 + a as usize % 5; let i = (a >> 8) as usize % (b.len() + 1); b.splice(i..i, c.repeat(k)); }
            4 => b.truncate(at),
            5 | 6 => { let t = TOKENS[a as usize % TOKENS.len()].as_bytes(); b.splice(at..if m.kind == 6 { end } else { at }, t.iter().copied()); }
            7 => { let c = other[m.at as usize % other.len().max(1)..].iter().copied().take(m.len as usize).collect::<Vec<_>>(); b.splice(at..at, c); }
            8 | 9 => { // replace the number at or after `at`
                if let Some(i) = (at..b.len()).find(|i| b[*i].is_ascii_digit()) {
                    let mut i = i; while i > 0 && matches!(b[i - 1], b'0'..=b'9' | b'.' | b'-' | b'+') { i -= 1 }
                    let mut e = i + 1; while e < b.len() && matches!(b[e], b'0'..=b'9' | b'.' | b'-' | b'+' | b'e' | b'E') { e += 1 }
                    let t: String = if m.kind == 8 { NUMS[a as usize % NUMS.len()].into() } else { let w = e - i; let t = TOKENS[a as usize % 18]; format!("{t:>w$.w$}") };
                    b.splice(i..e, t.bytes());
                }
            }
            10 => { let at = at & !3; let v = (INTS[a as usize % INTS.len()] as u32).wrapping_add((a >> 32) as u32 % 3); let v = if a & 256 != 0 { v.to_be_bytes() } else { v.to_le_bytes() }; if at + 4 <= b.len() { b[at..at + 4].copy_from_slice(&v) } }
            11 => { let at = at & !7; let v = FLTS[a as usize % FLTS.len()]; let v = if a & 256 != 0 { v.to_be_bytes() } else { v.to_le_bytes() }; if at + 8 <= b.len() { b[at..at + 8].copy_from_slice(&v) } }
            12 => { let at = at & !7; let v = INTS[a as usize % INTS.len()]; let v = if a & 256 != 0 { v.to_be_bytes() } else { v.to_le_bytes() }; if at + 8 <= b.len() { b[at..at + 8].copy_from_slice(&v) } }
            13 => { let lines: Vec<Vec<u8>> = b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect(); if lines.len() > 1 { let (i, j) = (m.at as usize % lines.len(), a as usize % lines.len()); let mut l = lines; match a >> 60 { 0..=5 => l.swap(i, j), 6..=10 => { l.remove(i); } _ => { let c = l[i].clone(); l.insert(j, c) } } *b = l.concat() } }
            14 => { let t = ["(", "<a>", "[", "{\"a\":", "'", "( (", "-", "9", " ", "1 ", "é", "\n"][a as usize % 12]; let k = 1usize << (5 + (a >> 8) % 11); b.splice(at..at, t.repeat(k).bytes()); }
            15 => { let e = (at + 2).min(b.len()); b.splice(at..e, "é".bytes()); } // same width, so that a character straddles a column
            16 => { let e = (at + 1).min(b.len()); b.splice(at..e, "é".bytes()); }
            17 => { let k = 1usize << (3 + a % 13); let (o, c) = [("(", ")"), ("[", "]"), ("<a>", "</a>"), ("{\"a\":", "}"), ("'", "'"), ("( ", " )")][(a >> 8) as usize % 6]; let i = (at + m.len as usize).min(b.len()); b.splice(i..i, c.repeat(k).bytes()); b.splice(at..at, o.repeat(k).bytes()); }
            _ => { let mut x = a; for v in &mut b[at..end] { x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407); *v = (x >> 56) as u8 } }
        }
        if b.len() > 400_000 { b.truncate(400_000) }
    }
    // keep the TLE checksums right most of the time so that damage reaches the fields
    if b.starts_with(b"1 ") && ms.len() % 2 == 0 { let t: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| { let mut l = l.to_vec(); if l.len() == 69 { let c = l[..68].iter().map(|c| match c { b'0'..=b'9' => u32::from(c - b'0'), b'-' => 1, _ => 0 }).sum::<u32>() % 10; l[68] = b'0' + c as u8 } l }).collect(); *b = t.join(&b'\n') }
    // likewise ADS-B parity
    if b.len() == 28 && ms.len() % 2 == 0 { if let Some(mut v) = (0..14).map(|i| std::str::from_utf8(&b[2 * i..2 * i + 2]).ok().and_then(|t| u8::from_str_radix(t, 16).ok())).collect::<Option<Vec<u8>>>() {
        let mut r: u64 = 0; for i in 0..112 { let bit = if i < 88 { (v[i / 8] >> (7 - i % 8)) & 1 } else { 0 }; r = r << 1 | u64::from(bit); if r >> 24 != 0 { r ^= 0x1FF_F409 } }
        v[11..].copy_from_slice(&(r as u32).to_be_bytes()[1..]); *b = v.iter().map(|x| format!("{x:02X}")).collect::<String>().into_bytes();
    } }
}
#[derive(Clone)]
struct Case { seed: usize, ms: Vec<Mut> }
impl std::fmt::Debug for Case { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "seed {} with {:?}", self.seed, self.ms) } }
fn case() -> impl Strategy<Value = Case> {
    let m = (0u8..19, any::<u32>(), prop_oneof![3 => 1u32..12, 2 => 1u32..100, 1 => 0u32..3000], any::<u64>()).prop_map(|(kind, at, len, arg)| Mut { kind, at, len, arg });
    (any::<usize>(), prop_oneof![1 => Just(0usize), 6 => 1usize..4, 3 => 4usize..12].prop_flat_map(move |n| proptest::collection::vec(m.clone(), n))).prop_map(|(seed, ms)| Case { seed, ms })
}

fn slot_dir() -> Option<std::path::PathBuf> { std::env::var_os("C24_SLOTS").map(Into::into) }
thread_local! { static SLOT: std::cell::OnceCell<Option<std::fs::File>> = const { std::cell::OnceCell::new() }; }
/// Leave the input about to be read where the parent process finds it should this one die.
fn note(name: &str, b: &[u8]) {
    SLOT.with(|s| if let Some(f) = s.get_or_init(|| { let id = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), ""); slot_dir().and_then(|d| std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(d.join(id)).ok()) }) {
        let head = format!("{:<40}{:<20}", name, b.len()); let _ = f.write_all_at(head.as_bytes(), 0); let _ = f.write_all_at(b, 60);
    })
}
fn done() { SLOT.with(|s| if let Some(Some(f)) = s.get() { let _ = f.write_all_at(format!("{:<40}{:<20}", "", 0).as_bytes(), 0); }) }
const STACK: usize = 2 << 20;
const LIMIT: Duration = Duration::from_secs(10);

type Job = (fn(&[u8]) -> bool, Vec<u8>);
type Done = (Result<bool, String>, i64);
thread_local! { static READER: std::cell::OnceCell<(std::sync::mpsc::Sender<Job>, std::sync::mpsc::Receiver<Done>)> = const { std::cell::OnceCell::new() }; }
/// Run a case on a companion thread of the default stack size, as a caller would have.
fn on_reader(run: fn(&[u8]) -> bool, b: Vec<u8>) -> Result<Done, String> {
    READER.with(|r| {
        let (tx, rx) = r.get_or_init(|| {
            let (tx, jobs) = std::sync::mpsc::channel::<Job>(); let (out, rx) = std::sync::mpsc::channel();
            std::thread::Builder::new().stack_size(STACK).spawn(move || for (run, b) in jobs {
                LIVE.with(|v| v.set(0)); PEAK.with(|v| v.set(0)); ON.with(|v| v.set(true));
                let r = std::panic::catch_unwind(|| run(&b)); ON.with(|v| v.set(false));
                let r = r.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() + &AT.with(|a| a.borrow().clone()));
                if out.send((r, PEAK.with(|v| v.get()))).is_err() { break }
            }).expect("reader thread"); (tx, rx)
        });
        tx.send((run, b)).map_err(|e| e.to_string())?; rx.recv().map_err(|e| e.to_string())
    })
}

fn child() {
    let mut c = Check::new("C24", "a case whose bytes differ from every seed document");
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default(); AT.with(|a| *a.borrow_mut() = l) }));
    for t in targets() {
        let seeds = (t.seeds)(); let name: &'static str = t.name; let run = t.run; let n = seeds.len();
        for (i, s) in seeds.iter().enumerate() { if !std::panic::catch_unwind(|| run(s)).unwrap_or(false) { eprintln!("note: seed {i} of {name} is not accepted"); } }
        let all = std::sync::Arc::new(seeds);
        let label: &'static str = Box::leak(format!("{name} reader on damaged input").into_boxed_str());
        c.prop_scaled(label, t.cases * 5, t.cases * 200, case, move |k| {
            let mut b = all[k.seed % n].clone(); apply(&mut b, &k.ms, &all[(k.seed / n) % n]);
            note(name, &b);
            let copy = b.clone(); let start = Instant::now();
            let (r, peak) = on_reader(run, copy)?;
            let took = start.elapsed(); done();
            let show = || { let t = String::from_utf8_lossy(&b); t.chars().take(1500).collect::<String>() };
            match r { Err(e) => Err(format!("panic: {e}\n{}", show())),
                Ok(_) if took > LIMIT => Err(format!("{took:?} for {} bytes\n{}", b.len(), show())),
                Ok(_) if peak > 16_000_000 + 2000 * b.len() as i64 => Err(format!("{peak} bytes allocated for {} bytes of input\n{}", b.len(), show())),
                Ok(ok) => Ok(if k.ms.is_empty() { "-seed" } else if ok { "accepted" } else { "refused" }) }
        });
    }
    c.finish()
}

fn main() {
    if slot_dir().is_some() { return child() }
    let dir = std::env::temp_dir().join(format!("c24-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut p = std::process::Command::new(std::env::current_exe().expect("own path")).args(std::env::args().skip(1)).env("C24_SLOTS", &dir).spawn().expect("child");
    // The cases in progress, and since when: an input that is not finished in time is a hang.
    let mut seen: std::collections::HashMap<std::path::PathBuf, (Vec<u8>, Instant)> = Default::default();
    let code = loop {
        if let Some(st) = p.try_wait().expect("wait") { break st.code() }
        std::thread::sleep(Duration::from_millis(250));
        let mut hung = false;
        for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
            let b = std::fs::read(e.path()).unwrap_or_default(); if b.len() < 60 || b[0] == b' ' { seen.remove(&e.path()); continue }
            match seen.get(&e.path()) { Some((o, t)) if *o == b => hung |= t.elapsed() > Duration::from_secs(60), _ => { seen.insert(e.path(), (b, Instant::now())); } }
        }
        if hung { let _ = p.kill(); let _ = p.wait(); break None }
    };
    let code = code.unwrap_or_else(|| {
        let rdir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().join("replays"); let _ = std::fs::create_dir_all(&rdir); let path = rdir.join("C24-crash.txt");
        let mut out = String::from("The process reading these inputs was killed by a signal (stack overflow or abort), or did not finish within 60 s.\n");
        for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() { let b = std::fs::read(e.path()).unwrap_or_default(); if b.len() < 60 || b[0] == b' ' { continue }
            let n: usize = String::from_utf8_lossy(&b[40..60]).trim().parse().unwrap_or(0); let (a, z) = (60, (60 + n).min(b.len()));
            let name = String::from_utf8_lossy(&b[..40]).trim().to_string(); println!("[C24::{name}] crash or hang on {n} bytes"); out += &format!("\n== {name}, {n} bytes:\n{}\n", b[a..z].escape_ascii()); }
        let _ = std::fs::write(&path, out); println!("VIOLATION property=C24 replay={}", path.display()); 1
    });
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}
