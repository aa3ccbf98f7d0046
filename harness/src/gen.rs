//! Shared generators.
use proptest::prelude::*;

/// TT Julian dates 1600-2400 weighted to the modern era, J2000 and day boundaries.
pub fn jd_wide() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => 2_305_447.5f64..2_597_641.5,
        4 => 2_433_282.5f64..2_488_069.5,
        1 => (2_433_282i64..2_488_069).prop_map(|d| d as f64 + 0.5),
        1 => (2_433_282i64..2_488_069).prop_map(|d| d as f64),
        1 => Just(2_451_545.0),
    ]
    .boxed()
}
/// TT Julian dates 1950-2100.
pub fn jd_modern() -> BoxedStrategy<f64> {
    prop_oneof![6 => 2_433_282.5f64..2_488_069.5, 1 => (2_433_282i64..2_488_069).prop_map(|d| d as f64 + 0.5), 1 => Just(2_451_545.0)].boxed()
}
/// Unit vectors: uniform plus poles and axes.
pub fn unit_vec() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        8 => (-1.0f64..1.0, 0.0f64..std::f64::consts::TAU).prop_map(|(z, l)| { let r = (1.0 - z * z).sqrt(); [r * l.cos(), r * l.sin(), z] }),
        1 => (0usize..6).prop_map(|i| { let mut v = [0.0; 3]; v[i % 3] = if i < 3 { 1.0 } else { -1.0 }; v }),
        1 => (-9.0f64..-3.0, 0.0f64..std::f64::consts::TAU, any::<bool>()).prop_map(|(e, l, n)| { let r = 10f64.powf(e); let z = (1.0 - r * r).sqrt(); [r * l.cos(), r * l.sin(), if n { z } else { -z }] }),
    ]
    .boxed()
}
/// Log-uniform magnitude in [10^a, 10^b].
pub fn logu(a: f64, b: f64) -> BoxedStrategy<f64> {
    (a..b).prop_map(|x| 10f64.powf(x)).boxed()
}
/// Any angle in degrees, several turns, with the cardinal ones weighted.
pub fn any_deg() -> BoxedStrategy<f64> {
    prop_oneof![6 => -1080.0f64..1080.0, 2 => (-24i32..24).prop_map(|k| k as f64 * 45.0), 1 => (-6i32..6, -9.0f64..-4.0, any::<bool>()).prop_map(|(k, e, s)| k as f64 * 180.0 + if s { 1.0 } else { -1.0 } * 10f64.powf(e))].boxed()
}
/// Geodetic latitude in degrees: uniform, the poles, the equator and the polar circles.
pub fn lat_deg() -> BoxedStrategy<f64> {
    prop_oneof![8 => -90.0f64..90.0, 1 => prop_oneof![Just(90.0), Just(-90.0), Just(0.0), Just(66.56), Just(-66.56)], 1 => 60.0f64..90.0, 1 => -90.0f64..-60.0].boxed()
}
pub fn lon_deg() -> BoxedStrategy<f64> {
    prop_oneof![8 => -180.0f64..180.0, 1 => prop_oneof![Just(0.0), Just(180.0), Just(-180.0), Just(90.0)]].boxed()
}
