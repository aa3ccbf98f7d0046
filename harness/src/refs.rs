//! Reference models written from the published standards (SOFA/IERS conventions; passive
//! rotations R1/R2/R3). Nothing here calls siderust.
#![allow(clippy::all)]

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];
pub const PI: f64 = std::f64::consts::PI;
pub const TAU: f64 = std::f64::consts::TAU;
pub const AS2R: f64 = PI / 648_000.0;
pub const D2R: f64 = PI / 180.0;

pub fn dot(a: V3, b: V3) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn scale(a: V3, k: f64) -> V3 { [a[0] * k, a[1] * k, a[2] * k] }
pub fn norm(a: V3) -> f64 { (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() }
pub fn unit(a: V3) -> V3 { scale(a, 1.0 / norm(a)) }
pub fn dist(a: V3, b: V3) -> f64 { norm(sub(a, b)) }
/// Angle between two vectors, accurate at all separations.
pub fn angle(a: V3, b: V3) -> f64 { norm(cross(a, b)).atan2(dot(a, b)) }
pub fn sph(lon: f64, lat: f64) -> V3 { [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()] }
pub fn wrap_pi(a: f64) -> f64 { let x = (a + PI).rem_euclid(TAU) - PI; x }
pub fn wrap_tau(a: f64) -> f64 { a.rem_euclid(TAU) }
/// Distance of two angles on the circle (radians).
pub fn adiff(a: f64, b: f64) -> f64 { wrap_pi(a - b).abs() }
/// Distance of two angles on the circle (degrees).
pub fn adiff_deg(a: f64, b: f64) -> f64 { ((a - b + 180.0).rem_euclid(360.0) - 180.0).abs() }

pub const ID3: M3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..3 { o[i][j] += a[i][k] * b[k][j]; } } }
    o
}
pub fn mt(a: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { o[i][j] = a[j][i]; } }
    o
}
pub fn mv(a: &M3, v: V3) -> V3 { [dot(a[0], v), dot(a[1], v), dot(a[2], v)] }
pub fn mdet(a: &M3) -> f64 { dot(a[0], cross(a[1], a[2])) }
/// Largest element-wise difference (NaN-safe: NaN gives infinity).
pub fn mdiff(a: &M3, b: &M3) -> f64 {
    let mut m = 0.0f64;
    for i in 0..3 { for j in 0..3 {
        let d = (a[i][j] - b[i][j]).abs();
        if d.is_nan() { return f64::INFINITY; }
        m = m.max(d);
    } }
    m
}
/// Passive (frame) rotations, as SOFA's Rx, Ry, Rz.
pub fn r1(t: f64) -> M3 { let (s, c) = t.sin_cos(); [[1., 0., 0.], [0., c, s], [0., -s, c]] }
pub fn r2(t: f64) -> M3 { let (s, c) = t.sin_cos(); [[c, 0., -s], [0., 1., 0.], [s, 0., c]] }
pub fn r3(t: f64) -> M3 { let (s, c) = t.sin_cos(); [[c, s, 0.], [-s, c, 0.], [0., 0., 1.]] }

pub const J2000: f64 = 2_451_545.0;
pub fn centuries(jd: f64) -> f64 { (jd - J2000) / 36525.0 }
fn poly(t: f64, c: &[f64]) -> f64 { c.iter().rev().fold(0.0, |a, &k| a * t + k) }

/// Mean obliquity, IAU 2006 (obl06).
pub fn obl06(jd: f64) -> f64 {
    poly(centuries(jd), &[84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434]) * AS2R
}
/// Fukushima-Williams precession angles with frame bias (pfw06): gamb, phib, psib, epsa.
pub fn pfw06(jd: f64) -> (f64, f64, f64, f64) {
    let t = centuries(jd);
    (
        poly(t, &[-0.052928, 10.556378, 0.4932044, -0.00031238, -0.000002788, 0.0000000260]) * AS2R,
        poly(t, &[84381.412819, -46.811016, 0.0511268, 0.00053289, -0.000000440, -0.0000000176]) * AS2R,
        poly(t, &[-0.041775, 5038.481484, 1.5584175, -0.00018522, -0.000026452, -0.0000000148]) * AS2R,
        obl06(jd),
    )
}
pub fn fw2m(g: f64, ph: f64, ps: f64, e: f64) -> M3 {
    mm(&r1(-e), &mm(&r3(-ps), &mm(&r1(ph), &r3(g))))
}
pub fn pmat06(jd: f64) -> M3 { let (g, p, s, e) = pfw06(jd); fw2m(g, p, s, e) }
pub fn npb(jd: f64, dpsi: f64, deps: f64) -> M3 {
    let (g, p, s, e) = pfw06(jd);
    fw2m(g, p, s + dpsi, e + deps)
}
pub fn num(eps: f64, dpsi: f64, deps: f64) -> M3 { mm(&r1(-(eps + deps)), &mm(&r3(-dpsi), &r1(eps))) }

/// Delaunay arguments (IERS 2003) in radians.
pub fn delaunay(t: f64) -> [f64; 5] {
    let a = |c: &[f64]| (poly(t, c) % 1_296_000.0) * AS2R;
    [
        a(&[485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470]),
        a(&[1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149]),
        a(&[335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417]),
        a(&[1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169]),
        a(&[450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939]),
    ]
}
/// Nutation series, IAU 2000B (77 terms) with the published IERS-2003 fundamental arguments.
pub fn nut00b(jd: f64) -> (f64, f64) {
    let t = centuries(jd);
    let fa = delaunay(t);
    let (mut dp, mut de) = (-1350.0, 3880.0);
    for r in siderust_archive::nutation::tables::NUT00B_LS.iter() {
        let arg: f64 = (0..5).map(|i| r[i] * fa[i]).sum();
        dp += (r[5] + r[6] * t) * arg.sin() + r[7] * arg.cos();
        de += (r[8] + r[9] * t) * arg.cos() + r[10] * arg.sin();
    }
    (dp * 1e-7 * AS2R, de * 1e-7 * AS2R)
}
/// Nutation, IAU 2000A (MHB2000), SOFA nut00a.
pub fn nut00a(jd: f64) -> (f64, f64) {
    let t = centuries(jd);
    let mut fa = delaunay(t);
    // MHB2000 l' and D differ in the last digit.
    fa[1] = (poly(t, &[1287104.79305, 129596581.0481, -0.5532, 0.000136, -0.00001149]) % 1_296_000.0) * AS2R;
    fa[3] = (poly(t, &[1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169]) % 1_296_000.0) * AS2R;
    let (mut dp, mut de) = (0.0, 0.0);
    for r in siderust_archive::nutation::tables::NUT00A_LS.iter() {
        let arg: f64 = (0..5).map(|i| r[i] * fa[i]).sum();
        dp += (r[5] + r[6] * t) * arg.sin() + r[7] * arg.cos();
        de += (r[8] + r[9] * t) * arg.cos() + r[10] * arg.sin();
    }
    let pl: [f64; 13] = [
        2.35555598 + 8328.6914269554 * t,
        1.627905234 + 8433.466158131 * t,
        5.198466741 + 7771.3771468121 * t,
        2.18243920 - 33.757045 * t,
        4.402608842 + 2608.7903141574 * t,
        3.176146697 + 1021.3285546211 * t,
        1.753470314 + 628.3075849991 * t,
        6.203480913 + 334.0612426700 * t,
        0.599546497 + 52.9690962641 * t,
        0.874016757 + 21.3299104960 * t,
        5.481293872 + 7.4781598567 * t,
        5.321159000 + 3.8127774000 * t,
        (0.024381750 + 0.00000538691 * t) * t,
    ];
    for r in siderust_archive::nutation::tables::NUT00A_PL.iter() {
        let arg: f64 = (0..13).map(|i| r[i] as f64 * pl[i]).sum();
        dp += r[13] as f64 * arg.sin() + r[14] as f64 * arg.cos();
        de += r[15] as f64 * arg.sin() + r[16] as f64 * arg.cos();
    }
    (dp * 1e-7 * AS2R, de * 1e-7 * AS2R)
}
/// Nutation, IAU 2006 compatible IAU 2000A_R06, SOFA nut06a.
pub fn nut06a(jd: f64) -> (f64, f64) {
    let fj2 = -2.7774e-6 * centuries(jd);
    let (dp, de) = nut00a(jd);
    (dp + dp * (0.4697e-6 + fj2), de + de * fj2)
}
pub fn era00(jd_ut1: f64) -> f64 {
    let d = jd_ut1 - J2000;
    wrap_tau(TAU * ((jd_ut1 % 1.0) + 0.7790572732640 + 0.00273781191135448 * d))
}
pub fn gmst06(ut1: f64, tt: f64) -> f64 {
    wrap_tau(era00(ut1) + poly(centuries(tt), &[0.014506, 4612.156534, 1.3915817, -0.00000044, -0.000029956, -0.0000000368]) * AS2R)
}
/// Complementary terms of the equation of the equinoxes (IAU 2000), SOFA eect00; radians.
pub fn eect00(tt: f64) -> f64 {
    let t = centuries(tt);
    let d = delaunay(t);
    let fa = [d[0], d[1], d[2], d[3], d[4],
        3.176146697 + 1021.3285546211 * t, 1.753470314 + 628.3075849991 * t,
        (0.024381750 + 0.00000538691 * t) * t];
    // argument multipliers, sine and cosine coefficients in microarcseconds
    const E0: [([i8; 8], f64, f64); 33] = [
        ([0, 0, 0, 0, 1, 0, 0, 0], 2640.96, -0.39), ([0, 0, 0, 0, 2, 0, 0, 0], 63.52, -0.02),
        ([0, 0, 2, -2, 3, 0, 0, 0], 11.75, 0.01), ([0, 0, 2, -2, 1, 0, 0, 0], 11.21, 0.01),
        ([0, 0, 2, -2, 2, 0, 0, 0], -4.55, 0.0), ([0, 0, 2, 0, 3, 0, 0, 0], 2.02, 0.0),
        ([0, 0, 2, 0, 1, 0, 0, 0], 1.98, 0.0), ([0, 0, 0, 0, 3, 0, 0, 0], -1.72, 0.0),
        ([0, 1, 0, 0, 1, 0, 0, 0], -1.41, -0.01), ([0, 1, 0, 0, -1, 0, 0, 0], -1.26, -0.01),
        ([1, 0, 0, 0, -1, 0, 0, 0], -0.63, 0.0), ([1, 0, 0, 0, 1, 0, 0, 0], -0.63, 0.0),
        ([0, 1, 2, -2, 3, 0, 0, 0], 0.46, 0.0), ([0, 1, 2, -2, 1, 0, 0, 0], 0.45, 0.0),
        ([0, 0, 4, -4, 4, 0, 0, 0], 0.36, 0.0), ([0, 0, 1, -1, 1, -8, 12, 0], -0.24, -0.12),
        ([0, 0, 2, 0, 0, 0, 0, 0], 0.32, 0.0), ([0, 0, 2, 0, 2, 0, 0, 0], 0.28, 0.0),
        ([1, 0, 2, 0, 3, 0, 0, 0], 0.27, 0.0), ([1, 0, 2, 0, 1, 0, 0, 0], 0.26, 0.0),
        ([0, 0, 2, -2, 0, 0, 0, 0], -0.21, 0.0), ([0, 1, -2, 2, -3, 0, 0, 0], 0.19, 0.0),
        ([0, 1, -2, 2, -1, 0, 0, 0], 0.18, 0.0), ([0, 0, 0, 0, 0, 8, -13, -1], -0.10, 0.05),
        ([0, 0, 0, 2, 0, 0, 0, 0], 0.15, 0.0), ([2, 0, -2, 0, -1, 0, 0, 0], -0.14, 0.0),
        ([1, 0, 0, -2, 1, 0, 0, 0], 0.14, 0.0), ([0, 1, 2, -2, 2, 0, 0, 0], -0.14, 0.0),
        ([1, 0, 0, -2, -1, 0, 0, 0], 0.14, 0.0), ([0, 0, 4, -2, 4, 0, 0, 0], 0.13, 0.0),
        ([0, 0, 2, -2, 4, 0, 0, 0], -0.11, 0.0), ([1, 0, -2, 0, -3, 0, 0, 0], 0.11, 0.0),
        ([1, 0, -2, 0, -1, 0, 0, 0], 0.11, 0.0),
    ];
    let mut s = 0.0;
    for (n, a, b) in E0.iter() {
        let arg: f64 = (0..8).map(|i| n[i] as f64 * fa[i]).sum();
        s += a * arg.sin() + b * arg.cos();
    }
    s += -0.87 * t * fa[4].sin();
    s * 1e-6 * AS2R
}
/// The documented simplified CIO locator: -XY/2 plus the secular polynomial (radians).
pub fn s_simple(jd: f64, x: f64, y: f64) -> f64 {
    -0.5 * x * y + poly(centuries(jd), &[94.0, 3808.65, -122.68, -72574.11]) * 1e-6 * AS2R
}
/// Celestial-to-intermediate matrix from X, Y, s (SOFA c2ixys).
pub fn c2ixys(x: f64, y: f64, s: f64) -> M3 {
    let r2_ = x * x + y * y;
    let e = if r2_ > 0.0 { y.atan2(x) } else { 0.0 };
    let d = (r2_ / (1.0 - r2_)).sqrt().atan();
    mm(&r3(-(e + s)), &mm(&r2(d), &r3(e)))
}
/// Polar motion matrix (SOFA pom00).
pub fn pom00(xp: f64, yp: f64, sp: f64) -> M3 { mm(&r1(-yp), &mm(&r2(-xp), &r3(sp))) }
pub fn sp00(jd: f64) -> f64 { -47e-6 * centuries(jd) * AS2R }
/// ICRS to Galactic (SOFA icrs2g).
pub const ICRS2GAL: M3 = [
    [-0.054875560416215368492398900454, -0.873437090234885048760383168409, -0.483835015548713226831774175116],
    [0.494109427875583673525222371358, -0.444829629960011178146614061616, 0.746982244497218890527388004556],
    [-0.867666149019004701181616534570, -0.198076373431201528180486091412, 0.455983776175066922272100478348],
];

// ---- WGS84 --------------------------------------------------------------------------------
pub const WGS84_A: f64 = 6_378_137.0;
pub const WGS84_F: f64 = 1.0 / 298.257223563;
/// Geodetic (rad, rad, m) to Earth-fixed metres.
pub fn wgs84_ecef(lon: f64, lat: f64, h: f64) -> V3 {
    let e2 = WGS84_F * (2.0 - WGS84_F);
    let n = WGS84_A / (1.0 - e2 * lat.sin().powi(2)).sqrt();
    [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2) + h) * lat.sin()]
}
/// East, north, up unit vectors at geodetic lon/lat, in Earth-fixed axes.
pub fn enu(lon: f64, lat: f64) -> (V3, V3, V3) {
    let e = [-lon.sin(), lon.cos(), 0.0];
    let u = sph(lon, lat);
    (e, cross(u, e), u)
}

/// FIPS 180-4, written independently of the crate.
pub fn ref_sha256(msg: &[u8]) -> [u8; 32] {
    let mut primes = vec![];
    let mut n = 2u64;
    while primes.len() < 64 {
        if primes.iter().all(|p| n % p != 0) {
            primes.push(n);
        }
        n += 1;
    }
    // floor(2^32 * frac(p^(1/r))) by exact integer root of p * 2^(32 r).
    let root = |p: u64, r: u32| -> u32 {
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        let le = |x: u128| -> bool {
            // x^r <= p << (32 r)
            if r == 2 { x * x <= (p as u128) << 64 }
            else {
                // x^3 <= p * 2^96 ; compare using 256-bit via splitting: x < 2^36 so x^3 < 2^108
                x.checked_mul(x).and_then(|y| y.checked_mul(x)).map_or(false, |y| y <= (p as u128) << 96)
            }
        };
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if le(m) { lo = m } else { hi = m }
        }
        lo as u32
    };
    let k: Vec<u32> = primes.iter().map(|&p| root(p, 3)).collect();
    let mut h: Vec<u32> = primes.iter().take(8).map(|&p| root(p, 2)).collect();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
