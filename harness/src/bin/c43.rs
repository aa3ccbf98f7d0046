//! C43: SHA-256 digests and hexadecimal forms.
use proptest::prelude::*;
use vharness::*;
use vharness::refs::ref_sha256;
use siderust::checksum::{assert_sha256_eq, hex32, sha256, to_hex};

fn main() {
    let mut c = Check::new("C43", "byte strings with length classes around 64-byte block and padding boundaries; non-trivial: non-empty messages / digests with both letters and digits");
    // self-test of the reference against a published vector
    assert_eq!(to_hex(&ref_sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    // Every length 0..=400 exhaustively, with random content.
    c.prop("every_length", 3000, || (0usize..=400, any::<u64>()), |&(n, s)| {
        let msg: Vec<u8> = (0..n).map(|i| (s.rotate_left((i % 61) as u32) as u8) ^ (i as u8).wrapping_mul(31)).collect();
        ensure!(sha256(&msg) == ref_sha256(&msg), "sha256 of {} bytes differs: {} vs {}", n, to_hex(&sha256(&msg)), to_hex(&ref_sha256(&msg)));
        Ok(if n == 0 { "-empty" } else if n % 64 >= 55 { "pad spills" } else { "plain" })
    });
    c.prop("boundary_lengths", 1500, || {
        (prop_oneof![1usize..20, 60usize..70, 250usize..260, 1020usize..1040], prop_oneof![Just(0usize), Just(55), Just(56), Just(63), Just(1), 0usize..64]).prop_flat_map(|(b, r)| proptest::collection::vec(any::<u8>(), b * 64 + r..=b * 64 + r))
    }, |msg| {
        ensure!(sha256(msg) == ref_sha256(msg), "sha256 of {} bytes differs", msg.len());
        Ok("long")
    });
    c.prop("flip_changes_digest", 1000, || (proptest::collection::vec(any::<u8>(), 1..300), any::<prop::sample::Index>(), 0u8..8), |(msg, ix, bit)| {
        let mut m2 = msg.clone();
        let i = ix.index(msg.len());
        m2[i] ^= 1 << bit;
        ensure!(sha256(msg) != sha256(&m2), "flipping byte {} does not change the digest", i);
        let hex = to_hex(&sha256(msg));
        ensure!(no_panic(|| assert_sha256_eq("x", msg, &hex)).is_ok(), "assertion rejects the right digest");
        ensure!(no_panic(|| assert_sha256_eq("x", &m2, &hex)).is_err(), "assertion accepts damaged data");
        // a digest that differs in exactly one nibble anywhere is rejected
        let mut h: Vec<u8> = hex.into_bytes();
        let j = i * 8 % 64 + *bit as usize;
        h[j] = if h[j] == b'0' { b'1' } else { b'0' };
        ensure!(no_panic(|| assert_sha256_eq("x", msg, std::str::from_utf8(&h).unwrap())).is_err(), "assertion accepts a wrong digest (nibble {})", j);
        Ok("flipped")
    });
    c.prop("hex_round_trip", 3000, || (any::<[u8; 32]>(), any::<u64>()), |(d, case)| {
        let h = to_hex(d);
        let expect: String = d.iter().map(|b| format!("{:02x}", b)).collect();
        ensure!(h == expect, "to_hex gives {} for {}", h, expect);
        let mixed: String = h.chars().enumerate().map(|(i, c)| if case >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        ensure!(&hex32(&mixed) == d, "hex32({}) is not the digest", mixed);
        Ok("hex")
    });
    c.prop("hex_rejects", 2000, || (any::<[u8; 32]>(), 0usize..64, prop_oneof![Just('g'), Just('G'), Just('`'), Just('@'), Just('/'), Just(':'), Just(' '), Just('\u{0}')], 0u8..3), |(d, i, bad, how)| {
        let mut h: Vec<char> = to_hex(d).chars().collect();
        match how { 0 => h[*i] = *bad, 1 => { h.truncate(*i); } _ => h.insert(*i, 'a') }
        let s: String = h.into_iter().collect();
        ensure!(no_panic(|| hex32(&s)).is_err(), "hex32 accepts {:?}", s);
        Ok("rejected")
    });
    c.finish()
}
