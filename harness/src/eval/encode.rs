//! Encodings. Values are built and taken apart here by shifting, not through
//! the byte conversions under test.

use crate::big::Big;
use crate::out::{val, Out, Push};
use i256::{ULimb, UWide};

/// The 64-bit digits of the two's-complement pattern, little endian.
fn words(args: &[Big], i: usize, bits: usize, sg: bool) -> Vec<u64> {
    let b = match args.get(i).and_then(|a| a.to_le_bytes(bits / 8, sg)) {
        Some(b) => b,
        None => std::panic::panic_any(crate::BadArg(i)),
    };
    b.chunks(8).map(|c| c.iter().rev().fold(0, |x, &y| x << 8 | y as u64)).collect()
}

/// Digits of another base, little endian.
trait Digit: Copy + Push {
    fn regroup(words: &[u64]) -> Vec<Self>;
}
impl Digit for u8 {
    fn regroup(w: &[u64]) -> Vec<u8> {
        w.iter().flat_map(|x| (0..8).map(move |k| (x >> (8 * k)) as u8)).collect()
    }
}
impl Digit for u32 {
    fn regroup(w: &[u64]) -> Vec<u32> {
        w.iter().flat_map(|x| [*x as u32, (x >> 32) as u32]).collect()
    }
}
impl Digit for u64 {
    fn regroup(w: &[u64]) -> Vec<u64> {
        w.to_vec()
    }
}
impl Digit for u128 {
    fn regroup(w: &[u64]) -> Vec<u128> {
        w.chunks(2).map(|c| c[0] as u128 | (c[1] as u128) << 64).collect()
    }
}

fn array<T: Digit, const N: usize>(w: &[u64], big: bool) -> [T; N] {
    let mut v = T::regroup(w);
    if big {
        v.reverse();
    }
    match v.try_into() {
        Ok(a) => a,
        Err(_) => unreachable!(),
    }
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, $sg:literal, $form:ident, $op:ident, $args:ident) => {{
        let make = |i: usize| -> $t {
            let mut v = <$t>::from_u8(0);
            for &w in words($args, i, $bits, $sg).iter().rev() {
                v = v.wrapping_shl(64) | <$t>::from_u64(w);
            }
            v
        };
        let show = |v: $t| -> Out {
            let mut b = Vec::with_capacity($bits / 8);
            for i in 0..$bits / 64 {
                b.extend_from_slice(&v.wrapping_shr(64 * i).as_u64().to_le_bytes());
            }
            Out::V(vec![Big::from_le_bytes(&b, $sg)])
        };
        let a = || make(0);
        let db = || words($args, 1, $bits, $sg);
        Some(match ($form, $op) {
            ("to", "le_bytes") => val(a().to_le_bytes()),
            ("to", "ne_bytes") => val(a().to_ne_bytes()),
            ("to", "be_bytes") => val(a().to_be_bytes()),
            ("to", "le_u32") => val(a().to_le_u32()),
            ("to", "ne_u32") => val(a().to_ne_u32()),
            ("to", "be_u32") => val(a().to_be_u32()),
            ("to", "le_u64") => val(a().to_le_u64()),
            ("to", "ne_u64") => val(a().to_ne_u64()),
            ("to", "be_u64") => val(a().to_be_u64()),
            ("to", "le_limbs") => val(a().to_le_limbs()),
            ("to", "ne_limbs") => val(a().to_ne_limbs()),
            ("to", "be_limbs") => val(a().to_be_limbs()),
            ("to", "le_wide") => val(a().to_le_wide()),
            ("to", "ne_wide") => val(a().to_ne_wide()),
            ("to", "be_wide") => val(a().to_be_wide()),
            ("from", "le_bytes") => show(<$t>::from_le_bytes(array::<u8, { $bits / 8 }>(&db(), false))),
            ("from", "ne_bytes") => show(<$t>::from_ne_bytes(array::<u8, { $bits / 8 }>(&db(), false))),
            ("from", "be_bytes") => show(<$t>::from_be_bytes(array::<u8, { $bits / 8 }>(&db(), true))),
            ("from", "le_u32") => show(<$t>::from_le_u32(array::<u32, { $bits / 32 }>(&db(), false))),
            ("from", "ne_u32") => show(<$t>::from_ne_u32(array::<u32, { $bits / 32 }>(&db(), false))),
            ("from", "be_u32") => show(<$t>::from_be_u32(array::<u32, { $bits / 32 }>(&db(), true))),
            ("from", "le_u64") => show(<$t>::from_le_u64(array::<u64, { $bits / 64 }>(&db(), false))),
            ("from", "ne_u64") => show(<$t>::from_ne_u64(array::<u64, { $bits / 64 }>(&db(), false))),
            ("from", "be_u64") => show(<$t>::from_be_u64(array::<u64, { $bits / 64 }>(&db(), true))),
            ("from", "le_limbs") => show(<$t>::from_le_limbs(array::<ULimb, { $bits / ULimb::BITS as usize }>(&db(), false))),
            ("from", "ne_limbs") => show(<$t>::from_ne_limbs(array::<ULimb, { $bits / ULimb::BITS as usize }>(&db(), false))),
            ("from", "be_limbs") => show(<$t>::from_be_limbs(array::<ULimb, { $bits / ULimb::BITS as usize }>(&db(), true))),
            ("from", "le_wide") => show(<$t>::from_le_wide(array::<UWide, { $bits / UWide::BITS as usize }>(&db(), false))),
            ("from", "ne_wide") => show(<$t>::from_ne_wide(array::<UWide, { $bits / UWide::BITS as usize }>(&db(), false))),
            ("from", "be_wide") => show(<$t>::from_be_wide(array::<UWide, { $bits / UWide::BITS as usize }>(&db(), true))),
            ("round trip", "le_bytes") => show(<$t>::from_le_bytes(a().to_le_bytes())),
            ("round trip", "ne_bytes") => show(<$t>::from_ne_bytes(a().to_ne_bytes())),
            ("round trip", "be_bytes") => show(<$t>::from_be_bytes(a().to_be_bytes())),
            ("round trip", "le_u32") => show(<$t>::from_le_u32(a().to_le_u32())),
            ("round trip", "ne_u32") => show(<$t>::from_ne_u32(a().to_ne_u32())),
            ("round trip", "be_u32") => show(<$t>::from_be_u32(a().to_be_u32())),
            ("round trip", "le_u64") => show(<$t>::from_le_u64(a().to_le_u64())),
            ("round trip", "ne_u64") => show(<$t>::from_ne_u64(a().to_ne_u64())),
            ("round trip", "be_u64") => show(<$t>::from_be_u64(a().to_be_u64())),
            ("round trip", "le_limbs") => show(<$t>::from_le_limbs(a().to_le_limbs())),
            ("round trip", "ne_limbs") => show(<$t>::from_ne_limbs(a().to_ne_limbs())),
            ("round trip", "be_limbs") => show(<$t>::from_be_limbs(a().to_be_limbs())),
            ("round trip", "le_wide") => show(<$t>::from_le_wide(a().to_le_wide())),
            ("round trip", "ne_wide") => show(<$t>::from_ne_wide(a().to_ne_wide())),
            ("round trip", "be_wide") => show(<$t>::from_be_wide(a().to_be_wide())),
            ("inverse", "le_bytes") => val(<$t>::from_le_bytes(array(&db(), false)).to_le_bytes()),
            ("inverse", "ne_bytes") => val(<$t>::from_ne_bytes(array(&db(), false)).to_ne_bytes()),
            ("inverse", "be_bytes") => val(<$t>::from_be_bytes(array(&db(), true)).to_be_bytes()),
            ("inverse", "le_u32") => val(<$t>::from_le_u32(array(&db(), false)).to_le_u32()),
            ("inverse", "ne_u32") => val(<$t>::from_ne_u32(array(&db(), false)).to_ne_u32()),
            ("inverse", "be_u32") => val(<$t>::from_be_u32(array(&db(), true)).to_be_u32()),
            ("inverse", "le_u64") => val(<$t>::from_le_u64(array(&db(), false)).to_le_u64()),
            ("inverse", "ne_u64") => val(<$t>::from_ne_u64(array(&db(), false)).to_ne_u64()),
            ("inverse", "be_u64") => val(<$t>::from_be_u64(array(&db(), true)).to_be_u64()),
            ("inverse", "le_limbs") => val(<$t>::from_le_limbs(array(&db(), false)).to_le_limbs()),
            ("inverse", "ne_limbs") => val(<$t>::from_ne_limbs(array(&db(), false)).to_ne_limbs()),
            ("inverse", "be_limbs") => val(<$t>::from_be_limbs(array(&db(), true)).to_be_limbs()),
            ("inverse", "le_wide") => val(<$t>::from_le_wide(array(&db(), false)).to_le_wide()),
            ("inverse", "ne_wide") => val(<$t>::from_ne_wide(array(&db(), false)).to_ne_wide()),
            ("inverse", "be_wide") => val(<$t>::from_be_wide(array(&db(), true)).to_be_wide()),
            ("to", "le") => show(a().to_le()),
            ("to", "be") => show(a().to_be()),
            ("from", "le") => show(<$t>::from_le(a())),
            ("from", "be") => show(<$t>::from_be(a())),
            _ => return None,
        })
    }};
}
family!(all);
