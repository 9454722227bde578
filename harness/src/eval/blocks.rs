//! Arithmetic on arrays of limbs, for any number of limbs.
//!
//! One line per function: the check removes the line of a function that the
//! crate no longer has, since these functions are not a documented interface.

use crate::big::Big;
use crate::out::{arg, val, Out, Push};
use ::i256::math::add;
use ::i256::math::bigint;
use ::i256::math::div;
use ::i256::math::mul;
use ::i256::math::rotate;
use ::i256::math::shift;
use ::i256::math::sub;

type Limb = ::i256::ULimb;

/// Argument i as an array of limbs, least significant limb first.
fn arr<L: Copy + Default, const K: usize>(args: &[Big], i: usize, signed: bool, limb: fn(&[u8]) -> L) -> [L; K] {
    let size = core::mem::size_of::<L>();
    let bytes = match args.get(i).and_then(|b| b.to_le_bytes(K * size, signed)) {
        Some(b) => b,
        None => std::panic::panic_any(crate::BadArg(i)),
    };
    let mut out = [L::default(); K];
    for (o, b) in out.iter_mut().zip(bytes.chunks(size)) {
        *o = limb(b);
    }
    out
}

/// The numbers arrays stand for.
struct Nat<T>(T);
struct Int<T>(T);
macro_rules! numbers {
    ($($l:ty)*) => {$(
        impl<const K: usize> Push for Nat<[$l; K]> {
            fn push(&self, v: &mut Vec<Big>) {
                let b: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
                v.push(Big::from_le_bytes(&b, false));
            }
        }
        impl<const K: usize> Push for Int<[$l; K]> {
            fn push(&self, v: &mut Vec<Big>) {
                let b: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
                v.push(Big::from_le_bytes(&b, true));
            }
        }
    )*};
}
numbers!(u32 u64 u128);
fn nat<T>(x: T) -> Out where Nat<T>: Push {
    val(Nat(x))
}
fn nat2<T, U: Push>(x: (T, U)) -> Out where Nat<T>: Push {
    val((Nat(x.0), x.1))
}
fn nats<T, U>(x: (T, U)) -> Out where Nat<T>: Push, Nat<U>: Push {
    val((Nat(x.0), Nat(x.1)))
}
fn int<T>(x: T) -> Out where Int<T>: Push {
    val(Int(x))
}
fn int2<T>(x: (T, bool)) -> Out where Int<T>: Push {
    val((Int(x.0), x.1))
}

#[allow(unused_variables)]
fn unsigned32<const K: usize, const N: usize>(op: &str, args: &[Big]) -> Option<Out> {
    let limb = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let a: [u32; K] = arr(args, 0, false, limb);
    let b: [u32; K] = arr(args, 1, false, limb);
    let c: [u32; N] = arr(args, 2, false, limb);
    let ul: u32 = arg(args, 4);
    let uw: u64 = arg(args, 6);
    Some(match op {
        "add_wrapping" => nat(add::wrapping_u32(&a, &b)),
        "add_overflowing" => nat2(add::overflowing_u32(&a, &b)),
        "sub_wrapping" => nat(sub::wrapping_u32(&a, &b)),
        "sub_overflowing" => nat2(sub::overflowing_u32(&a, &b)),
        "add_limb_wrapping" => nat(add::wrapping_limb_u32(&a, ul)),
        "add_limb_overflowing" => nat2(add::overflowing_limb_u32(&a, ul)),
        "sub_limb_wrapping" => nat(sub::wrapping_limb_u32(&a, ul)),
        "sub_limb_overflowing" => nat2(sub::overflowing_limb_u32(&a, ul)),
        "mul_limb_wrapping" => nat(mul::wrapping_limb_u32(&a, ul)),
        "mul_limb_overflowing" => nat2(mul::overflowing_limb_u32(&a, ul)),
        "add_wide_wrapping" => nat(add::wrapping_wide_u32(&a, uw)),
        "add_wide_overflowing" => nat2(add::overflowing_wide_u32(&a, uw)),
        "sub_wide_wrapping" => nat(sub::wrapping_wide_u32(&a, uw)),
        "sub_wide_overflowing" => nat2(sub::overflowing_wide_u32(&a, uw)),
        "mul_wide_wrapping" => nat(mul::wrapping_wide_u32(&a, uw)),
        "mul_wide_overflowing" => nat2(mul::overflowing_wide_u32(&a, uw)),
        "mul_wrapping" => nat(mul::wrapping_u32(&a, &c)),
        "mul_overflowing" => nat2(mul::overflowing_u32(&a, &c)),
        "mul_widening" => nats(mul::widening_u32(&a, &b)),
        "add_short_wrapping" => nat(add::wrapping_mn_u32(&a, &c)),
        "add_short_overflowing" => nat2(add::overflowing_mn_u32(&a, &c)),
        "sub_short_wrapping" => nat(sub::wrapping_mn_u32(&a, &c)),
        "sub_short_overflowing" => nat2(sub::overflowing_mn_u32(&a, &c)),
        "shl" => nat(shift::left_u32(a, arg(args, 8))),
        "shr" => nat(shift::right_u32(a, arg(args, 8))),
        "rotl" => nat(rotate::left_u32(a, arg(args, 9))),
        "rotr" => nat(rotate::right_u32(a, arg(args, 9))),
        "limb_add" => val(bigint::carrying_add_u32(arg(args, 11), arg(args, 12), arg(args, 14))),
        "limb_sub" => val(bigint::borrowing_sub_u32(arg(args, 11), arg(args, 12), arg(args, 14))),
        "limb_mul" => val(bigint::carrying_mul_u32(arg(args, 11), arg(args, 12), ul)),
        "limb_mac" => val(bigint::mac_u32(ul, arg(args, 11), arg(args, 12), uw as u32)),
        _ => return None,
    })
}

#[allow(unused_variables)]
fn signed32<const K: usize>(op: &str, args: &[Big]) -> Option<Out> {
    let limb = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let a: [u32; K] = arr(args, 0, true, limb);
    let b: [u32; K] = arr(args, 1, true, limb);
    let ul: u32 = arg(args, 4);
    let il: i32 = arg(args, 5);
    let uw: u64 = arg(args, 6);
    let iw: i64 = arg(args, 7);
    Some(match op {
        "add_wrapping" => int(add::wrapping_i32(&a, &b)),
        "sub_wrapping" => int(sub::wrapping_i32(&a, &b)),
        "mul_wrapping" => int(mul::wrapping_i32(&a, &b)),
        "add_overflowing" => int2(add::overflowing_i32(&a, &b)),
        "sub_overflowing" => int2(sub::overflowing_i32(&a, &b)),
        "mul_overflowing" => int2(mul::overflowing_i32(&a, &b)),
        "add_ulimb_wrapping" => int(add::wrapping_ulimb_i32(&a, ul)),
        "add_ulimb_overflowing" => int2(add::overflowing_ulimb_i32(&a, ul)),
        "sub_ulimb_wrapping" => int(sub::wrapping_ulimb_i32(&a, ul)),
        "sub_ulimb_overflowing" => int2(sub::overflowing_ulimb_i32(&a, ul)),
        "mul_ulimb_wrapping" => int(mul::wrapping_ulimb_i32(&a, ul)),
        "mul_ulimb_overflowing" => int2(mul::overflowing_ulimb_i32(&a, ul)),
        "add_ilimb_wrapping" => int(add::wrapping_ilimb_i32(&a, il)),
        "add_ilimb_overflowing" => int2(add::overflowing_ilimb_i32(&a, il)),
        "sub_ilimb_wrapping" => int(sub::wrapping_ilimb_i32(&a, il)),
        "sub_ilimb_overflowing" => int2(sub::overflowing_ilimb_i32(&a, il)),
        "mul_ilimb_wrapping" => int(mul::wrapping_ilimb_i32(&a, il)),
        "mul_ilimb_overflowing" => int2(mul::overflowing_ilimb_i32(&a, il)),
        "add_uwide_wrapping" => int(add::wrapping_uwide_i32(&a, uw)),
        "add_uwide_overflowing" => int2(add::overflowing_uwide_i32(&a, uw)),
        "sub_uwide_wrapping" => int(sub::wrapping_uwide_i32(&a, uw)),
        "sub_uwide_overflowing" => int2(sub::overflowing_uwide_i32(&a, uw)),
        "mul_uwide_wrapping" => int(mul::wrapping_uwide_i32(&a, uw)),
        "mul_uwide_overflowing" => int2(mul::overflowing_uwide_i32(&a, uw)),
        "add_iwide_wrapping" => int(add::wrapping_iwide_i32(&a, iw)),
        "add_iwide_overflowing" => int2(add::overflowing_iwide_i32(&a, iw)),
        "sub_iwide_wrapping" => int(sub::wrapping_iwide_i32(&a, iw)),
        "sub_iwide_overflowing" => int2(sub::overflowing_iwide_i32(&a, iw)),
        "mul_iwide_wrapping" => int(mul::wrapping_iwide_i32(&a, iw)),
        "mul_iwide_overflowing" => int2(mul::overflowing_iwide_i32(&a, iw)),
        "shl" => int(shift::left_i32(a, arg(args, 8))),
        "shr" => int(shift::right_i32(a, arg(args, 8))),
        "limb_add" => val(bigint::carrying_add_i32(il, arg(args, 13), arg(args, 14))),
        "limb_sub" => val(bigint::borrowing_sub_i32(il, arg(args, 13), arg(args, 14))),
        _ => return None,
    })
}

#[allow(unused_variables)]
fn unsigned64<const K: usize, const N: usize>(op: &str, args: &[Big]) -> Option<Out> {
    let limb = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    let a: [u64; K] = arr(args, 0, false, limb);
    let b: [u64; K] = arr(args, 1, false, limb);
    let c: [u64; N] = arr(args, 2, false, limb);
    let ul: u64 = arg(args, 4);
    let uw: u128 = arg(args, 6);
    Some(match op {
        "add_wrapping" => nat(add::wrapping_u64(&a, &b)),
        "add_overflowing" => nat2(add::overflowing_u64(&a, &b)),
        "sub_wrapping" => nat(sub::wrapping_u64(&a, &b)),
        "sub_overflowing" => nat2(sub::overflowing_u64(&a, &b)),
        "add_limb_wrapping" => nat(add::wrapping_limb_u64(&a, ul)),
        "add_limb_overflowing" => nat2(add::overflowing_limb_u64(&a, ul)),
        "sub_limb_wrapping" => nat(sub::wrapping_limb_u64(&a, ul)),
        "sub_limb_overflowing" => nat2(sub::overflowing_limb_u64(&a, ul)),
        "mul_limb_wrapping" => nat(mul::wrapping_limb_u64(&a, ul)),
        "mul_limb_overflowing" => nat2(mul::overflowing_limb_u64(&a, ul)),
        "add_wide_wrapping" => nat(add::wrapping_wide_u64(&a, uw)),
        "add_wide_overflowing" => nat2(add::overflowing_wide_u64(&a, uw)),
        "sub_wide_wrapping" => nat(sub::wrapping_wide_u64(&a, uw)),
        "sub_wide_overflowing" => nat2(sub::overflowing_wide_u64(&a, uw)),
        "mul_wide_wrapping" => nat(mul::wrapping_wide_u64(&a, uw)),
        "mul_wide_overflowing" => nat2(mul::overflowing_wide_u64(&a, uw)),
        "mul_wrapping" => nat(mul::wrapping_u64(&a, &c)),
        "mul_overflowing" => nat2(mul::overflowing_u64(&a, &c)),
        "mul_widening" => nats(mul::widening_u64(&a, &b)),
        "add_short_wrapping" => nat(add::wrapping_mn_u64(&a, &c)),
        "add_short_overflowing" => nat2(add::overflowing_mn_u64(&a, &c)),
        "sub_short_wrapping" => nat(sub::wrapping_mn_u64(&a, &c)),
        "sub_short_overflowing" => nat2(sub::overflowing_mn_u64(&a, &c)),
        "shl" => nat(shift::left_u64(a, arg(args, 8))),
        "shr" => nat(shift::right_u64(a, arg(args, 8))),
        "rotl" => nat(rotate::left_u64(a, arg(args, 9))),
        "rotr" => nat(rotate::right_u64(a, arg(args, 9))),
        "limb_add" => val(bigint::carrying_add_u64(arg(args, 11), arg(args, 12), arg(args, 14))),
        "limb_sub" => val(bigint::borrowing_sub_u64(arg(args, 11), arg(args, 12), arg(args, 14))),
        "limb_mul" => val(bigint::carrying_mul_u64(arg(args, 11), arg(args, 12), ul)),
        "limb_mac" => val(bigint::mac_u64(ul, arg(args, 11), arg(args, 12), uw as u64)),
        _ => return None,
    })
}

#[allow(unused_variables)]
fn signed64<const K: usize>(op: &str, args: &[Big]) -> Option<Out> {
    let limb = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
    let a: [u64; K] = arr(args, 0, true, limb);
    let b: [u64; K] = arr(args, 1, true, limb);
    let ul: u64 = arg(args, 4);
    let il: i64 = arg(args, 5);
    let uw: u128 = arg(args, 6);
    let iw: i128 = arg(args, 7);
    Some(match op {
        "add_wrapping" => int(add::wrapping_i64(&a, &b)),
        "sub_wrapping" => int(sub::wrapping_i64(&a, &b)),
        "mul_wrapping" => int(mul::wrapping_i64(&a, &b)),
        "add_overflowing" => int2(add::overflowing_i64(&a, &b)),
        "sub_overflowing" => int2(sub::overflowing_i64(&a, &b)),
        "mul_overflowing" => int2(mul::overflowing_i64(&a, &b)),
        "add_ulimb_wrapping" => int(add::wrapping_ulimb_i64(&a, ul)),
        "add_ulimb_overflowing" => int2(add::overflowing_ulimb_i64(&a, ul)),
        "sub_ulimb_wrapping" => int(sub::wrapping_ulimb_i64(&a, ul)),
        "sub_ulimb_overflowing" => int2(sub::overflowing_ulimb_i64(&a, ul)),
        "mul_ulimb_wrapping" => int(mul::wrapping_ulimb_i64(&a, ul)),
        "mul_ulimb_overflowing" => int2(mul::overflowing_ulimb_i64(&a, ul)),
        "add_ilimb_wrapping" => int(add::wrapping_ilimb_i64(&a, il)),
        "add_ilimb_overflowing" => int2(add::overflowing_ilimb_i64(&a, il)),
        "sub_ilimb_wrapping" => int(sub::wrapping_ilimb_i64(&a, il)),
        "sub_ilimb_overflowing" => int2(sub::overflowing_ilimb_i64(&a, il)),
        "mul_ilimb_wrapping" => int(mul::wrapping_ilimb_i64(&a, il)),
        "mul_ilimb_overflowing" => int2(mul::overflowing_ilimb_i64(&a, il)),
        "add_uwide_wrapping" => int(add::wrapping_uwide_i64(&a, uw)),
        "add_uwide_overflowing" => int2(add::overflowing_uwide_i64(&a, uw)),
        "sub_uwide_wrapping" => int(sub::wrapping_uwide_i64(&a, uw)),
        "sub_uwide_overflowing" => int2(sub::overflowing_uwide_i64(&a, uw)),
        "mul_uwide_wrapping" => int(mul::wrapping_uwide_i64(&a, uw)),
        "mul_uwide_overflowing" => int2(mul::overflowing_uwide_i64(&a, uw)),
        "add_iwide_wrapping" => int(add::wrapping_iwide_i64(&a, iw)),
        "add_iwide_overflowing" => int2(add::overflowing_iwide_i64(&a, iw)),
        "sub_iwide_wrapping" => int(sub::wrapping_iwide_i64(&a, iw)),
        "sub_iwide_overflowing" => int2(sub::overflowing_iwide_i64(&a, iw)),
        "mul_iwide_wrapping" => int(mul::wrapping_iwide_i64(&a, iw)),
        "mul_iwide_overflowing" => int2(mul::overflowing_iwide_i64(&a, iw)),
        "shl" => int(shift::left_i64(a, arg(args, 8))),
        "shr" => int(shift::right_i64(a, arg(args, 8))),
        "limb_add" => val(bigint::carrying_add_i64(il, arg(args, 13), arg(args, 14))),
        "limb_sub" => val(bigint::borrowing_sub_i64(il, arg(args, 13), arg(args, 14))),
        _ => return None,
    })
}

#[allow(unused_variables)]
fn shifts128<const K: usize>(signed: bool, op: &str, args: &[Big]) -> Option<Out> {
    let limb = |b: &[u8]| u128::from_le_bytes(b.try_into().unwrap());
    let a: [u128; K] = arr(args, 0, signed, limb);
    if signed {
        return Some(match op {
            "shl" => int(shift::left_i128(a, arg(args, 8))),
            "shr" => int(shift::right_i128(a, arg(args, 8))),
            _ => return None,
        });
    }
    Some(match op {
        "shl" => nat(shift::left_u128(a, arg(args, 8))),
        "shr" => nat(shift::right_u128(a, arg(args, 8))),
        "rotl" => nat(rotate::left_u128(a, arg(args, 9))),
        "rotr" => nat(rotate::right_u128(a, arg(args, 9))),
        _ => return None,
    })
}

/// Division uses the limbs of the build.
#[allow(unused_variables)]
fn division<const K: usize, const N: usize>(op: &str, args: &[Big]) -> Option<Out> {
    let limb = |b: &[u8]| Limb::from_le_bytes(b.try_into().unwrap());
    let a: [Limb; K] = arr(args, 0, false, limb);
    let c: [Limb; N] = arr(args, 2, false, limb);
    let ul: Limb = arg(args, 4);
    let uw: ::i256::UWide = arg(args, 6);
    Some(match op {
        "cmp" => val(div::cmp(&a, &c)),
        "div" => nats(div::full(&a, &c)),
        "div_limb" => nat2(div::limb(&a, ul)),
        "div_wide" => nat2(div::wide(&a, uw)),
        #[cfg(feature = "limb32")]
        "div_u128" => nat2(div::from_u128(&a, arg(args, 10))),
        _ => return None,
    })
}

pub fn eval(ty: (u32, bool), form: &str, op: &str, args: &[Big]) -> Option<Out> {
    let w = match form {
        "limbs32" => 32,
        "limbs64" => 64,
        "limbs128" => 128,
        _ => return None,
    };
    if w == 128 {
        macro_rules! lengths {
            ($($k:literal)*) => {
                match ty.0 / w {
                    $($k => shifts128::<$k>(ty.1, op, args),)*
                    _ => None,
                }
            };
        }
        return lengths!(2 3 4 5 6 7 8 9);
    }
    let n: u8 = arg(args, 3);
    let r = if ty.1 {
        macro_rules! lengths {
            ($($k:literal)*) => {
                match (w, ty.0 / w) {
                    $((32, $k) => signed32::<$k>(op, args), (64, $k) => signed64::<$k>(op, args),)*
                    _ => None,
                }
            };
        }
        lengths!(2 3 4 5 6 7 8 9 12 16 32)
    } else {
        macro_rules! lengths {
            ($($k:literal: $($n:literal)*;)*) => {
                match (w, ty.0 / w, n) {
                    $($((w, $k, $n) => {
                        if w == Limb::BITS && (op == "cmp" || op.starts_with("div")) {
                            division::<$k, $n>(op, args)
                        } else if w == 32 {
                            unsigned32::<$k, $n>(op, args)
                        } else {
                            unsigned64::<$k, $n>(op, args)
                        }
                    },)*)*
                    _ => None,
                }
            };
        }
        lengths!(2: 1 2; 3: 1 2 3; 4: 1 2 3 4; 5: 1 2 3 4 5; 6: 1 2 3 4 5 6; 7: 1 2 3 4 5 6 7;
            8: 1 2 3 4 5 6 7 8; 9: 1 2 3 4 5 6 7 8 9; 12: 1 2 3 6 11 12; 16: 1 2 4 8 15 16; 32: 1 2 4 16 31 32;)
    };
    r
}
