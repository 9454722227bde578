//! The integers through the generic numeric traits only. Arguments: 0 a value;
//! 1 to 12 one source value for each of u8..u128, i8..i128, bool and char;
//! 13 and 14 two more values; 15 a shift distance; 16 an exponent; 17 an
//! integer of any size, read back from its text.

use crate::big::Big;
use crate::out::{arg, opt, res, val, Out};
use num_traits::{AsPrimitive, FromPrimitive, Num, One, PrimInt, ToPrimitive, Zero};

fn chr(args: &[Big], i: usize) -> char {
    match char::from_u32(arg::<u32>(args, i)) {
        Some(c) => c,
        None => std::panic::panic_any(crate::BadArg(i)),
    }
}

fn as_to<T: AsPrimitive<U>, U: Copy + 'static>(x: T) -> U {
    x.as_()
}

fn set<T>(mut x: T, f: impl Fn(&mut T)) -> T {
    f(&mut x);
    x
}

fn hex(x: &Big) -> String {
    let bytes = match x.to_le_bytes(600, true) {
        Some(b) => b,
        None => std::panic::panic_any(crate::BadArg(17)),
    };
    let all: String = bytes.iter().rev().map(|b| format!("{b:02x}")).collect();
    let t = all.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

fn magnitude(x: &Big) -> Big {
    match Big::parse(x.to_string().trim_start_matches('-')) {
        Some(m) => m,
        None => std::panic::panic_any(crate::BadArg(17)),
    }
}

fn to_u8<T: ToPrimitive>(a: &T) -> Option<u8> {
    a.to_u8()
}

fn from_u8<T: FromPrimitive>(x: u8) -> Option<T> {
    T::from_u8(x)
}

fn to_u16<T: ToPrimitive>(a: &T) -> Option<u16> {
    a.to_u16()
}

fn from_u16<T: FromPrimitive>(x: u16) -> Option<T> {
    T::from_u16(x)
}

fn to_u32<T: ToPrimitive>(a: &T) -> Option<u32> {
    a.to_u32()
}

fn from_u32<T: FromPrimitive>(x: u32) -> Option<T> {
    T::from_u32(x)
}

fn to_u64<T: ToPrimitive>(a: &T) -> Option<u64> {
    a.to_u64()
}

fn from_u64<T: FromPrimitive>(x: u64) -> Option<T> {
    T::from_u64(x)
}

fn to_u128<T: ToPrimitive>(a: &T) -> Option<u128> {
    a.to_u128()
}

fn from_u128<T: FromPrimitive>(x: u128) -> Option<T> {
    T::from_u128(x)
}

fn to_i8<T: ToPrimitive>(a: &T) -> Option<i8> {
    a.to_i8()
}

fn from_i8<T: FromPrimitive>(x: i8) -> Option<T> {
    T::from_i8(x)
}

fn to_i16<T: ToPrimitive>(a: &T) -> Option<i16> {
    a.to_i16()
}

fn from_i16<T: FromPrimitive>(x: i16) -> Option<T> {
    T::from_i16(x)
}

fn to_i32<T: ToPrimitive>(a: &T) -> Option<i32> {
    a.to_i32()
}

fn from_i32<T: FromPrimitive>(x: i32) -> Option<T> {
    T::from_i32(x)
}

fn to_i64<T: ToPrimitive>(a: &T) -> Option<i64> {
    a.to_i64()
}

fn from_i64<T: FromPrimitive>(x: i64) -> Option<T> {
    T::from_i64(x)
}

fn to_i128<T: ToPrimitive>(a: &T) -> Option<i128> {
    a.to_i128()
}

fn from_i128<T: FromPrimitive>(x: i128) -> Option<T> {
    T::from_i128(x)
}

fn to_usize<T: ToPrimitive>(a: &T) -> Option<usize> {
    a.to_usize()
}

fn from_usize<T: FromPrimitive>(x: usize) -> Option<T> {
    T::from_usize(x)
}

fn to_isize<T: ToPrimitive>(a: &T) -> Option<isize> {
    a.to_isize()
}

fn from_isize<T: FromPrimitive>(x: isize) -> Option<T> {
    T::from_isize(x)
}

/// The bytes of argument 0, independently of the code under test.
macro_rules! bytes {
    ($t:ident, $sg:literal, $args:ident, $reversed:literal) => {{
        let mut b = [0u8; core::mem::size_of::<$t>()];
        match $args[0].to_le_bytes(b.len(), $sg) {
            Some(v) => b.copy_from_slice(&v),
            None => std::panic::panic_any(crate::BadArg(0)),
        }
        if $reversed {
            b.reverse();
        }
        b
    }};
}

macro_rules! shared {
    ($t:ident, $u:ident, $s:ident, $sg:literal, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 13);
        let c = || arg::<$t>($args, 14);
        let n = || arg::<u32>($args, 15);
        let e = || arg::<u32>($args, 16);
        match ($form, $op) {
            ("Zero", "zero") => val(<$t as Zero>::zero()),
            ("Zero", "is_zero") => val(Zero::is_zero(&a())),
            ("Zero", "set_zero") => val(set(a(), Zero::set_zero)),
            ("One", "one") => val(<$t as One>::one()),
            ("One", "is_one") => val(One::is_one(&a())),
            ("One", "set_one") => val(set(a(), One::set_one)),
            ("ConstZero", "ZERO") => val(<$t as num_traits::ConstZero>::ZERO),
            ("ConstOne", "ONE") => val(<$t as num_traits::ConstOne>::ONE),
            ("Bounded", "min_value") => val(<$t as num_traits::Bounded>::min_value()),
            ("Bounded", "max_value") => val(<$t as num_traits::Bounded>::max_value()),
            ("SaturatingAdd", "saturating_add") => val(<$t as num_traits::SaturatingAdd>::saturating_add(&a(), &b())),
            ("SaturatingSub", "saturating_sub") => val(<$t as num_traits::SaturatingSub>::saturating_sub(&a(), &b())),
            ("SaturatingMul", "saturating_mul") => val(<$t as num_traits::SaturatingMul>::saturating_mul(&a(), &b())),
            ("WrappingAdd", "wrapping_add") => val(<$t as num_traits::WrappingAdd>::wrapping_add(&a(), &b())),
            ("WrappingSub", "wrapping_sub") => val(<$t as num_traits::WrappingSub>::wrapping_sub(&a(), &b())),
            ("WrappingMul", "wrapping_mul") => val(<$t as num_traits::WrappingMul>::wrapping_mul(&a(), &b())),
            ("CheckedAdd", "checked_add") => opt(<$t as num_traits::CheckedAdd>::checked_add(&a(), &b())),
            ("CheckedSub", "checked_sub") => opt(<$t as num_traits::CheckedSub>::checked_sub(&a(), &b())),
            ("CheckedMul", "checked_mul") => opt(<$t as num_traits::CheckedMul>::checked_mul(&a(), &b())),
            ("CheckedDiv", "checked_div") => opt(<$t as num_traits::CheckedDiv>::checked_div(&a(), &b())),
            ("CheckedRem", "checked_rem") => opt(<$t as num_traits::CheckedRem>::checked_rem(&a(), &b())),
            ("CheckedEuclid", "checked_div_euclid") => opt(<$t as num_traits::CheckedEuclid>::checked_div_euclid(&a(), &b())),
            ("CheckedEuclid", "checked_rem_euclid") => opt(<$t as num_traits::CheckedEuclid>::checked_rem_euclid(&a(), &b())),
            ("CheckedEuclid", "checked_div_rem_euclid") => opt(<$t as num_traits::CheckedEuclid>::checked_div_rem_euclid(&a(), &b())),
            ("Euclid", "div_euclid") => val(<$t as num_traits::Euclid>::div_euclid(&a(), &b())),
            ("Euclid", "rem_euclid") => val(<$t as num_traits::Euclid>::rem_euclid(&a(), &b())),
            ("Euclid", "div_rem_euclid") => val(<$t as num_traits::Euclid>::div_rem_euclid(&a(), &b())),
            ("Saturating", "saturating_add") => val(<$t as num_traits::Saturating>::saturating_add(a(), b())),
            ("Saturating", "saturating_sub") => val(<$t as num_traits::Saturating>::saturating_sub(a(), b())),
            ("WrappingNeg", "wrapping_neg") => val(num_traits::WrappingNeg::wrapping_neg(&a())),
            ("CheckedNeg", "checked_neg") => opt(num_traits::CheckedNeg::checked_neg(&a())),
            ("WrappingShl", "wrapping_shl") => val(num_traits::WrappingShl::wrapping_shl(&a(), n())),
            ("WrappingShr", "wrapping_shr") => val(num_traits::WrappingShr::wrapping_shr(&a(), n())),
            ("CheckedShl", "checked_shl") => opt(num_traits::CheckedShl::checked_shl(&a(), n())),
            ("CheckedShr", "checked_shr") => opt(num_traits::CheckedShr::checked_shr(&a(), n())),
            ("MulAdd", "mul_add") => val(<$t as num_traits::MulAdd>::mul_add(a(), b(), c())),
            ("MulAddAssign", "mul_add_assign") => {
                let (b, c) = (b(), c());
                val(set(a(), |x| num_traits::MulAddAssign::mul_add_assign(x, b, c)))
            }
            ("Pow", "pow") => val(<$t as num_traits::Pow<u32>>::pow(a(), e())),
            ("Pow", "pow ref") => val(<$t as num_traits::Pow<&u32>>::pow(a(), &e())),
            ("PrimInt", "pow") => val(<$t as PrimInt>::pow(a(), e())),
            ("generic", "pow") => val(num_traits::pow(a(), e() as usize)),
            ("generic", "checked_pow") => opt(num_traits::checked_pow(a(), e() as usize)),
            ("PrimInt", "count_ones") => val(<$t as PrimInt>::count_ones(a())),
            ("PrimInt", "count_zeros") => val(<$t as PrimInt>::count_zeros(a())),
            ("PrimInt", "leading_zeros") => val(<$t as PrimInt>::leading_zeros(a())),
            ("PrimInt", "leading_ones") => val(<$t as PrimInt>::leading_ones(a())),
            ("PrimInt", "trailing_zeros") => val(<$t as PrimInt>::trailing_zeros(a())),
            ("PrimInt", "trailing_ones") => val(<$t as PrimInt>::trailing_ones(a())),
            ("PrimInt", "swap_bytes") => val(<$t as PrimInt>::swap_bytes(a())),
            ("PrimInt", "to_be") => val(<$t as PrimInt>::to_be(a())),
            ("PrimInt", "to_le") => val(<$t as PrimInt>::to_le(a())),
            ("PrimInt", "reverse_bits") => val(<$t as PrimInt>::reverse_bits(a())),
            ("PrimInt", "from_be") => val(<$t as PrimInt>::from_be(a())),
            ("PrimInt", "from_le") => val(<$t as PrimInt>::from_le(a())),
            ("PrimInt", "signed_shl") => val(<$t as PrimInt>::signed_shl(a(), n())),
            ("PrimInt", "unsigned_shl") => val(<$t as PrimInt>::unsigned_shl(a(), n())),
            ("PrimInt", "signed_shr") => val(<$t as PrimInt>::signed_shr(a(), n())),
            ("PrimInt", "unsigned_shr") => val(<$t as PrimInt>::unsigned_shr(a(), n())),
            ("PrimInt", "rotate_left") => val(<$t as PrimInt>::rotate_left(a(), n())),
            ("PrimInt", "rotate_right") => val(<$t as PrimInt>::rotate_right(a(), n())),
            ("ToBytes", "to_le_bytes") => val(num_traits::ToBytes::to_le_bytes(&a())),
            ("ToBytes", "to_be_bytes") => val(num_traits::ToBytes::to_be_bytes(&a())),
            ("ToBytes", "to_ne_bytes") => val(num_traits::ToBytes::to_ne_bytes(&a())),
            ("FromBytes", "from_le_bytes") => val(<$t as num_traits::FromBytes>::from_le_bytes(&bytes!($t, $sg, $args, false))),
            ("FromBytes", "from_ne_bytes") => val(<$t as num_traits::FromBytes>::from_ne_bytes(&bytes!($t, $sg, $args, false))),
            ("FromBytes", "from_be_bytes") => val(<$t as num_traits::FromBytes>::from_be_bytes(&bytes!($t, $sg, $args, true))),
            ("ToPrimitive", "u8") => opt(to_u8(&a())),
            ("NumCast to", "u8") => opt(num_traits::cast::<$t, u8>(a())),
            ("FromPrimitive", "u8") => opt(from_u8::<$t>(arg($args, 1))),
            ("NumCast from", "u8") => opt(num_traits::cast::<u8, $t>(arg($args, 1))),
            ("AsPrimitive to", "u8") => val(as_to::<$t, u8>(a())),
            ("AsPrimitive from", "u8") => val(as_to::<u8, $t>(arg($args, 1))),
            ("ToPrimitive", "u16") => opt(to_u16(&a())),
            ("NumCast to", "u16") => opt(num_traits::cast::<$t, u16>(a())),
            ("FromPrimitive", "u16") => opt(from_u16::<$t>(arg($args, 2))),
            ("NumCast from", "u16") => opt(num_traits::cast::<u16, $t>(arg($args, 2))),
            ("AsPrimitive to", "u16") => val(as_to::<$t, u16>(a())),
            ("AsPrimitive from", "u16") => val(as_to::<u16, $t>(arg($args, 2))),
            ("ToPrimitive", "u32") => opt(to_u32(&a())),
            ("NumCast to", "u32") => opt(num_traits::cast::<$t, u32>(a())),
            ("FromPrimitive", "u32") => opt(from_u32::<$t>(arg($args, 3))),
            ("NumCast from", "u32") => opt(num_traits::cast::<u32, $t>(arg($args, 3))),
            ("AsPrimitive to", "u32") => val(as_to::<$t, u32>(a())),
            ("AsPrimitive from", "u32") => val(as_to::<u32, $t>(arg($args, 3))),
            ("ToPrimitive", "u64") => opt(to_u64(&a())),
            ("NumCast to", "u64") => opt(num_traits::cast::<$t, u64>(a())),
            ("FromPrimitive", "u64") => opt(from_u64::<$t>(arg($args, 4))),
            ("NumCast from", "u64") => opt(num_traits::cast::<u64, $t>(arg($args, 4))),
            ("AsPrimitive to", "u64") => val(as_to::<$t, u64>(a())),
            ("AsPrimitive from", "u64") => val(as_to::<u64, $t>(arg($args, 4))),
            ("ToPrimitive", "u128") => opt(to_u128(&a())),
            ("NumCast to", "u128") => opt(num_traits::cast::<$t, u128>(a())),
            ("FromPrimitive", "u128") => opt(from_u128::<$t>(arg($args, 5))),
            ("NumCast from", "u128") => opt(num_traits::cast::<u128, $t>(arg($args, 5))),
            ("AsPrimitive to", "u128") => val(as_to::<$t, u128>(a())),
            ("AsPrimitive from", "u128") => val(as_to::<u128, $t>(arg($args, 5))),
            ("ToPrimitive", "i8") => opt(to_i8(&a())),
            ("NumCast to", "i8") => opt(num_traits::cast::<$t, i8>(a())),
            ("FromPrimitive", "i8") => opt(from_i8::<$t>(arg($args, 6))),
            ("NumCast from", "i8") => opt(num_traits::cast::<i8, $t>(arg($args, 6))),
            ("AsPrimitive to", "i8") => val(as_to::<$t, i8>(a())),
            ("AsPrimitive from", "i8") => val(as_to::<i8, $t>(arg($args, 6))),
            ("ToPrimitive", "i16") => opt(to_i16(&a())),
            ("NumCast to", "i16") => opt(num_traits::cast::<$t, i16>(a())),
            ("FromPrimitive", "i16") => opt(from_i16::<$t>(arg($args, 7))),
            ("NumCast from", "i16") => opt(num_traits::cast::<i16, $t>(arg($args, 7))),
            ("AsPrimitive to", "i16") => val(as_to::<$t, i16>(a())),
            ("AsPrimitive from", "i16") => val(as_to::<i16, $t>(arg($args, 7))),
            ("ToPrimitive", "i32") => opt(to_i32(&a())),
            ("NumCast to", "i32") => opt(num_traits::cast::<$t, i32>(a())),
            ("FromPrimitive", "i32") => opt(from_i32::<$t>(arg($args, 8))),
            ("NumCast from", "i32") => opt(num_traits::cast::<i32, $t>(arg($args, 8))),
            ("AsPrimitive to", "i32") => val(as_to::<$t, i32>(a())),
            ("AsPrimitive from", "i32") => val(as_to::<i32, $t>(arg($args, 8))),
            ("ToPrimitive", "i64") => opt(to_i64(&a())),
            ("NumCast to", "i64") => opt(num_traits::cast::<$t, i64>(a())),
            ("FromPrimitive", "i64") => opt(from_i64::<$t>(arg($args, 9))),
            ("NumCast from", "i64") => opt(num_traits::cast::<i64, $t>(arg($args, 9))),
            ("AsPrimitive to", "i64") => val(as_to::<$t, i64>(a())),
            ("AsPrimitive from", "i64") => val(as_to::<i64, $t>(arg($args, 9))),
            ("ToPrimitive", "i128") => opt(to_i128(&a())),
            ("NumCast to", "i128") => opt(num_traits::cast::<$t, i128>(a())),
            ("FromPrimitive", "i128") => opt(from_i128::<$t>(arg($args, 10))),
            ("NumCast from", "i128") => opt(num_traits::cast::<i128, $t>(arg($args, 10))),
            ("AsPrimitive to", "i128") => val(as_to::<$t, i128>(a())),
            ("AsPrimitive from", "i128") => val(as_to::<i128, $t>(arg($args, 10))),
            ("ToPrimitive", "usize") => opt(to_usize(&a())),
            ("FromPrimitive", "usize") => opt(from_usize::<$t>(arg($args, 4))),
            ("NumCast from", "usize") => opt(num_traits::cast::<usize, $t>(arg($args, 4))),
            ("AsPrimitive to", "usize") => val(as_to::<$t, usize>(a())),
            ("AsPrimitive from", "usize") => val(as_to::<usize, $t>(arg($args, 4))),
            ("ToPrimitive", "isize") => opt(to_isize(&a())),
            ("FromPrimitive", "isize") => opt(from_isize::<$t>(arg($args, 9))),
            ("NumCast from", "isize") => opt(num_traits::cast::<isize, $t>(arg($args, 9))),
            ("AsPrimitive to", "isize") => val(as_to::<$t, isize>(a())),
            ("AsPrimitive from", "isize") => val(as_to::<isize, $t>(arg($args, 9))),
            ("AsPrimitive from", "bool") => val(as_to::<bool, $t>(arg::<bool>($args, 11))),
            ("AsPrimitive from", "char") => val(as_to::<char, $t>(chr($args, 12))),
            ("Num", "from_str_radix 10") => res(<$t as Num>::from_str_radix(&$args[17].to_string(), 10)),
            ("Num", "from_str_radix 16") => res(<$t as Num>::from_str_radix(&hex(&magnitude(&$args[17])), 16)),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {{
        use num_traits::Signed;
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 13);
        Some(match ($form, $op) {
            ("Signed", "abs") => val(<$t as Signed>::abs(&a())),
            ("Signed", "signum") => val(<$t as Signed>::signum(&a())),
            ("Signed", "is_positive") => val(<$t as Signed>::is_positive(&a())),
            ("Signed", "is_negative") => val(<$t as Signed>::is_negative(&a())),
            ("Signed", "abs_sub") => val(<$t as Signed>::abs_sub(&a(), &b())),
            _ => shared!($t, $u, $s, true, $form, $op, $args),
        })
    }};
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {
        Some(shared!($t, $u, $s, false, $form, $op, $args))
    };
}
family!(all);
