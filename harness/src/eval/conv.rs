//! Conversions and constants. Argument 0 is the value; arguments 1 to 12 are
//! one source value for each of u8..u128, i8..i128, bool and char.

use crate::big::Big;
use crate::out::{arg, val, Out, Push};

fn res<T: Push, E>(x: Result<T, E>) -> Out {
    match x {
        Ok(x) => val(x),
        Err(_) => Out::Err("TryFromInt".into()),
    }
}

fn chr(args: &[Big], i: usize) -> char {
    match char::from_u32(arg::<u32>(args, i)) {
        Some(c) => c,
        None => std::panic::panic_any(crate::BadArg(i)),
    }
}

macro_rules! shared {
    ($t:ident, $u:ident, $s:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        match ($form, $op) {
            ("as", "u8") => val(a().as_u8()),
            ("as", "u16") => val(a().as_u16()),
            ("as", "u32") => val(a().as_u32()),
            ("as", "u64") => val(a().as_u64()),
            ("as", "u128") => val(a().as_u128()),
            ("as", "i8") => val(a().as_i8()),
            ("as", "i16") => val(a().as_i16()),
            ("as", "i32") => val(a().as_i32()),
            ("as", "i64") => val(a().as_i64()),
            ("as", "i128") => val(a().as_i128()),
            ("as", "ulimb") => val(a().as_ulimb()),
            ("as", "uwide") => val(a().as_uwide()),
            ("as", "ilimb") => val(a().as_ilimb()),
            ("as", "iwide") => val(a().as_iwide()),
            ("as", "unsigned") => val(a().as_unsigned()),
            ("as", "signed") => val(a().as_signed()),
            ("From", "same") => val(<$t as From<$t>>::from(a())),
            ("from", "u8") => val(<$t>::from_u8(arg($args, 1))),
            ("from", "u16") => val(<$t>::from_u16(arg($args, 2))),
            ("from", "u32") => val(<$t>::from_u32(arg($args, 3))),
            ("from", "u64") => val(<$t>::from_u64(arg($args, 4))),
            ("from", "u128") => val(<$t>::from_u128(arg($args, 5))),
            ("from", "i8") => val(<$t>::from_i8(arg($args, 6))),
            ("from", "i16") => val(<$t>::from_i16(arg($args, 7))),
            ("from", "i32") => val(<$t>::from_i32(arg($args, 8))),
            ("from", "i64") => val(<$t>::from_i64(arg($args, 9))),
            ("from", "i128") => val(<$t>::from_i128(arg($args, 10))),
            ("from", "ulimb") => val(<$t>::from_ulimb(arg($args, if crate::LIMB32 { 3 } else { 4 }))),
            ("from", "uwide") => val(<$t>::from_uwide(arg($args, if crate::LIMB32 { 4 } else { 5 }))),
            ("from", "ilimb") => val(<$t>::from_ilimb(arg($args, if crate::LIMB32 { 8 } else { 9 }))),
            ("from", "iwide") => val(<$t>::from_iwide(arg($args, if crate::LIMB32 { 9 } else { 10 }))),
            ("From", "u8") => val(<$t as From<u8>>::from(arg($args, 1))),
            ("From", "u16") => val(<$t as From<u16>>::from(arg($args, 2))),
            ("From", "u32") => val(<$t as From<u32>>::from(arg($args, 3))),
            ("From", "u64") => val(<$t as From<u64>>::from(arg($args, 4))),
            ("From", "u128") => val(<$t as From<u128>>::from(arg($args, 5))),
            ("From", "bool") => val(<$t as From<bool>>::from(arg($args, 11))),
            ("From", "char") => val(<$t as From<char>>::from(chr($args, 12))),
            ("Into", "u8") => val(Into::<$t>::into(arg::<u8>($args, 1))),
            ("Into", "u16") => val(Into::<$t>::into(arg::<u16>($args, 2))),
            ("Into", "u32") => val(Into::<$t>::into(arg::<u32>($args, 3))),
            ("Into", "u64") => val(Into::<$t>::into(arg::<u64>($args, 4))),
            ("Into", "u128") => val(Into::<$t>::into(arg::<u128>($args, 5))),
            ("Into", "bool") => val(Into::<$t>::into(arg::<bool>($args, 11))),
            ("Into", "char") => val(Into::<$t>::into(chr($args, 12))),
            ("TryFrom", "u8") => res(<$t as TryFrom<u8>>::try_from(arg($args, 1))),
            ("TryFrom", "u16") => res(<$t as TryFrom<u16>>::try_from(arg($args, 2))),
            ("TryFrom", "u32") => res(<$t as TryFrom<u32>>::try_from(arg($args, 3))),
            ("TryFrom", "u64") => res(<$t as TryFrom<u64>>::try_from(arg($args, 4))),
            ("TryFrom", "u128") => res(<$t as TryFrom<u128>>::try_from(arg($args, 5))),
            ("TryFrom", "i8") => res(<$t as TryFrom<i8>>::try_from(arg($args, 6))),
            ("TryFrom", "i16") => res(<$t as TryFrom<i16>>::try_from(arg($args, 7))),
            ("TryFrom", "i32") => res(<$t as TryFrom<i32>>::try_from(arg($args, 8))),
            ("TryFrom", "i64") => res(<$t as TryFrom<i64>>::try_from(arg($args, 9))),
            ("TryFrom", "i128") => res(<$t as TryFrom<i128>>::try_from(arg($args, 10))),
            ("const", "MIN") => val(<$t>::MIN),
            ("const", "MAX") => val(<$t>::MAX),
            #[allow(deprecated)]
            ("const", "min_value") => val(<$t>::min_value()),
            #[allow(deprecated)]
            ("const", "max_value") => val(<$t>::max_value()),
            ("const", "BITS") => val(<$t>::BITS),
            ("const", "IS_SIGNED") => val(<$t>::IS_SIGNED),
            ("const", "default") => val(<$t as Default>::default()),
            ("const", "size") => val(core::mem::size_of::<$t>()),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        Some(match ($form, $op) {
            ("cast", "other") => val(a().cast_unsigned()),
            ("from", "same") => val(<$t>::from_signed(a())),
            ("from", "to other") => val(<$u>::from_signed(a())),
            ("TryFrom", "to other") => res(<$u as TryFrom<$t>>::try_from(a())),
            ("TryInto", "to other") => res(TryInto::<$u>::try_into(a())),
            ("From", "i8") => val(<$t as From<i8>>::from(arg($args, 6))),
            ("From", "i16") => val(<$t as From<i16>>::from(arg($args, 7))),
            ("From", "i32") => val(<$t as From<i32>>::from(arg($args, 8))),
            ("From", "i64") => val(<$t as From<i64>>::from(arg($args, 9))),
            ("From", "i128") => val(<$t as From<i128>>::from(arg($args, 10))),
            ("Into", "i8") => val(Into::<$t>::into(arg::<i8>($args, 6))),
            ("Into", "i16") => val(Into::<$t>::into(arg::<i16>($args, 7))),
            ("Into", "i32") => val(Into::<$t>::into(arg::<i32>($args, 8))),
            ("Into", "i64") => val(Into::<$t>::into(arg::<i64>($args, 9))),
            ("Into", "i128") => val(Into::<$t>::into(arg::<i128>($args, 10))),
            _ => shared!($t, $u, $s, $form, $op, $args),
        })
    }};
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        Some(match ($form, $op) {
            ("cast", "other") => val(a().cast_signed()),
            ("from", "same") => val(<$t>::from_unsigned(a())),
            ("from", "to other") => val(<$s>::from_unsigned(a())),
            ("TryFrom", "to other") => res(<$s as TryFrom<$t>>::try_from(a())),
            ("TryInto", "to other") => res(TryInto::<$s>::try_into(a())),
            _ => shared!($t, $u, $s, $form, $op, $args),
        })
    }};
}
family!(all);
