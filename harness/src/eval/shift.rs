//! Shifts and rotations.

use crate::big::Big;
use crate::out::{arg, val, opt, Out};

macro_rules! both {
    ($t:ident, $u:ident, $s:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let n = || arg::<u32>($args, 1);
        macro_rules! d {
            ($d:ident) => {
                arg::<$d>($args, 2)
            };
        }
        match ($form, $op) {
            ("wrapping", "shl") => val(a().wrapping_shl(n())),
            ("wrapping", "shr") => val(a().wrapping_shr(n())),
            ("checked", "shl") => opt(a().checked_shl(n())),
            ("checked", "shr") => opt(a().checked_shr(n())),
            ("strict", "shl") => val(a().strict_shl(n())),
            ("strict", "shr") => val(a().strict_shr(n())),
            ("unbounded", "shl") => val(a().unbounded_shl(n())),
            ("unbounded", "shr") => val(a().unbounded_shr(n())),
            ("unchecked", "shl") => val(unsafe { a().unchecked_shl(n()) }),
            ("unchecked", "shr") => val(unsafe { a().unchecked_shr(n()) }),
            ("plain", "rotate_left") => val(a().rotate_left(n())),
            ("plain", "rotate_right") => val(a().rotate_right(n())),
            ("op", "shl u8") => val(a() << d!(u8)),
            ("op", "shr u8") => val(a() >> d!(u8)),
            ("op", "shl i8") => val(a() << d!(i8)),
            ("op", "shr i8") => val(a() >> d!(i8)),
            ("op", "shl u16") => val(a() << d!(u16)),
            ("op", "shr u16") => val(a() >> d!(u16)),
            ("op", "shl i16") => val(a() << d!(i16)),
            ("op", "shr i16") => val(a() >> d!(i16)),
            ("op", "shl u32") => val(a() << d!(u32)),
            ("op", "shr u32") => val(a() >> d!(u32)),
            ("op", "shl i32") => val(a() << d!(i32)),
            ("op", "shr i32") => val(a() >> d!(i32)),
            ("op", "shl u64") => val(a() << d!(u64)),
            ("op", "shr u64") => val(a() >> d!(u64)),
            ("op", "shl i64") => val(a() << d!(i64)),
            ("op", "shr i64") => val(a() >> d!(i64)),
            ("op", "shl u128") => val(a() << d!(u128)),
            ("op", "shr u128") => val(a() >> d!(u128)),
            ("op", "shl i128") => val(a() << d!(i128)),
            ("op", "shr i128") => val(a() >> d!(i128)),
            ("op", "shl usize") => val(a() << d!(usize)),
            ("op", "shr usize") => val(a() >> d!(usize)),
            ("op", "shl isize") => val(a() << d!(isize)),
            ("op", "shr isize") => val(a() >> d!(isize)),
            ("op", "shl unsigned") => val(a() << d!($u)),
            ("op", "shr unsigned") => val(a() >> d!($u)),
            ("op", "shl signed") => val(a() << d!($s)),
            ("op", "shr signed") => val(a() >> d!($s)),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {
        Some(both!($t, $u, $s, $form, $op, $args))
    };
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let n = || arg::<u32>($args, 1);
        Some(match ($form, $op) {
            ("overflowing", "shl") => val(a().overflowing_shl(n())),
            ("overflowing", "shr") => val(a().overflowing_shr(n())),
            _ => both!($t, $u, $s, $form, $op, $args),
        })
    }};
}
family!(all);
