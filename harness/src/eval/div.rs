//! Division and remainder.

use crate::big::Big;
use crate::out::{arg, opt, val, Out};

macro_rules! both {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        match ($form, $op) {
            ("wrapping", "div_rem") => val(a().wrapping_div_rem(b())),
            ("overflowing", "div_rem") => val(a().overflowing_div_rem(b())),
            ("checked", "div_rem") => opt(a().checked_div_rem(b())),
            ("plain", "div_rem") => val(a().div_rem(b())),
            ("wrapping", "div") => val(a().wrapping_div(b())),
            ("overflowing", "div") => val(a().overflowing_div(b())),
            ("checked", "div") => opt(a().checked_div(b())),
            ("strict", "div") => val(a().strict_div(b())),
            ("saturating", "div") => val(a().saturating_div(b())),
            ("wrapping", "rem") => val(a().wrapping_rem(b())),
            ("overflowing", "rem") => val(a().overflowing_rem(b())),
            ("checked", "rem") => opt(a().checked_rem(b())),
            ("strict", "rem") => val(a().strict_rem(b())),
            ("wrapping", "div_euclid") => val(a().wrapping_div_euclid(b())),
            ("overflowing", "div_euclid") => val(a().overflowing_div_euclid(b())),
            ("checked", "div_euclid") => opt(a().checked_div_euclid(b())),
            ("strict", "div_euclid") => val(a().strict_div_euclid(b())),
            ("plain", "div_euclid") => val(a().div_euclid(b())),
            ("wrapping", "rem_euclid") => val(a().wrapping_rem_euclid(b())),
            ("overflowing", "rem_euclid") => val(a().overflowing_rem_euclid(b())),
            ("checked", "rem_euclid") => opt(a().checked_rem_euclid(b())),
            ("strict", "rem_euclid") => val(a().strict_rem_euclid(b())),
            ("plain", "rem_euclid") => val(a().rem_euclid(b())),
            ("plain", "div_floor") => val(a().div_floor(b())),
            ("plain", "div_ceil") => val(a().div_ceil(b())),
            ("plain", "next_multiple_of") => val(a().next_multiple_of(b())),
            ("checked", "next_multiple_of") => opt(a().checked_next_multiple_of(b())),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {
        Some(both!($t, $form, $op, $args))
    };
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {{
        Some(match ($form, $op) {
            ("plain", "is_multiple_of") => {
                val(arg::<$t>($args, 0).is_multiple_of(arg::<$t>($args, 1)))
            },
            _ => both!($t, $form, $op, $args),
        })
    }};
}
family!(all);
