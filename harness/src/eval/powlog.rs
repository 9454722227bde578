//! Powers, logarithms, power-of-two queries.

use crate::big::Big;
use crate::out::{arg, opt, val, Out};

macro_rules! both {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        let n = || arg::<u32>($args, 2);
        match ($form, $op) {
            ("wrapping", "pow") => val(a().wrapping_pow(n())),
            ("overflowing", "pow") => val(a().overflowing_pow(n())),
            ("checked", "pow") => opt(a().checked_pow(n())),
            ("strict", "pow") => val(a().strict_pow(n())),
            ("saturating", "pow") => val(a().saturating_pow(n())),
            ("plain", "pow") => val(a().pow(n())),
            ("checked", "ilog") => opt(a().checked_ilog(b())),
            ("plain", "ilog") => val(a().ilog(b())),
            ("checked", "ilog2") => opt(a().checked_ilog2()),
            ("plain", "ilog2") => val(a().ilog2()),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {
        Some(both!($t, $form, $op, $args))
    };
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        Some(match ($form, $op) {
            ("plain", "is_power_of_two") => val(a().is_power_of_two()),
            ("plain", "next_power_of_two") => val(a().next_power_of_two()),
            ("checked", "next_power_of_two") => opt(a().checked_next_power_of_two()),
            ("wrapping", "next_power_of_two") => val(a().wrapping_next_power_of_two()),
            _ => both!($t, $form, $op, $args),
        })
    }};
}
family!(all);
