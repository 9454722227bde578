//! Multiplication.

use crate::big::Big;
use crate::out::{arg, opt, val, Out};

macro_rules! both {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        match ($form, $op) {
            ("wrapping", "mul") => val(a().wrapping_mul(b())),
            ("overflowing", "mul") => val(a().overflowing_mul(b())),
            ("checked", "mul") => opt(a().checked_mul(b())),
            ("saturating", "mul") => val(a().saturating_mul(b())),
            ("strict", "mul") => val(a().strict_mul(b())),
            ("unchecked", "mul") => val(unsafe { a().unchecked_mul(b()) }),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {
        Some(both!($t, $form, $op, $args))
    };
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        Some(match ($form, $op) {
            ("plain", "widening_mul") => val(a().widening_mul(b())),
            ("plain", "carrying_mul") => val(a().carrying_mul(b(), arg($args, 2))),
            ("plain", "high_mul") => val(a().high_mul(b())),
            _ => both!($t, $form, $op, $args),
        })
    }};
}
family!(all);
