//! Addition, subtraction, negation, absolute value.

use crate::big::Big;
use crate::out::{arg, opt, val, Out};

macro_rules! both {
    ($t:ident, $u:ident, $s:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        match ($form, $op) {
            ("wrapping", "add") => val(a().wrapping_add(b())),
            ("overflowing", "add") => val(a().overflowing_add(b())),
            ("checked", "add") => opt(a().checked_add(b())),
            ("saturating", "add") => val(a().saturating_add(b())),
            ("strict", "add") => val(a().strict_add(b())),
            ("unchecked", "add") => val(unsafe { a().unchecked_add(b()) }),
            ("wrapping", "sub") => val(a().wrapping_sub(b())),
            ("overflowing", "sub") => val(a().overflowing_sub(b())),
            ("checked", "sub") => opt(a().checked_sub(b())),
            ("saturating", "sub") => val(a().saturating_sub(b())),
            ("strict", "sub") => val(a().strict_sub(b())),
            ("unchecked", "sub") => val(unsafe { a().unchecked_sub(b()) }),
            ("plain", "carrying_add") => val(a().carrying_add(b(), arg($args, 2))),
            ("plain", "borrowing_sub") => val(a().borrowing_sub(b(), arg($args, 2))),
            ("plain", "abs_diff") => val(a().abs_diff(b())),
            ("plain", "midpoint") => val(a().midpoint(b())),
            ("wrapping", "neg") => val(a().wrapping_neg()),
            ("checked", "neg") => opt(a().checked_neg()),
            ("strict", "neg") => val(a().strict_neg()),
            _ => return None,
        }
    }};
}

macro_rules! signed {
    ($t:ident, $u:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let m = || arg::<$u>($args, 3);
        Some(match ($form, $op) {
            ("overflowing", "neg") => val(a().overflowing_neg()),
            ("saturating", "neg") => val(a().saturating_neg()),
            ("unchecked", "neg") => val(unsafe { a().unchecked_neg() }),
            ("wrapping", "abs") => val(a().wrapping_abs()),
            ("overflowing", "abs") => val(a().overflowing_abs()),
            ("checked", "abs") => opt(a().checked_abs()),
            ("saturating", "abs") => val(a().saturating_abs()),
            ("strict", "abs") => val(a().strict_abs()),
            ("plain", "abs") => val(a().abs()),
            ("plain", "unsigned_abs") => val(a().unsigned_abs()),
            ("plain", "signum") => val(a().signum()),
            ("wrapping", "sub_unsigned") => val(a().wrapping_sub_unsigned(m())),
            ("overflowing", "add_unsigned") => val(a().overflowing_add_unsigned(m())),
            ("overflowing", "sub_unsigned") => val(a().overflowing_sub_unsigned(m())),
            ("checked", "add_unsigned") => opt(a().checked_add_unsigned(m())),
            ("checked", "sub_unsigned") => opt(a().checked_sub_unsigned(m())),
            ("saturating", "add_unsigned") => val(a().saturating_add_unsigned(m())),
            ("saturating", "sub_unsigned") => val(a().saturating_sub_unsigned(m())),
            ("strict", "add_unsigned") => val(a().strict_add_unsigned(m())),
            ("strict", "sub_unsigned") => val(a().strict_sub_unsigned(m())),
            _ => both!($t, $u, $t, $form, $op, $args),
        })
    }};
}

macro_rules! unsigned {
    ($t:ident, $s:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        let m = || arg::<$s>($args, 3);
        Some(match ($form, $op) {
            ("checked", "signed_diff") => opt(a().checked_signed_diff(b())),
            ("wrapping", "add_signed") => val(a().wrapping_add_signed(m())),
            ("overflowing", "add_signed") => val(a().overflowing_add_signed(m())),
            ("overflowing", "sub_signed") => val(a().overflowing_sub_signed(m())),
            ("checked", "add_signed") => opt(a().checked_add_signed(m())),
            ("saturating", "add_signed") => val(a().saturating_add_signed(m())),
            ("strict", "add_signed") => val(a().strict_add_signed(m())),
            _ => both!($t, $t, $s, $form, $op, $args),
        })
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {
        signed!($t, $u, $form, $op, $args)
    };
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {
        unsigned!($t, $s, $form, $op, $args)
    };
}
family!(all);
