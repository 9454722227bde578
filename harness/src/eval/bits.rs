//! Bit logic and bit queries.

use crate::big::Big;
use crate::out::{arg, val, Out};

macro_rules! both {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let b = || arg::<$t>($args, 1);
        let i = || arg::<usize>($args, 2);
        match ($form, $op) {
            ("const", "and") => val(a().bitand_const(b())),
            ("const", "or") => val(a().bitor_const(b())),
            ("const", "xor") => val(a().bitxor_const(b())),
            ("const", "not") => val(a().not_const()),
            ("op", "and") => val(a() & b()),
            ("op", "or") => val(a() | b()),
            ("op", "xor") => val(a() ^ b()),
            ("op", "not") => val(!a()),
            ("op_ref", "and") => val(a() & &b()),
            ("op_ref", "or") => val(a() | &b()),
            ("op_ref", "xor") => val(a() ^ &b()),
            ("op_ref", "not") => val(!&a()),
            ("op_assign", "and") => val({ let mut x = a(); x &= b(); x }),
            ("op_assign", "or") => val({ let mut x = a(); x |= b(); x }),
            ("op_assign", "xor") => val({ let mut x = a(); x ^= b(); x }),
            ("op_assign_ref", "and") => val({ let mut x = a(); x &= &b(); x }),
            ("op_assign_ref", "or") => val({ let mut x = a(); x |= &b(); x }),
            ("op_assign_ref", "xor") => val({ let mut x = a(); x ^= &b(); x }),
            ("plain", "count_ones") => val(a().count_ones()),
            ("plain", "count_zeros") => val(a().count_zeros()),
            ("plain", "leading_zeros") => val(a().leading_zeros()),
            ("plain", "leading_ones") => val(a().leading_ones()),
            ("plain", "trailing_zeros") => val(a().trailing_zeros()),
            ("plain", "trailing_ones") => val(a().trailing_ones()),
            ("plain", "reverse_bits") => val(a().reverse_bits()),
            ("plain", "swap_bytes") => val(a().swap_bytes()),
            ("plain", "is_even") => val(a().is_even()),
            ("plain", "is_odd") => val(a().is_odd()),
            ("at", "limb") => val(a().get_limb(i())),
            ("at", "wide") => val(a().get_wide(i())),
            ("plain", "least_significant_limb") => val(a().least_significant_limb()),
            ("plain", "most_significant_limb") => val(a().most_significant_limb()),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        Some(match ($form, $op) {
            ("plain", "low") => val(a().low()),
            ("plain", "high") => val(a().high()),
            _ => both!($t, $form, $op, $args),
        })
    }};
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        Some(match ($form, $op) {
            ("plain", "is_negative") => val(a().is_negative()),
            ("plain", "is_positive") => val(a().is_positive()),
            _ => both!($t, $form, $op, $args),
        })
    }};
}
family!(all);
