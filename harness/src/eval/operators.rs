//! Operators in all their forms, and the plain methods that follow the
//! overflow-check setting. Argument 3 names the type of the shift distance.

use crate::big::Big;
use crate::out::{arg, val, Out};

macro_rules! shift {
    ($t:ident, $d:ident, $form:ident, $op:ident, $args:ident) => {{
        let mut a = arg::<$t>($args, 0);
        let d = arg::<$d>($args, 2);
        match ($form, $op) {
            ("value", "<<") => val(a << d),
            ("value", ">>") => val(a >> d),
            ("ref", "<<") => val(a << &d),
            ("ref", ">>") => val(a >> &d),
            ("assign", "<<") => {
                a <<= d;
                val(a)
            },
            ("assign", ">>") => {
                a >>= d;
                val(a)
            },
            ("assign ref", "<<") => {
                a <<= &d;
                val(a)
            },
            ("assign ref", ">>") => {
                a >>= &d;
                val(a)
            },
            _ => return None,
        }
    }};
}

/// Distance of the very type that is shifted.
macro_rules! shift_same {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {{
        let a = arg::<$t>($args, 0);
        let d = arg::<$t>($args, 2);
        match ($form, $op) {
            ("value", "<<") => val(a << d),
            ("value", ">>") => val(a >> d),
            ("ref", "<<") => val(a << &d),
            ("ref", ">>") => val(a >> &d),
            ("both ref", "<<") => val(&a << &d),
            ("both ref", ">>") => val(&a >> &d),
            _ => return None,
        }
    }};
}

macro_rules! distances {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        match arg::<i32>($args, 3) {
            8 => shift!($t, u8, $form, $op, $args),
            -8 => shift!($t, i8, $form, $op, $args),
            16 => shift!($t, u16, $form, $op, $args),
            -16 => shift!($t, i16, $form, $op, $args),
            32 => shift!($t, u32, $form, $op, $args),
            -32 => shift!($t, i32, $form, $op, $args),
            64 => shift!($t, u64, $form, $op, $args),
            -64 => shift!($t, i64, $form, $op, $args),
            128 => shift!($t, u128, $form, $op, $args),
            -128 => shift!($t, i128, $form, $op, $args),
            63 => shift!($t, usize, $form, $op, $args),
            -63 => shift!($t, isize, $form, $op, $args),
            _ => return None,
        }
    };
}

macro_rules! binary {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {{
        let mut a = arg::<$t>($args, 0);
        let b = arg::<$t>($args, 1);
        let n = || arg::<u32>($args, 4);
        match ($form, $op) {
            ("value", "+") => val(a + b),
            ("value", "-") => val(a - b),
            ("value", "*") => val(a * b),
            ("value", "/") => val(a / b),
            ("value", "%") => val(a % b),
            ("ref", "+") => val(a + &b),
            ("ref", "-") => val(a - &b),
            ("ref", "*") => val(a * &b),
            ("ref", "/") => val(a / &b),
            ("ref", "%") => val(a % &b),
            ("assign", o) => {
                match o {
                    "+" => a += b,
                    "-" => a -= b,
                    "*" => a *= b,
                    "/" => a /= b,
                    "%" => a %= b,
                    _ => return None,
                }
                val(a)
            },
            ("assign ref", o) => {
                match o {
                    "+" => a += &b,
                    "-" => a -= &b,
                    "*" => a *= &b,
                    "/" => a /= &b,
                    "%" => a %= &b,
                    _ => return None,
                }
                val(a)
            },
            ("method", "pow") => val(a.pow(n())),
            ("method", "div_rem") => val(a.div_rem(b)),
            ("method", "next_multiple_of") => val(a.next_multiple_of(b)),
            _ => return None,
        }
    }};
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {
        Some(match ($form, $op) {
            ("value", "neg") => val(-arg::<$t>($args, 0)),
            ("ref", "neg") => val(-&arg::<$t>($args, 0)),
            (_, "<<" | ">>") => match arg::<i32>($args, 3) {
                1000 => shift!($t, $u, $form, $op, $args),
                -1000 => shift_same!($t, $form, $op, $args),
                _ => distances!($t, $form, $op, $args),
            },
            _ => binary!($t, $form, $op, $args),
        })
    };
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {
        Some(match ($form, $op) {
            ("method", "next_power_of_two") => val(arg::<$t>($args, 0).next_power_of_two()),
            (_, "<<" | ">>") => match arg::<i32>($args, 3) {
                1000 => shift_same!($t, $form, $op, $args),
                -1000 => shift!($t, $s, $form, $op, $args),
                _ => distances!($t, $form, $op, $args),
            },
            _ => binary!($t, $form, $op, $args),
        })
    };
}
family!(all);
