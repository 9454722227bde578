//! Arithmetic with a machine-integer operand. The third argument names the
//! scalar type: its width, negative for signed. A form ending in `/limb` or
//! `/wide` calls the native alias of that width.

use crate::big::Big;
use crate::out::{arg, opt, val, Out};

macro_rules! ops {
    ($t:ident, $n:ty, $form:ident, $op:ident, $args:ident;
     $($name:literal: $plain:ident $wrapping:ident $overflowing:ident $checked:ident,)*) => {{
        let a = || arg::<$t>($args, 0);
        let n = || arg::<$n>($args, 1);
        match ($form, $op) {
            $(
                ("plain", $name) => val(a().$plain(n())),
                ("wrapping", $name) => val(a().$wrapping(n())),
                ("overflowing", $name) => val(a().$overflowing(n())),
                ("checked", $name) => opt(a().$checked(n())),
            )*
            _ => return None,
        }
    }};
}

#[allow(unused_macros)]
macro_rules! with_u32 {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, u32, $form, $op, $args;
            "add": add_u32 wrapping_add_u32 overflowing_add_u32 checked_add_u32,
            "sub": sub_u32 wrapping_sub_u32 overflowing_sub_u32 checked_sub_u32,
            "mul": mul_u32 wrapping_mul_u32 overflowing_mul_u32 checked_mul_u32,
            "div_rem": div_rem_u32 wrapping_div_rem_u32 overflowing_div_rem_u32 checked_div_rem_u32,
            "div": div_u32 wrapping_div_u32 overflowing_div_u32 checked_div_u32,
            "rem": rem_u32 wrapping_rem_u32 overflowing_rem_u32 checked_rem_u32,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_u64 {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, u64, $form, $op, $args;
            "add": add_u64 wrapping_add_u64 overflowing_add_u64 checked_add_u64,
            "sub": sub_u64 wrapping_sub_u64 overflowing_sub_u64 checked_sub_u64,
            "mul": mul_u64 wrapping_mul_u64 overflowing_mul_u64 checked_mul_u64,
            "div_rem": div_rem_u64 wrapping_div_rem_u64 overflowing_div_rem_u64 checked_div_rem_u64,
            "div": div_u64 wrapping_div_u64 overflowing_div_u64 checked_div_u64,
            "rem": rem_u64 wrapping_rem_u64 overflowing_rem_u64 checked_rem_u64,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_u128 {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, u128, $form, $op, $args;
            "add": add_u128 wrapping_add_u128 overflowing_add_u128 checked_add_u128,
            "sub": sub_u128 wrapping_sub_u128 overflowing_sub_u128 checked_sub_u128,
            "mul": mul_u128 wrapping_mul_u128 overflowing_mul_u128 checked_mul_u128,
            "div_rem": div_rem_u128 wrapping_div_rem_u128 overflowing_div_rem_u128 checked_div_rem_u128,
            "div": div_u128 wrapping_div_u128 overflowing_div_u128 checked_div_u128,
            "rem": rem_u128 wrapping_rem_u128 overflowing_rem_u128 checked_rem_u128,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_i32 {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, i32, $form, $op, $args;
            "add": add_i32 wrapping_add_i32 overflowing_add_i32 checked_add_i32,
            "sub": sub_i32 wrapping_sub_i32 overflowing_sub_i32 checked_sub_i32,
            "mul": mul_i32 wrapping_mul_i32 overflowing_mul_i32 checked_mul_i32,
            "div_rem": div_rem_i32 wrapping_div_rem_i32 overflowing_div_rem_i32 checked_div_rem_i32,
            "div": div_i32 wrapping_div_i32 overflowing_div_i32 checked_div_i32,
            "rem": rem_i32 wrapping_rem_i32 overflowing_rem_i32 checked_rem_i32,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_i64 {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, i64, $form, $op, $args;
            "add": add_i64 wrapping_add_i64 overflowing_add_i64 checked_add_i64,
            "sub": sub_i64 wrapping_sub_i64 overflowing_sub_i64 checked_sub_i64,
            "mul": mul_i64 wrapping_mul_i64 overflowing_mul_i64 checked_mul_i64,
            "div_rem": div_rem_i64 wrapping_div_rem_i64 overflowing_div_rem_i64 checked_div_rem_i64,
            "div": div_i64 wrapping_div_i64 overflowing_div_i64 checked_div_i64,
            "rem": rem_i64 wrapping_rem_i64 overflowing_rem_i64 checked_rem_i64,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_i128 {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, i128, $form, $op, $args;
            "add": add_i128 wrapping_add_i128 overflowing_add_i128 checked_add_i128,
            "sub": sub_i128 wrapping_sub_i128 overflowing_sub_i128 checked_sub_i128,
            "mul": mul_i128 wrapping_mul_i128 overflowing_mul_i128 checked_mul_i128,
            "div_rem": div_rem_i128 wrapping_div_rem_i128 overflowing_div_rem_i128 checked_div_rem_i128,
            "div": div_i128 wrapping_div_i128 overflowing_div_i128 checked_div_i128,
            "rem": rem_i128 wrapping_rem_i128 overflowing_rem_i128 checked_rem_i128,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_ulimb {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, ::i256::ULimb, $form, $op, $args;
            "add": add_ulimb wrapping_add_ulimb overflowing_add_ulimb checked_add_ulimb,
            "sub": sub_ulimb wrapping_sub_ulimb overflowing_sub_ulimb checked_sub_ulimb,
            "mul": mul_ulimb wrapping_mul_ulimb overflowing_mul_ulimb checked_mul_ulimb,
            "div_rem": div_rem_ulimb wrapping_div_rem_ulimb overflowing_div_rem_ulimb checked_div_rem_ulimb,
            "div": div_ulimb wrapping_div_ulimb overflowing_div_ulimb checked_div_ulimb,
            "rem": rem_ulimb wrapping_rem_ulimb overflowing_rem_ulimb checked_rem_ulimb,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_uwide {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, ::i256::UWide, $form, $op, $args;
            "add": add_uwide wrapping_add_uwide overflowing_add_uwide checked_add_uwide,
            "sub": sub_uwide wrapping_sub_uwide overflowing_sub_uwide checked_sub_uwide,
            "mul": mul_uwide wrapping_mul_uwide overflowing_mul_uwide checked_mul_uwide,
            "div_rem": div_rem_uwide wrapping_div_rem_uwide overflowing_div_rem_uwide checked_div_rem_uwide,
            "div": div_uwide wrapping_div_uwide overflowing_div_uwide checked_div_uwide,
            "rem": rem_uwide wrapping_rem_uwide overflowing_rem_uwide checked_rem_uwide,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_ilimb {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, ::i256::ILimb, $form, $op, $args;
            "add": add_ilimb wrapping_add_ilimb overflowing_add_ilimb checked_add_ilimb,
            "sub": sub_ilimb wrapping_sub_ilimb overflowing_sub_ilimb checked_sub_ilimb,
            "mul": mul_ilimb wrapping_mul_ilimb overflowing_mul_ilimb checked_mul_ilimb,
            "div_rem": div_rem_ilimb wrapping_div_rem_ilimb overflowing_div_rem_ilimb checked_div_rem_ilimb,
            "div": div_ilimb wrapping_div_ilimb overflowing_div_ilimb checked_div_ilimb,
            "rem": rem_ilimb wrapping_rem_ilimb overflowing_rem_ilimb checked_rem_ilimb,
        )
    };
}
#[allow(unused_macros)]
macro_rules! with_iwide {
    ($t:ident, $form:ident, $op:ident, $args:ident) => {
        ops!($t, ::i256::IWide, $form, $op, $args;
            "add": add_iwide wrapping_add_iwide overflowing_add_iwide checked_add_iwide,
            "sub": sub_iwide wrapping_sub_iwide overflowing_sub_iwide checked_sub_iwide,
            "mul": mul_iwide wrapping_mul_iwide overflowing_mul_iwide checked_mul_iwide,
            "div_rem": div_rem_iwide wrapping_div_rem_iwide overflowing_div_rem_iwide checked_div_rem_iwide,
            "div": div_iwide wrapping_div_iwide overflowing_div_iwide checked_div_iwide,
            "rem": rem_iwide wrapping_rem_iwide overflowing_rem_iwide checked_rem_iwide,
        )
    };
}

macro_rules! unsigned {
    ($t:ident, $form:ident, $op:ident, $args:ident, $code:ident, $alias:ident) => {
        match ($code, $alias) {
            #[cfg(feature = "stdint")]
            (32, "") => with_u32!($t, $form, $op, $args),
            #[cfg(feature = "stdint")]
            (64, "") => with_u64!($t, $form, $op, $args),
            #[cfg(feature = "stdint")]
            (128, "") => with_u128!($t, $form, $op, $args),
            #[cfg(not(feature = "stdint"))]
            (_, "") => std::panic::panic_any(crate::Absent),
            (32, "limb") | (64, "limb") => with_ulimb!($t, $form, $op, $args),
            (64, "wide") | (128, "wide") => with_uwide!($t, $form, $op, $args),
            _ => return None,
        }
    };
}

fn split<'a>(form: &'a str, args: &[Big]) -> (&'a str, &'a str, i64) {
    let (form, alias) = form.split_once('/').unwrap_or((form, ""));
    (form, alias, arg::<i64>(args, 2))
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, false, $form:ident, $op:ident, $args:ident) => {{
        let (form, alias, code) = split($form, $args);
        Some(unsigned!($t, form, $op, $args, code, alias))
    }};
    ($t:ident, $u:ident, $s:ident, $bits:literal, true, $form:ident, $op:ident, $args:ident) => {{
        let (form, alias, code) = split($form, $args);
        Some(match (code, alias) {
            #[cfg(feature = "stdint")]
            (-32, "") => with_i32!($t, form, $op, $args),
            #[cfg(feature = "stdint")]
            (-64, "") => with_i64!($t, form, $op, $args),
            #[cfg(feature = "stdint")]
            (-128, "") => with_i128!($t, form, $op, $args),
            #[cfg(not(feature = "stdint"))]
            (_, "") => std::panic::panic_any(crate::Absent),
            (-32, "limb") | (-64, "limb") => with_ilimb!($t, form, $op, $args),
            (-64, "wide") | (-128, "wide") => with_iwide!($t, form, $op, $args),
            _ => unsigned!($t, form, $op, $args, code, alias),
        })
    }};
}
family!(all);
