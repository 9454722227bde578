//! Register-machine programs: the registers are real values of the types under
//! test and every instruction works on them in place.

use crate::big::Big;
use crate::json::J;
use crate::out::{val, Out, Push, Take};
use crate::{jint, BadArg};

#[derive(Debug)]
pub struct Ins {
    pub op: String,
    pub sg: bool,
    pub d: usize,
    pub x: usize,
    pub y: usize,
    pub n: Big,
}

/// Register contents as integers.
#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub bits: u32,
    pub checks: bool,
    pub u: Vec<Big>,
    pub s: Vec<Big>,
    pub c: bool,
}

fn imm<T: Take>(n: &Big) -> T {
    match T::take(n) {
        Some(x) => x,
        None => std::panic::panic_any(BadArg(0)),
    }
}

impl Push for () {
    fn push(&self, _: &mut Vec<Big>) {}
}

macro_rules! set {
    ($d:expr, $v:expr) => {{
        $d = $v;
        val(())
    }};
}
macro_rules! wrapping {
    ($d:expr, $v:expr) => {
        set!($d, $v)
    };
}
macro_rules! saturating {
    ($d:expr, $v:expr) => {
        set!($d, $v)
    };
}
macro_rules! strict {
    ($d:expr, $v:expr) => {
        set!($d, $v)
    };
}
macro_rules! overflowing {
    ($d:expr, $v:expr) => {{
        let (v, f) = $v;
        $d = v;
        val(f)
    }};
}
macro_rules! checked {
    ($d:expr, $v:expr) => {
        match $v {
            None => Out::Nothing,
            Some(v) => set!($d, v),
        }
    };
}

pub trait Machine {
    /// Performs one instruction; None: the harness does not know it.
    fn exec(&mut self, i: &Ins) -> Option<Out>;
    fn state(&self) -> State;
}

/// Instructions both files have: $r the file worked on, $o the other one.
macro_rules! common {
    ($self:ident, $r:expr, $o:expr, $t:ident, $u:ident, $i:ident, $d:ident, $x:ident, $y:ident, $n:ident) => {{
        let (d, x, y, n) = ($d, $x, $y, $n);
        match $i.op.as_str() {
            "+=" => {
                let b = $r[y];
                $r[d] += b;
                val(())
            }
            "+=&" => {
                let b = $r[y];
                $r[d] += &b;
                val(())
            }
            "+" => set!($r[d], $r[x] + $r[y]),
            "-=" => {
                let b = $r[y];
                $r[d] -= b;
                val(())
            }
            "-=&" => {
                let b = $r[y];
                $r[d] -= &b;
                val(())
            }
            "-" => set!($r[d], $r[x] - $r[y]),
            "*=" => {
                let b = $r[y];
                $r[d] *= b;
                val(())
            }
            "*=&" => {
                let b = $r[y];
                $r[d] *= &b;
                val(())
            }
            "*" => set!($r[d], $r[x] * $r[y]),
            "/=" => {
                let b = $r[y];
                $r[d] /= b;
                val(())
            }
            "/=&" => {
                let b = $r[y];
                $r[d] /= &b;
                val(())
            }
            "/" => set!($r[d], $r[x] / $r[y]),
            "%=" => {
                let b = $r[y];
                $r[d] %= b;
                val(())
            }
            "%=&" => {
                let b = $r[y];
                $r[d] %= &b;
                val(())
            }
            "%" => set!($r[d], $r[x] % $r[y]),
            "&=" => {
                let b = $r[y];
                $r[d] &= b;
                val(())
            }
            "&=&" => {
                let b = $r[y];
                $r[d] &= &b;
                val(())
            }
            "&" => set!($r[d], $r[x] & $r[y]),
            "|=" => {
                let b = $r[y];
                $r[d] |= b;
                val(())
            }
            "|=&" => {
                let b = $r[y];
                $r[d] |= &b;
                val(())
            }
            "|" => set!($r[d], $r[x] | $r[y]),
            "^=" => {
                let b = $r[y];
                $r[d] ^= b;
                val(())
            }
            "^=&" => {
                let b = $r[y];
                $r[d] ^= &b;
                val(())
            }
            "^" => set!($r[d], $r[x] ^ $r[y]),
            "!" => set!($r[d], !$r[x]),
            "next_multiple_of" => set!($r[d], $r[x].next_multiple_of($r[y])),
            "div_rem" => {
                let (q, m) = $r[x].div_rem($r[y]);
                $r[d] = q;
                $r[(d + 1) % 4] = m;
                val(())
            }
            "wrapping_div_rem" => {
                let (q, m) = $r[x].wrapping_div_rem($r[y]);
                $r[d] = q;
                $r[(d + 1) % 4] = m;
                val(())
            }
            "checked_div_rem" => match $r[x].checked_div_rem($r[y]) {
                None => Out::Nothing,
                Some((q, m)) => {
                    $r[d] = q;
                    $r[(d + 1) % 4] = m;
                    val(())
                }
            },
            "<<= u32" => {
                $r[d] <<= imm::<u32>(n);
                val(())
            }
            ">>= u32" => {
                $r[d] >>= imm::<u32>(n);
                val(())
            }
            "<<= i16" => {
                $r[d] <<= imm::<i16>(n);
                val(())
            }
            ">>= i16" => {
                $r[d] >>= imm::<i16>(n);
                val(())
            }
            "<<= u64" => {
                $r[d] <<= imm::<u64>(n);
                val(())
            }
            ">>= u64" => {
                $r[d] >>= imm::<u64>(n);
                val(())
            }
            "<<= i128" => {
                $r[d] <<= imm::<i128>(n);
                val(())
            }
            ">>= i128" => {
                $r[d] >>= imm::<i128>(n);
                val(())
            }
            "<< u32" => set!($r[d], $r[x] << imm::<u32>(n)),
            ">> u32" => set!($r[d], $r[x] >> imm::<u32>(n)),
            "<<= reg" => {
                let b = $o[y];
                $r[d] <<= b;
                val(())
            }
            ">>= reg" => {
                let b = $o[y];
                $r[d] >>= b;
                val(())
            }
            "wrapping_add" => wrapping!($r[d], $r[x].wrapping_add($r[y])),
            "wrapping_sub" => wrapping!($r[d], $r[x].wrapping_sub($r[y])),
            "wrapping_mul" => wrapping!($r[d], $r[x].wrapping_mul($r[y])),
            "wrapping_div" => wrapping!($r[d], $r[x].wrapping_div($r[y])),
            "wrapping_rem" => wrapping!($r[d], $r[x].wrapping_rem($r[y])),
            "overflowing_add" => overflowing!($r[d], $r[x].overflowing_add($r[y])),
            "overflowing_sub" => overflowing!($r[d], $r[x].overflowing_sub($r[y])),
            "overflowing_mul" => overflowing!($r[d], $r[x].overflowing_mul($r[y])),
            "overflowing_div" => overflowing!($r[d], $r[x].overflowing_div($r[y])),
            "overflowing_rem" => overflowing!($r[d], $r[x].overflowing_rem($r[y])),
            "checked_add" => checked!($r[d], $r[x].checked_add($r[y])),
            "checked_sub" => checked!($r[d], $r[x].checked_sub($r[y])),
            "checked_mul" => checked!($r[d], $r[x].checked_mul($r[y])),
            "checked_div" => checked!($r[d], $r[x].checked_div($r[y])),
            "checked_rem" => checked!($r[d], $r[x].checked_rem($r[y])),
            "saturating_add" => saturating!($r[d], $r[x].saturating_add($r[y])),
            "saturating_sub" => saturating!($r[d], $r[x].saturating_sub($r[y])),
            "saturating_mul" => saturating!($r[d], $r[x].saturating_mul($r[y])),
            "saturating_div" => saturating!($r[d], $r[x].saturating_div($r[y])),
            "strict_add" => strict!($r[d], $r[x].strict_add($r[y])),
            "strict_sub" => strict!($r[d], $r[x].strict_sub($r[y])),
            "strict_mul" => strict!($r[d], $r[x].strict_mul($r[y])),
            "strict_div" => strict!($r[d], $r[x].strict_div($r[y])),
            "strict_rem" => strict!($r[d], $r[x].strict_rem($r[y])),
            "wrapping_neg" => wrapping!($r[d], $r[x].wrapping_neg()),
            "checked_neg" => checked!($r[d], $r[x].checked_neg()),
            "wrapping_div_euclid" => wrapping!($r[d], $r[x].wrapping_div_euclid($r[y])),
            "overflowing_div_euclid" => overflowing!($r[d], $r[x].overflowing_div_euclid($r[y])),
            "checked_div_euclid" => checked!($r[d], $r[x].checked_div_euclid($r[y])),
            "wrapping_rem_euclid" => wrapping!($r[d], $r[x].wrapping_rem_euclid($r[y])),
            "checked_rem_euclid" => checked!($r[d], $r[x].checked_rem_euclid($r[y])),
            "checked_next_multiple_of" => checked!($r[d], $r[x].checked_next_multiple_of($r[y])),
            "midpoint" => set!($r[d], $r[x].midpoint($r[y])),
            "carrying_add" => {
                let (v, c) = $r[x].carrying_add($r[y], $self.c);
                $r[d] = v;
                $self.c = c;
                val(())
            }
            "borrowing_sub" => {
                let (v, c) = $r[x].borrowing_sub($r[y], $self.c);
                $r[d] = v;
                $self.c = c;
                val(())
            }
            "pow" => set!($r[d], $r[x].pow(imm(n))),
            "wrapping_pow" => wrapping!($r[d], $r[x].wrapping_pow(imm(n))),
            "checked_pow" => checked!($r[d], $r[x].checked_pow(imm(n))),
            "saturating_pow" => saturating!($r[d], $r[x].saturating_pow(imm(n))),
            "overflowing_pow" => overflowing!($r[d], $r[x].overflowing_pow(imm(n))),
            "add_ulimb" => strict!($r[d], $r[x].add_ulimb(imm(n))),
            "sub_ulimb" => strict!($r[d], $r[x].sub_ulimb(imm(n))),
            "mul_ulimb" => strict!($r[d], $r[x].mul_ulimb(imm(n))),
            "div_ulimb" => strict!($r[d], $r[x].div_ulimb(imm(n))),
            "wrapping_add_ulimb" => wrapping!($r[d], $r[x].wrapping_add_ulimb(imm(n))),
            "wrapping_mul_ulimb" => wrapping!($r[d], $r[x].wrapping_mul_ulimb(imm(n))),
            "checked_sub_ulimb" => checked!($r[d], $r[x].checked_sub_ulimb(imm(n))),
            "overflowing_mul_ulimb" => overflowing!($r[d], $r[x].overflowing_mul_ulimb(imm(n))),
            "checked_div_ulimb" => checked!($r[d], $r[x].checked_div_ulimb(imm(n))),
            "add_uwide" => strict!($r[d], $r[x].add_uwide(imm(n))),
            "sub_uwide" => strict!($r[d], $r[x].sub_uwide(imm(n))),
            "mul_uwide" => strict!($r[d], $r[x].mul_uwide(imm(n))),
            "div_uwide" => strict!($r[d], $r[x].div_uwide(imm(n))),
            "wrapping_sub_uwide" => wrapping!($r[d], $r[x].wrapping_sub_uwide(imm(n))),
            "wrapping_mul_uwide" => wrapping!($r[d], $r[x].wrapping_mul_uwide(imm(n))),
            "checked_add_uwide" => checked!($r[d], $r[x].checked_add_uwide(imm(n))),
            "overflowing_add_uwide" => overflowing!($r[d], $r[x].overflowing_add_uwide(imm(n))),
            "rem_ulimb" => {
                let m = $r[x].rem_ulimb(imm(n));
                set!($r[d], <$t>::from_ulimb(m))
            }
            "rem_uwide" => {
                let m = $r[x].rem_uwide(imm(n));
                set!($r[d], <$t>::from_uwide(m))
            }
            "mov" => {
                let v = $r[x].clone();
                $r[d].clone_from(&v);
                val(())
            }
            "swap" => {
                $r.swap(x, y);
                val(())
            }
            "min" => set!($r[d], $r[x].min($r[y])),
            "max" => set!($r[d], $r[x].max($r[y])),
            "clamp" => set!($r[d], $r[d].clamp($r[x], $r[y])),
            "sort" => {
                $r.sort();
                val(())
            }
            "via le bytes" => set!($r[d], <$t>::from_le_bytes($r[x].to_le_bytes())),
            "via be bytes" => set!($r[d], <$t>::from_be_bytes($r[x].to_be_bytes())),
            "via ne bytes" => set!($r[d], <$t>::from_ne_bytes($r[x].to_ne_bytes())),
            "via le limbs" => set!($r[d], <$t>::from_le_limbs($r[x].to_le_limbs())),
            "via be limbs" => set!($r[d], <$t>::from_be_limbs($r[x].to_be_limbs())),
            "via le u32" => set!($r[d], <$t>::from_le_u32($r[x].to_le_u32())),
            "via be u64" => set!($r[d], <$t>::from_be_u64($r[x].to_be_u64())),
            "via le wide" => set!($r[d], <$t>::from_le_wide($r[x].to_le_wide())),
            "via decimal" => match $r[x].to_string().parse::<$t>() {
                Ok(v) => set!($r[d], v),
                Err(e) => Out::Err(format!("{:?}", e.kind())),
            },
            "via radix" => {
                let mut buf = [0u8; 1200];
                let text =
                    String::from_utf8_lossy($r[x].to_str_radix(&mut buf, imm(n))).to_string();
                match <$t>::from_str_radix(&text, imm(n)) {
                    Ok(v) => set!($r[d], v),
                    Err(e) => Out::Err(format!("{:?}", e.kind())),
                }
            }
            "via hex" => match <$u>::from_str_radix(&format!("{:x}", $r[x]), 16) {
                Ok(v) => set!($r[d], <$t>::from_unsigned(v)),
                Err(e) => Out::Err(format!("{:?}", e.kind())),
            },
            "via octal" => match <$u>::from_str_radix(&format!("{:o}", $r[x]), 8) {
                Ok(v) => set!($r[d], <$t>::from_unsigned(v)),
                Err(e) => Out::Err(format!("{:?}", e.kind())),
            },
            "via u8" => set!($r[d], <$t>::from_u8($r[x].as_u8())),
            "via u64" => set!($r[d], <$t>::from_u64($r[x].as_u64())),
            "via u128" => set!($r[d], <$t>::from_u128($r[x].as_u128())),
            "via i16" => set!($r[d], <$t>::from_i16($r[x].as_i16())),
            "via i32" => set!($r[d], <$t>::from_i32($r[x].as_i32())),
            "via i128" => set!($r[d], <$t>::from_i128($r[x].as_i128())),
            "rotate_left" => set!($r[d], $r[x].rotate_left(imm(n))),
            "rotate_right" => set!($r[d], $r[x].rotate_right(imm(n))),
            "wrapping_shl" => set!($r[d], $r[x].wrapping_shl(imm(n))),
            "wrapping_shr" => set!($r[d], $r[x].wrapping_shr(imm(n))),
            "checked_shl" => checked!($r[d], $r[x].checked_shl(imm(n))),
            "checked_shr" => checked!($r[d], $r[x].checked_shr(imm(n))),
            "swap_bytes" => set!($r[d], $r[x].swap_bytes()),
            "reverse_bits" => set!($r[d], $r[x].reverse_bits()),
            "count_ones" => set!($r[d], <$t>::from_u32($r[x].count_ones())),
            "leading_zeros" => set!($r[d], <$t>::from_u32($r[x].leading_zeros())),
            "trailing_zeros" => set!($r[d], <$t>::from_u32($r[x].trailing_zeros())),
            "leading_ones" => set!($r[d], <$t>::from_u32($r[x].leading_ones())),
            "trailing_ones" => set!($r[d], <$t>::from_u32($r[x].trailing_ones())),
            "ilog2" => match $r[x].checked_ilog2() {
                None => Out::Nothing,
                Some(l) => set!($r[d], <$t>::from_u32(l)),
            },
            "cmp" => val($r[x].cmp(&$r[y])),
            "eq" => val($r[x] == $r[y]),
            "div_floor" => strict!($r[d], $r[x].div_floor($r[y])),
            "div_ceil" => strict!($r[d], $r[x].div_ceil($r[y])),
            "div_euclid" => strict!($r[d], $r[x].div_euclid($r[y])),
            "rem_euclid" => strict!($r[d], $r[x].rem_euclid($r[y])),
            "strict_div_euclid" => strict!($r[d], $r[x].strict_div_euclid($r[y])),
            "strict_rem_euclid" => strict!($r[d], $r[x].strict_rem_euclid($r[y])),
            "overflowing_rem_euclid" => overflowing!($r[d], $r[x].overflowing_rem_euclid($r[y])),
            "overflowing_div_rem" => {
                let ((q, m), f) = $r[x].overflowing_div_rem($r[y]);
                $r[d] = q;
                $r[(d + 1) % 4] = m;
                val(f)
            }
            "strict_neg" => strict!($r[d], $r[x].strict_neg()),
            "strict_pow" => strict!($r[d], $r[x].strict_pow(imm(n))),
            "ilog" => match $r[x].checked_ilog($r[y]) {
                None => Out::Nothing,
                Some(l) => set!($r[d], <$t>::from_u32(l)),
            },
            "count_zeros" => set!($r[d], <$t>::from_u32($r[x].count_zeros())),
            "is_even" => val($r[x].is_even()),
            "unbounded_shl" => set!($r[d], $r[x].unbounded_shl(imm(n))),
            "unbounded_shr" => set!($r[d], $r[x].unbounded_shr(imm(n))),
            "strict_shl" => strict!($r[d], $r[x].strict_shl(imm(n))),
            "strict_shr" => strict!($r[d], $r[x].strict_shr(imm(n))),
            "via binary" => match <$u>::from_str_radix(&format!("{:b}", $r[x]), 2) {
                Ok(v) => set!($r[d], <$t>::from_unsigned(v)),
                Err(e) => Out::Err(format!("{:?}", e.kind())),
            },
            "via HEX" => match <$u>::from_str_radix(&format!("{:X}", $r[x]), 16) {
                Ok(v) => set!($r[d], <$t>::from_unsigned(v)),
                Err(e) => Out::Err(format!("{:?}", e.kind())),
            },
            "via be u32" => set!($r[d], <$t>::from_be_u32($r[x].to_be_u32())),
            "via le u64" => set!($r[d], <$t>::from_le_u64($r[x].to_le_u64())),
            "via be wide" => set!($r[d], <$t>::from_be_wide($r[x].to_be_wide())),
            "via i8" => set!($r[d], <$t>::from_i8($r[x].as_i8())),
            "via u16" => set!($r[d], <$t>::from_u16($r[x].as_u16())),
            "via u32" => set!($r[d], <$t>::from_u32($r[x].as_u32())),
            "via i64" => set!($r[d], <$t>::from_i64($r[x].as_i64())),
            _ => return None,
        }
    }};
}
macro_rules! machine {
    ($name:ident, $u:ident, $s:ident, $bits:literal) => {
        pub struct $name {
            u: [i256::$u; 4],
            s: [i256::$s; 4],
            c: bool,
        }

        impl $name {
            fn load(st: &State) -> Option<Box<dyn Machine>> {
                let mut m = $name {
                    u: Default::default(),
                    s: Default::default(),
                    c: st.c,
                };
                for k in 0..4 {
                    m.u[k] = Take::take(st.u.get(k)?)?;
                    m.s[k] = Take::take(st.s.get(k)?)?;
                }
                Some(Box::new(m))
            }
        }

        impl Machine for $name {
            fn state(&self) -> State {
                let (mut u, mut s) = (vec![], vec![]);
                self.u.push(&mut u);
                self.s.push(&mut s);
                State {
                    bits: $bits,
                    checks: crate::checks(),
                    u,
                    s,
                    c: self.c,
                }
            }

            fn exec(&mut self, i: &Ins) -> Option<Out> {
                #[allow(unused_imports)]
                use i256::{$s, $u};
                let (d, x, y, n) = (i.d, i.x, i.y, &i.n);
                Some(match (i.op.as_str(), i.sg) {
                    ("load", true) => set!(self.s[d], imm(n)),
                    ("load", false) => set!(self.u[d], imm(n)),
                    ("neg", true) => set!(self.s[d], -self.s[x]),
                    ("neg", false) => set!(self.u[d], self.u[x].wrapping_neg()),
                    ("as other", true) => set!(self.u[d], self.s[x].as_unsigned()),
                    ("as other", false) => set!(self.s[d], self.u[x].as_signed()),
                    ("cast other", true) => set!(self.u[d], self.s[x].cast_unsigned()),
                    ("cast other", false) => set!(self.s[d], self.u[x].cast_signed()),
                    ("try other", true) => checked!(self.u[d], <$u>::try_from(self.s[x]).ok()),
                    ("try other", false) => checked!(self.s[d], <$s>::try_from(self.u[x]).ok()),
                    ("abs_diff", true) => set!(self.u[d], self.s[x].abs_diff(self.s[y])),
                    ("abs_diff", false) => set!(self.u[d], self.u[x].abs_diff(self.u[y])),
                    ("abs", true) => strict!(self.s[d], self.s[x].abs()),
                    ("wrapping_abs", true) => wrapping!(self.s[d], self.s[x].wrapping_abs()),
                    ("checked_abs", true) => checked!(self.s[d], self.s[x].checked_abs()),
                    ("saturating_abs", true) => saturating!(self.s[d], self.s[x].saturating_abs()),
                    ("overflowing_abs", true) => overflowing!(self.s[d], self.s[x].overflowing_abs()),
                    ("saturating_neg", true) => saturating!(self.s[d], self.s[x].saturating_neg()),
                    ("overflowing_neg", true) => overflowing!(self.s[d], self.s[x].overflowing_neg()),
                    ("wrapping_add_other", false) => wrapping!(self.u[d], self.u[x].wrapping_add_signed(self.s[y])),
                    ("overflowing_add_other", true) => overflowing!(self.s[d], self.s[x].overflowing_add_unsigned(self.u[y])),
                    ("overflowing_add_other", false) => overflowing!(self.u[d], self.u[x].overflowing_add_signed(self.s[y])),
                    ("checked_add_other", true) => checked!(self.s[d], self.s[x].checked_add_unsigned(self.u[y])),
                    ("checked_add_other", false) => checked!(self.u[d], self.u[x].checked_add_signed(self.s[y])),
                    ("saturating_add_other", true) => saturating!(self.s[d], self.s[x].saturating_add_unsigned(self.u[y])),
                    ("saturating_add_other", false) => saturating!(self.u[d], self.u[x].saturating_add_signed(self.s[y])),
                    ("strict_add_other", true) => strict!(self.s[d], self.s[x].strict_add_unsigned(self.u[y])),
                    ("strict_add_other", false) => strict!(self.u[d], self.u[x].strict_add_signed(self.s[y])),
                    ("wrapping_sub_other", true) => wrapping!(self.s[d], self.s[x].wrapping_sub_unsigned(self.u[y])),
                    ("overflowing_sub_other", true) => overflowing!(self.s[d], self.s[x].overflowing_sub_unsigned(self.u[y])),
                    ("checked_sub_other", true) => checked!(self.s[d], self.s[x].checked_sub_unsigned(self.u[y])),
                    ("saturating_sub_other", true) => saturating!(self.s[d], self.s[x].saturating_sub_unsigned(self.u[y])),
                    ("wrapping_add_ilimb", true) => wrapping!(self.s[d], self.s[x].wrapping_add_ilimb(imm(n))),
                    ("checked_sub_ilimb", true) => checked!(self.s[d], self.s[x].checked_sub_ilimb(imm(n))),
                    ("overflowing_mul_ilimb", true) => overflowing!(self.s[d], self.s[x].overflowing_mul_ilimb(imm(n))),
                    ("wrapping_div_ilimb", true) => wrapping!(self.s[d], self.s[x].wrapping_div_ilimb(imm(n))),
                    ("overflowing_div_ilimb", true) => overflowing!(self.s[d], self.s[x].overflowing_div_ilimb(imm(n))),
                    ("wrapping_mul_iwide", true) => wrapping!(self.s[d], self.s[x].wrapping_mul_iwide(imm(n))),
                    ("checked_add_iwide", true) => checked!(self.s[d], self.s[x].checked_add_iwide(imm(n))),
                    ("overflowing_sub_iwide", true) => overflowing!(self.s[d], self.s[x].overflowing_sub_iwide(imm(n))),
                    ("checked_div_iwide", true) => checked!(self.s[d], self.s[x].checked_div_iwide(imm(n))),
                    ("checked_rem_ilimb", true) => match self.s[x].checked_rem_ilimb(imm(n)) {
                        None => Out::Nothing,
                        Some(m) => set!(self.s[d], <$s>::from_ilimb(m)),
                    },
                    ("wrapping_rem_iwide", true) => {
                        let m = self.s[x].wrapping_rem_iwide(imm(n));
                        set!(self.s[d], <$s>::from_iwide(m))
                    }
                    ("overflowing_shl", true) => overflowing!(self.s[d], self.s[x].overflowing_shl(imm(n))),
                    ("overflowing_shr", true) => overflowing!(self.s[d], self.s[x].overflowing_shr(imm(n))),
                    ("is_multiple_of", false) => val(self.u[x].is_multiple_of(self.u[y])),
                    ("next_power_of_two", false) => set!(self.u[d], self.u[x].next_power_of_two()),
                    ("wrapping_next_power_of_two", false) => {
                        wrapping!(self.u[d], self.u[x].wrapping_next_power_of_two())
                    }
                    ("checked_signed_diff", false) => {
                        checked!(self.s[d], self.u[x].checked_signed_diff(self.u[y]))
                    }
                    ("unsigned_abs", true) => set!(self.u[d], self.s[x].unsigned_abs()),
                    ("signum", true) => set!(self.s[d], self.s[x].signum()),
                    ("low", false) => set!(self.u[d], self.u[x].low()),
                    ("high", false) => set!(self.u[d], self.u[x].high()),
                    ("is_power_of_two", false) => val(self.u[x].is_power_of_two()),
                    ("checked_next_power_of_two", false) => {
                        checked!(self.u[d], self.u[x].checked_next_power_of_two())
                    }
                    ("widening_mul", false) => {
                        let (l, h) = self.u[x].widening_mul(self.u[y]);
                        self.u[d] = l;
                        self.u[(d + 1) % 4] = h;
                        val(())
                    }
                    ("carrying_mul", false) => {
                        let (l, h) = self.u[x].carrying_mul(self.u[y], self.u[d]);
                        self.u[d] = l;
                        self.u[(d + 1) % 4] = h;
                        val(())
                    }
                    (_, true) => common!(self, self.s, self.u, $s, $u, i, d, x, y, n),
                    (_, false) => common!(self, self.u, self.s, $u, $u, i, d, x, y, n),
                })
            }
        }
    };
}

machine!(M256, U256, I256, 256);
machine!(M384, U384, I384, 384);
machine!(M512, U512, I512, 512);
machine!(M1024, U1024, I1024, 1024);

pub fn load(st: &State) -> Option<Box<dyn Machine>> {
    match st.bits {
        256 => M256::load(st),
        384 => M384::load(st),
        512 => M512::load(st),
        1024 => M1024::load(st),
        _ => None,
    }
}

fn flag(j: Option<&J>) -> bool {
    matches!(j, Some(J::Bool(true)))
}

pub fn read_state(j: &J) -> Option<State> {
    let list = |k: &str| {
        j.get(k)?
            .arr()?
            .iter()
            .map(jint)
            .collect::<Option<Vec<_>>>()
    };
    Some(State {
        bits: jint(j.get("bits")?)?.to_u128()? as u32,
        checks: flag(j.get("checks")),
        u: list("u")?,
        s: list("s")?,
        c: flag(j.get("c")),
    })
}

pub fn read_ins(j: &J) -> Option<Ins> {
    let reg = |k: &str| Some(jint(j.get(k)?)?.to_u128()? as usize);
    Some(Ins {
        op: j.get("op")?.str()?.to_string(),
        sg: flag(j.get("sg")),
        d: reg("d")?,
        x: reg("x")?,
        y: reg("y")?,
        n: jint(j.get("n")?)?,
    })
}
