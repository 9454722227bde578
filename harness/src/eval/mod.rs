//! One function per operation family: (type, form, operation, arguments) to
//! the real call. Only the public interface of the crate is used.

use crate::big::Big;
use crate::out::Out;

/// Instantiates a family's evaluator for all eight types.
#[allow(unused_macros)]
macro_rules! family {
    ($m:ident) => {
        pub fn eval(ty: (u32, bool), form: &str, op: &str, args: &[Big]) -> Option<Out> {
            use ::i256::{I1024, I256, I384, I512, U1024, U256, U384, U512};
            match ty {
                (256, false) => { $m!(U256, U256, I256, 256, false, form, op, args) },
                (256, true) => { $m!(I256, U256, I256, 256, true, form, op, args) },
                (384, false) => { $m!(U384, U384, I384, 384, false, form, op, args) },
                (384, true) => { $m!(I384, U384, I384, 384, true, form, op, args) },
                (512, false) => { $m!(U512, U512, I512, 512, false, form, op, args) },
                (512, true) => { $m!(I512, U512, I512, 512, true, form, op, args) },
                (1024, false) => { $m!(U1024, U1024, I1024, 1024, false, form, op, args) },
                (1024, true) => { $m!(I1024, U1024, I1024, 1024, true, form, op, args) },
                _ => None,
            }
        }
    };
}

#[cfg(feature = "addsub")]
mod addsub;
#[cfg(feature = "mul")]
mod mul;
#[cfg(feature = "div")]
mod div;
#[cfg(feature = "powlog")]
mod powlog;
#[cfg(feature = "shift")]
mod shift;
#[cfg(feature = "bits")]
mod bits;
#[cfg(feature = "scalar")]
mod scalar;
#[cfg(feature = "order")]
mod order;
#[cfg(feature = "conv")]
mod conv;
#[cfg(feature = "encode")]
mod encode;
#[cfg(feature = "parse")]
mod parse;
#[cfg(feature = "format")]
mod format;
#[cfg(feature = "operators")]
mod operators;
#[cfg(feature = "numtraits")]
mod numtraits;
#[cfg(feature = "blocks")]
mod blocks;
#[cfg(feature = "errors")]
mod errors;

/// fam: the only family to ask; empty for all of them.
pub fn eval(fam: &str, ty: (u32, bool), form: &str, op: &str, args: &[Big]) -> Option<Out> {
    let _ = (fam, ty, form, op, args);
    #[cfg(feature = "addsub")]
    if fam.is_empty() || fam == "addsub" {
        if let Some(o) = addsub::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "mul")]
    if fam.is_empty() || fam == "mul" {
        if let Some(o) = mul::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "div")]
    if fam.is_empty() || fam == "div" {
        if let Some(o) = div::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "powlog")]
    if fam.is_empty() || fam == "powlog" {
        if let Some(o) = powlog::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "shift")]
    if fam.is_empty() || fam == "shift" {
        if let Some(o) = shift::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "bits")]
    if fam.is_empty() || fam == "bits" {
        if let Some(o) = bits::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "scalar")]
    if fam.is_empty() || fam == "scalar" {
        if let Some(o) = scalar::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "order")]
    if fam.is_empty() || fam == "order" {
        if let Some(o) = order::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "conv")]
    if fam.is_empty() || fam == "conv" {
        if let Some(o) = conv::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "encode")]
    if fam.is_empty() || fam == "encode" {
        if let Some(o) = encode::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "parse")]
    if fam.is_empty() || fam == "parse" {
        if let Some(o) = parse::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "format")]
    if fam.is_empty() || fam == "format" {
        if let Some(o) = format::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "operators")]
    if fam.is_empty() || fam == "operators" {
        if let Some(o) = operators::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "numtraits")]
    if fam.is_empty() || fam == "numtraits" {
        if let Some(o) = numtraits::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "blocks")]
    if fam.is_empty() || fam == "blocks" {
        if let Some(o) = blocks::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    #[cfg(feature = "errors")]
    if fam.is_empty() || fam == "errors" {
        if let Some(o) = errors::eval(ty, form, op, args) {
            return Some(o);
        }
    }
    None
}
