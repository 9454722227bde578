//! What errors say. Argument 0 is a value to convert, argument 1 a radix, the
//! others are the characters of a text.

use crate::big::Big;
use crate::out::{arg, res, val, Out, Push, Text};
use core::num::{NonZeroI64, NonZeroU64};

fn text(args: &[Big]) -> String {
    (2..args.len())
        .map(|i| match char::from_u32(arg::<u32>(args, i)) {
            Some(c) => c,
            None => std::panic::panic_any(crate::BadArg(i)),
        })
        .collect()
}

fn said<T: Push, E>(x: Result<T, E>, print: impl Fn(&E) -> String) -> Out {
    match x {
        Ok(x) => val(x),
        Err(e) => val(Text(print(&e))),
    }
}

fn convert<T>(x: Result<T, core::num::ParseIntError>) -> Result<T, i256::ParseIntError> {
    x.map_err(i256::ParseIntError::from)
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, $sg:literal, $form:ident, $op:ident, $args:ident) => {{
        let radix = || <$t>::from_str_radix(&text($args), arg($args, 1));
        let decimal = || text($args).parse::<$t>();
        Some(match ($form, $op) {
            ("radix", "{}") => said(radix(), |e| format!("{}", e)),
            ("radix", "{:?}") => said(radix(), |e| format!("{:?}", e)),
            ("radix", "kind") => res(radix()),
            ("decimal", "{}") => said(decimal(), |e| format!("{}", e)),
            ("decimal", "{:?}") => said(decimal(), |e| format!("{:?}", e)),
            ("decimal", "kind") => res(decimal()),
            ("from std", "i64") => res(convert(text($args).parse::<i64>())),
            ("from std", "u64") => res(convert(text($args).parse::<u64>())),
            ("from std", "i128") => res(convert(text($args).parse::<i128>())),
            ("from std", "u128") => res(convert(text($args).parse::<u128>())),
            ("from std", "nonzero i64") => res(convert(text($args).parse::<NonZeroI64>().map(|x| x.get()))),
            ("from std", "nonzero u64") => res(convert(text($args).parse::<NonZeroU64>().map(|x| x.get()))),
            ("std said", "i64 {}") => said(convert(text($args).parse::<i64>()), |e| format!("{}", e)),
            ("std said", "i64 {:?}") => said(convert(text($args).parse::<i64>()), |e| format!("{:?}", e)),
            ("std said", "nonzero i64 {}") => {
                said(convert(text($args).parse::<NonZeroI64>().map(|x| x.get())), |e| format!("{}", e))
            },
            ("std said", "i128 {}") => said(convert(text($args).parse::<i128>()), |e| format!("{}", e)),
            ("std said", "u128 {:?}") => said(convert(text($args).parse::<u128>()), |e| format!("{:?}", e)),
            ("conversion", print) => {
                let show = |e: &i256::TryFromIntError| match print {
                    "{}" => format!("{}", e),
                    _ => e.to_string(),
                };
                if $sg {
                    said(<$u>::try_from(arg::<$s>($args, 0)), show)
                } else {
                    said(<$s>::try_from(arg::<$u>($args, 0)), show)
                }
            },
            _ => return None,
        })
    }};
}
family!(all);
