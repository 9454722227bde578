//! Parsing. Argument 0 is the radix, the others are the characters.

use crate::big::Big;
use crate::out::{arg, res, Out};

fn text(args: &[Big]) -> String {
    (1..args.len())
        .map(|i| match char::from_u32(arg::<u32>(args, i)) {
            Some(c) => c,
            None => std::panic::panic_any(crate::BadArg(i)),
        })
        .collect()
}

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, $sg:literal, $form:ident, $op:ident, $args:ident) => {{
        Some(match ($form, $op) {
            ("radix", "parse") => res(<$t>::from_str_radix(&text($args), arg($args, 0))),
            ("std", "parse") => res(<$t as core::str::FromStr>::from_str(&text($args))),
            ("std", "str::parse") => res(text($args).parse::<$t>()),
            _ => return None,
        })
    }};
}
family!(all);
