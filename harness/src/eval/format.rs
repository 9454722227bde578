//! Formatting. Argument 1 is a radix, argument 2 the spare room in the buffer,
//! argument 3 the size of a buffer that is too small, argument 4 a width.

use crate::big::Big;
use crate::out::{arg, res, val, Out, Text};

macro_rules! all {
    ($t:ident, $u:ident, $s:ident, $bits:literal, $sg:literal, $form:ident, $op:ident, $args:ident) => {{
        let a = || arg::<$t>($args, 0);
        let radix = || arg::<u32>($args, 1);
        let printed = |room: usize| -> String {
            let mut buffer = vec![b'#'; room];
            let r = a().to_str_radix(&mut buffer, radix());
            String::from_utf8(r.to_vec()).unwrap_or_else(|_| "not text".into())
        };
        let room = || $bits + $sg as usize + arg::<usize>($args, 2);
        let width = || arg::<usize>($args, 4);
        Some(match ($form, $op) {
            ("display", "{}") => val(Text(format!("{}", a()))),
            ("display", "{:?}") => val(Text(format!("{:?}", a()))),
            ("display", "to_string") => val(Text(a().to_string())),
            ("display", "{:+}") => val(Text(format!("{:+}", a()))),
            ("hex", "{:x}") => val(Text(format!("{:x}", a()))),
            ("hex", "{:#x}") => val(Text(format!("{:#x}", a()))),
            ("hex", "{:X}") => val(Text(format!("{:X}", a()))),
            ("hex", "{:#X}") => val(Text(format!("{:#X}", a()))),
            ("octal", "{:o}") => val(Text(format!("{:o}", a()))),
            ("octal", "{:#o}") => val(Text(format!("{:#o}", a()))),
            ("binary", "{:b}") => val(Text(format!("{:b}", a()))),
            ("binary", "{:#b}") => val(Text(format!("{:#b}", a()))),
            ("exponent", "{:e}") => val(Text(format!("{:e}", a()))),
            ("exponent", "{:E}") => val(Text(format!("{:E}", a()))),
            ("exponent", "{:+e}") => val(Text(format!("{:+e}", a()))),
            ("exponent", "{:+E}") => val(Text(format!("{:+E}", a()))),
            ("width", "{:*>70x}") => val(Text(format!("{:*>70x}", a()))),
            ("width", "{:*>30X}") => val(Text(format!("{:*>30X}", a()))),
            ("width", "{:*>130o}") => val(Text(format!("{:*>130o}", a()))),
            ("width", "{:*>300b}") => val(Text(format!("{:*>300b}", a()))),
            ("width", "{:0>9x}") => val(Text(format!("{:0>9x}", a()))),
            ("width", "{:0>97X}") => val(Text(format!("{:0>97X}", a()))),
            ("width", "{:40o}") => val(Text(format!("{:40o}", a()))),
            ("width", "{:65b}") => val(Text(format!("{:65b}", a()))),
            ("width", "{:>w$x}") => val(Text(format!("{:>w$x}", a(), w = width()))),
            ("width", "{:_>w$X}") => val(Text(format!("{:_>w$X}", a(), w = width()))),
            ("width", "{:w$o}") => val(Text(format!("{:w$o}", a(), w = width()))),
            ("width", "{:0>w$b}") => val(Text(format!("{:0>w$b}", a(), w = width()))),
            ("radix", "to_str_radix") => val(Text(printed(room()))),
            ("radix", "small buffer") => val(Text(printed(arg::<usize>($args, 3)))),
            ("parse back", "{}") => res(format!("{}", a()).parse::<$t>()),
            ("parse back", "{:?}") => res(format!("{:?}", a()).parse::<$t>()),
            ("parse back", "{:+}") => res(format!("{:+}", a()).parse::<$t>()),
            ("parse back", "to_str_radix") => res(<$t>::from_str_radix(&printed(room()), radix())),
            ("parse back", "{:x}") => res(<$u>::from_str_radix(&format!("{:x}", a()), 16)),
            ("parse back", "{:X}") => res(<$u>::from_str_radix(&format!("{:X}", a()), 16)),
            ("parse back", "{:o}") => res(<$u>::from_str_radix(&format!("{:o}", a()), 8)),
            ("parse back", "{:b}") => res(<$u>::from_str_radix(&format!("{:b}", a()), 2)),
            _ => return None,
        })
    }};
}
family!(all);
