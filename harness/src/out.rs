//! What a call of the code under test may answer, in the vocabulary of the
//! specification.

use crate::big::Big;
use core::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Panic,
    Nothing,
    Err(String),
    V(Vec<Big>),
}

impl Out {
    /// Whether this observed answer is one the specification allows.
    pub fn allowed_by(&self, want: &Out) -> bool {
        match (self, want) {
            (Out::Err(_), Out::Err(k)) if k == "Any" => true,
            _ => self == want,
        }
    }
}

impl core::fmt::Display for Out {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        match self {
            Out::Panic => f.write_str("panic"),
            Out::Nothing => f.write_str("nothing"),
            Out::Err(k) => write!(f, "error {}", k),
            Out::V(l) => {
                f.write_str("[")?;
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        f.write_str(", ")?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_str("]")
            },
        }
    }
}

/// Values the code under test returns.
pub trait Push {
    fn push(&self, v: &mut Vec<Big>);
}

/// Values the code under test takes.
pub trait Take: Sized {
    fn take(b: &Big) -> Option<Self>;
}

macro_rules! prim {
    ($($t:ty, $sg:literal;)*) => {$(
        impl Push for $t {
            #[inline(always)]
            fn push(&self, v: &mut Vec<Big>) {
                v.push(Big::from_le_bytes(&self.to_le_bytes(), $sg));
            }
        }
        impl Take for $t {
            #[inline(always)]
            fn take(b: &Big) -> Option<Self> {
                let v = b.to_le_bytes(core::mem::size_of::<$t>(), $sg)?;
                Some(<$t>::from_le_bytes(v.try_into().ok()?))
            }
        }
    )*};
}
prim! {
    u8, false; u16, false; u32, false; u64, false; u128, false; usize, false;
    i8, true; i16, true; i32, true; i64, true; i128, true; isize, true;
    i256::U256, false; i256::U384, false; i256::U512, false; i256::U1024, false;
    i256::I256, true; i256::I384, true; i256::I512, true; i256::I1024, true;
}

impl Push for bool {
    fn push(&self, v: &mut Vec<Big>) {
        v.push(Big::from_u128(*self as u128));
    }
}
impl Take for bool {
    fn take(b: &Big) -> Option<Self> {
        match b.to_u128()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
}
impl Push for Ordering {
    fn push(&self, v: &mut Vec<Big>) {
        v.push(Big::from_i128(*self as i8 as i128));
    }
}
impl<A: Push, B: Push> Push for (A, B) {
    fn push(&self, v: &mut Vec<Big>) {
        self.0.push(v);
        self.1.push(v);
    }
}
impl<A: Push, const N: usize> Push for [A; N] {
    fn push(&self, v: &mut Vec<Big>) {
        for x in self {
            x.push(v);
        }
    }
}
/// Text: one integer per character.
pub struct Text(pub String);
impl Push for Text {
    fn push(&self, v: &mut Vec<Big>) {
        for c in self.0.chars() {
            v.push(Big::from_u128(c as u128));
        }
    }
}

pub fn val<T: Push>(x: T) -> Out {
    let mut v = Vec::new();
    x.push(&mut v);
    Out::V(v)
}

pub fn opt<T: Push>(x: Option<T>) -> Out {
    match x {
        None => Out::Nothing,
        Some(x) => val(x),
    }
}

pub fn res<T: Push>(x: Result<T, i256::ParseIntError>) -> Out {
    match x {
        Err(e) => Out::Err(format!("{:?}", e.kind())),
        Ok(x) => val(x),
    }
}

/// Argument i as a value of type T; the specification only supplies arguments
/// in the range of the parameter they are for.
pub fn arg<T: Take>(args: &[Big], i: usize) -> T {
    match args.get(i).and_then(T::take) {
        Some(x) => x,
        None => std::panic::panic_any(crate::BadArg(i)),
    }
}
