//! Integers of the specification: sign and magnitude, independent of the code
//! under test.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    pub neg: bool,
    /// Little-endian magnitude without leading zero limbs.
    pub mag: Vec<u64>,
}

impl Big {
    pub fn norm(mut self) -> Big {
        while self.mag.last() == Some(&0) {
            self.mag.pop();
        }
        if self.mag.is_empty() {
            self.neg = false;
        }
        self
    }

    pub fn from_u128(x: u128) -> Big {
        Big { neg: false, mag: vec![x as u64, (x >> 64) as u64] }.norm()
    }

    pub fn from_i128(x: i128) -> Big {
        let mut b = Big::from_u128(x.unsigned_abs());
        b.neg = x < 0;
        b.norm()
    }

    /// Two's complement, little endian.
    pub fn from_le_bytes(bytes: &[u8], signed: bool) -> Big {
        let neg = signed && bytes[bytes.len() - 1] >= 0x80;
        let mut mag = vec![0u64; bytes.len().div_ceil(8)];
        let mut carry = 1u16;
        for (i, &b) in bytes.iter().enumerate() {
            let b = if neg {
                let x = (!b) as u16 + carry;
                carry = x >> 8;
                x as u8
            } else {
                b
            };
            mag[i / 8] |= (b as u64) << (8 * (i % 8));
        }
        if neg && carry == 1 {
            mag.push(1);
        }
        Big { neg, mag }.norm()
    }

    /// Two's complement of the given length; None if the value does not fit.
    pub fn to_le_bytes(&self, len: usize, signed: bool) -> Option<Vec<u8>> {
        let mut out = vec![0u8; len];
        for (i, l) in self.mag.iter().enumerate() {
            for k in 0..8 {
                let b = (l >> (8 * k)) as u8;
                if i * 8 + k < len {
                    out[i * 8 + k] = b;
                } else if b != 0 {
                    return None;
                }
            }
        }
        if self.neg {
            let mut carry = 1u16;
            for b in out.iter_mut() {
                let x = (!*b) as u16 + carry;
                carry = x >> 8;
                *b = x as u8;
            }
        }
        let top = out[len - 1] >= 0x80;
        if (signed && top != self.neg) || (!signed && self.neg) {
            return None;
        }
        Some(out)
    }

    pub fn parse(s: &str) -> Option<Big> {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let mut mag: Vec<u64> = Vec::with_capacity(17);
        let b = t.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let n = core::cmp::min(19, b.len() - i);
            let mut chunk = 0u64;
            let mut w = 1u64;
            for &c in &b[i..i + n] {
                chunk = chunk * 10 + (c - b'0') as u64;
                w *= 10;
            }
            let mut carry = chunk as u128;
            for l in mag.iter_mut() {
                let x = *l as u128 * w as u128 + carry;
                *l = x as u64;
                carry = x >> 64;
            }
            if carry != 0 {
                mag.push(carry as u64);
            }
            i += n;
        }
        Some(Big { neg, mag }.norm())
    }

    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 2 {
            return None;
        }
        Some(self.mag.first().copied().unwrap_or(0) as u128
            | (self.mag.get(1).copied().unwrap_or(0) as u128) << 64)
    }
}

impl core::fmt::Display for Big {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        let mut m = self.mag.clone();
        let mut parts = vec![];
        while !m.is_empty() {
            let mut r = 0u128;
            for l in m.iter_mut().rev() {
                let x = (r << 64) | *l as u128;
                *l = (x / 10_000_000_000_000_000_000) as u64;
                r = x % 10_000_000_000_000_000_000;
            }
            parts.push(r as u64);
            while m.last() == Some(&0) {
                m.pop();
            }
        }
        if self.neg {
            f.write_str("-")?;
        }
        match parts.pop() {
            None => f.write_str("0"),
            Some(p) => {
                write!(f, "{}", p)?;
                for p in parts.iter().rev() {
                    write!(f, "{:019}", p)?;
                }
                Ok(())
            },
        }
    }
}
