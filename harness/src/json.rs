//! A JSON reader, enough for ITF traces.

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(v) => Some(v),
            J::Obj(v) if v.len() == 1 && v[0].0 == "#tup" => v[0].1.arr(),
            _ => None,
        }
    }
}

pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

impl<'a> P<'a> {
    pub fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        self.b.get(self.i).copied().unwrap_or(0)
    }
    pub fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == c {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at byte {}", c as char, self.i))
        }
    }
    pub fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let st = self.i;
        let mut esc = false;
        while self.i < self.b.len() && self.b[self.i] != b'"' {
            if self.b[self.i] == b'\\' {
                esc = true;
                self.i += 1;
            }
            self.i += 1;
        }
        let s = std::str::from_utf8(&self.b[st..self.i]).map_err(|e| e.to_string())?;
        self.eat(b'"')?;
        if esc {
            return Ok(s.replace("\\\"", "\"").replace("\\\\", "\\"));
        }
        Ok(s.to_string())
    }
    pub fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(b':')?;
                    let x = self.value()?;
                    v.push((k, x));
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(v));
                    }
                }
            },
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(v));
                    }
                }
            },
            b'"' => Ok(J::Str(self.string()?)),
            _ => {
                let st = self.i;
                while self.i < self.b.len()
                    && !matches!(self.b[self.i], b',' | b']' | b'}' | b' ' | b'\n' | b'\r' | b'\t')
                {
                    self.i += 1;
                }
                match &self.b[st..self.i] {
                    b"null" => Ok(J::Null),
                    b"true" => Ok(J::Bool(true)),
                    b"false" => Ok(J::Bool(false)),
                    x if !x.is_empty() => Ok(J::Num(String::from_utf8_lossy(x).into_owned())),
                    _ => Err(format!("unexpected end at byte {}", st)),
                }
            },
        }
    }
}

/// Calls f on each state of an ITF trace.
pub fn each_state<F: FnMut(usize, J) -> Result<(), String>>(
    b: &[u8],
    mut f: F,
) -> Result<usize, String> {
    let mut p = P { b, i: 0 };
    p.eat(b'{')?;
    let mut n = 0;
    loop {
        p.ws();
        let k = p.string()?;
        p.eat(b':')?;
        if k == "states" {
            p.eat(b'[')?;
            while p.peek() != b']' {
                let st = p.value()?;
                f(n, st)?;
                n += 1;
                if p.peek() == b',' {
                    p.i += 1;
                }
            }
            p.eat(b']')?;
        } else {
            p.value()?;
        }
        if p.peek() == b',' {
            p.i += 1;
        } else {
            p.eat(b'}')?;
            return Ok(n);
        }
    }
}
