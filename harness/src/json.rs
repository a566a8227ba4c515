//! A minimal JSON reader and writer (no dependencies).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

static NULL: J = J::Null;

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k) != &J::Null
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            J::Int(i) => *i != 0,
            _ => false,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|j| j.int() as u8).collect()
    }
    /// A text is an array of Unicode scalar values.
    pub fn text(&self) -> String {
        self.arr().iter().map(|j| std::char::from_u32(j.int() as u32).unwrap()).collect()
    }

    pub fn from_bytes(b: &[u8]) -> J {
        J::Arr(b.iter().map(|b| J::Int(*b as i64)).collect())
    }
    pub fn from_text(s: &str) -> J {
        J::Arr(s.chars().map(|c| J::Int(c as i64)).collect())
    }

    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, j) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    j.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, j)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    j.write(o);
                }
                o.push('}');
            }
        }
    }
}

pub fn parse(s: &str) -> J {
    let mut p = P { b: s.as_bytes(), i: 0 };
    p.value()
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'n' => {
                self.i += 4;
                J::Null
            }
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'"' => J::Str(self.string()),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::Arr(v);
                        }
                        b',' => self.i += 1,
                        _ => v.push(self.value()),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    match self.b[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::Obj(v);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = self.string();
                            self.ws();
                            assert_eq!(self.b[self.i], b':');
                            self.i += 1;
                            v.push((k, self.value()));
                        }
                    }
                }
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len()
                    && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit())
                {
                    self.i += 1;
                }
                J::Int(std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().unwrap())
            }
        }
    }
    fn string(&mut self) -> String {
        assert_eq!(self.b[self.i], b'"');
        self.i += 1;
        let mut v = Vec::new();
        loop {
            match self.b[self.i] {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(v).unwrap();
                }
                b'\\' => {
                    v.push(self.b[self.i + 1]);
                    self.i += 2;
                }
                c => {
                    v.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*])
    };
}
