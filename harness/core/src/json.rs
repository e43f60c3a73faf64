//! Minimal JSON, enough for the cases and the event logs (no floats, no null).
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(m) => m.get(k),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("harness: missing key {}", k))
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("harness: not a string: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            _ => panic!("harness: not an int: {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => panic!("harness: not a bool: {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("harness: not an array: {:?}", self),
        }
    }
    /// A text given as an array of code points.
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| char::from_u32(c.int() as u32).expect("harness: bad char")).collect()
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|c| c.int()).collect()
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => write_str(s, o),
            J::A(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.write(o);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write_str(k, o);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn write_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\x20'..='\x7e' => o.push(c),
            c => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
        }
    }
    o.push('"');
}

pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn i(x: impl TryInto<i64>) -> J {
    J::I(x.try_into().ok().expect("harness: int range"))
}
pub fn text(x: &str) -> J {
    J::A(x.chars().map(|c| J::I(c as u32 as i64)).collect())
}
pub fn ints(x: &[i64]) -> J {
    J::A(x.iter().map(|v| J::I(*v)).collect())
}
pub fn obj(kv: Vec<(&str, J)>) -> J {
    J::O(kv.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "harness: trailing JSON");
    v
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    break;
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':', "harness: JSON colon");
                *p += 1;
                let v = val(b, p);
                m.insert(k, v);
            }
            J::O(m)
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    break;
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                a.push(val(b, p));
            }
            J::A(a)
        }
        b'"' => J::S(string(b, p)),
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'0'..=b'9') {
                *p += 1;
            }
            J::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("harness: JSON int"))
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"', "harness: JSON string");
    *p += 1;
    let mut o: Vec<u8> = Vec::new();
    let mut hi: u32 = 0;
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(o).unwrap();
            }
            b'\\' => {
                let e = b[*p + 1];
                *p += 2;
                match e {
                    b'n' => o.push(b'\n'),
                    b't' => o.push(b'\t'),
                    b'r' => o.push(b'\r'),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'u' => {
                        let u = u32::from_str_radix(std::str::from_utf8(&b[*p..*p + 4]).unwrap(), 16).unwrap();
                        *p += 4;
                        if (0xD800..0xDC00).contains(&u) {
                            hi = u;
                            continue;
                        }
                        let c = if (0xDC00..0xE000).contains(&u) {
                            0x10000 + ((hi - 0xD800) << 10) + (u - 0xDC00)
                        } else {
                            u
                        };
                        let mut buf = [0; 4];
                        o.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut buf).as_bytes());
                    }
                    c => o.push(c),
                }
            }
            c => {
                o.push(c);
                *p += 1;
            }
        }
    }
}
