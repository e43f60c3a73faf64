//! A byte source with scripted chunk sizes, interruptions and a failure.
use crate::json::J;
use std::io::{self, Read};

pub struct Source {
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<i64>, // sizes used cyclically; 0 = an Interrupted error
    ci: usize,
    fail_at: Option<usize>,
    kind: i64,
}

impl Source {
    pub fn new(case: &J) -> Self {
        let data = hex(case.at("hex").str());
        let (chunks, fail_at, kind) = match case.get("src") {
            None => (vec![], None, 0),
            Some(s) => (
                s.at("chunks").ints(),
                match s.at("fail").int() {
                    -1 => None,
                    n => Some(n as usize),
                },
                s.at("kind").int(),
            ),
        };
        Source { data, pos: 0, chunks, ci: 0, fail_at, kind }
    }
}

/// Reads a case's document from its source; kind 99: as a string, if it is one.
pub fn read<T: static_xml::de::Deserialize>(case: &J) -> Result<T, static_xml::de::Error> {
    let src = Source::new(case);
    if src.kind == 99 {
        if let Ok(s) = std::str::from_utf8(&src.data) {
            return static_xml::de::from_str(s);
        }
    }
    static_xml::de::read(src)
}

pub fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let end = self.fail_at.unwrap_or(self.data.len()).min(self.data.len());
        if self.pos >= end && self.fail_at.is_some() {
            let k = match self.kind {
                0 => io::ErrorKind::Other,
                1 => io::ErrorKind::ConnectionReset,
                2 => io::ErrorKind::UnexpectedEof,
                3 => io::ErrorKind::WouldBlock,
                _ => io::ErrorKind::TimedOut,
            };
            return Err(io::Error::new(k, "injected"));
        }
        let want = if self.chunks.is_empty() {
            buf.len()
        } else {
            let c = self.chunks[self.ci % self.chunks.len()];
            self.ci += 1;
            if c == 0 {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            c as usize
        };
        let n = want.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
