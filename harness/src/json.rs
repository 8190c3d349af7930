//! Just enough JSON: nested arrays of integers (the specification reads nothing else).
use std::fs::File;
use std::io::{BufWriter, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    A(Vec<J>),
}

pub fn i<T: TryInto<i64>>(x: T) -> J {
    J::I(x.try_into().ok().unwrap())
}
pub fn b(x: bool) -> J {
    J::I(x as i64)
}
pub fn a(v: Vec<J>) -> J {
    J::A(v)
}
pub fn cps(s: &str) -> J {
    J::A(s.chars().map(|c| J::I(c as i64)).collect())
}
pub fn bytes(s: &[u8]) -> J {
    J::A(s.iter().map(|&c| J::I(c as i64)).collect())
}
pub fn ints(v: &[i64]) -> J {
    J::A(v.iter().map(|&c| J::I(c)).collect())
}

impl J {
    pub fn write(&self, out: &mut Vec<u8>) {
        match self {
            J::I(n) => {
                let _ = write!(out, "{}", n);
            }
            J::A(v) => {
                out.push(b'[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        out.push(b',');
                    }
                    x.write(out);
                }
                out.push(b']');
            }
        }
    }
}

/// Records, dealt out to `n` files so that as many checkers can run in parallel.
pub struct Emitter {
    files: Vec<BufWriter<File>>,
    pub count: usize,
    buf: Vec<u8>,
}

impl Emitter {
    pub fn new(dir: &str, stem: &str, n: usize) -> Emitter {
        std::fs::create_dir_all(dir).unwrap();
        Emitter {
            files: (0..n)
                .map(|k| {
                    BufWriter::with_capacity(
                        1 << 20,
                        File::create(format!("{}/{}.{}.ndjson", dir, stem, k)).unwrap(),
                    )
                })
                .collect(),
            count: 0,
            buf: Vec::new(),
        }
    }
    pub fn emit(&mut self, j: &J) {
        self.buf.clear();
        j.write(&mut self.buf);
        self.buf.push(b'\n');
        let n = self.files.len();
        self.files[self.count % n].write_all(&self.buf).unwrap();
        self.count += 1;
    }
    pub fn reserve(&mut self, n: usize) {
        self.buf.reserve(n);
    }
    /// To one particular file (histories must stay together).
    pub fn emit_to(&mut self, k: usize, j: &J) {
        self.buf.clear();
        j.write(&mut self.buf);
        self.buf.push(b'\n');
        let n = self.files.len();
        self.files[k % n].write_all(&self.buf).unwrap();
        self.count += 1;
    }
    pub fn finish(mut self) -> usize {
        for f in &mut self.files {
            f.flush().unwrap();
        }
        self.count
    }
}

/// Reader for the same subset.
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let j = parse_at(b, &mut i);
    j
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}
fn parse_at(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    if b[*i] == b'[' {
        *i += 1;
        let mut v = Vec::new();
        loop {
            ws(b, i);
            if b[*i] == b']' {
                *i += 1;
                return J::A(v);
            }
            v.push(parse_at(b, i));
            ws(b, i);
            if b[*i] == b',' {
                *i += 1;
            }
        }
    }
    let neg = b[*i] == b'-';
    if neg {
        *i += 1;
    }
    let mut n = 0i64;
    let start = *i;
    while *i < b.len() && b[*i].is_ascii_digit() {
        n = n * 10 + (b[*i] - b'0') as i64;
        *i += 1;
    }
    assert!(*i > start, "bad json");
    J::I(if neg { -n } else { n })
}
impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not an array"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(v) => *v,
            _ => panic!("not an int"),
        }
    }
    pub fn text(&self) -> String {
        self.arr()
            .iter()
            .map(|x| char::from_u32(x.int() as u32).unwrap())
            .collect()
    }
}
