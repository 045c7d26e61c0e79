//! Canonical wire encoding of Dyon values, shared with lib/wire.py.
use dyon::{Error, Link, Runtime, Variable};
use std::collections::HashMap;
use std::sync::Arc;

pub fn put_str(out: &mut Vec<u8>, s: &str) {
    out.extend_from_slice(format!("s{}:", s.len()).as_bytes());
    out.extend_from_slice(s.as_bytes());
}
pub fn put_num(out: &mut Vec<u8>, x: f64) {
    out.extend_from_slice(format!("n{:016x}", x.to_bits()).as_bytes());
}
fn put_sec(out: &mut Vec<u8>, stack: &[Variable], sec: &[Variable], d: u32) {
    out.extend_from_slice(format!("a{}:", sec.len()).as_bytes());
    for s in sec {
        put(out, stack, s, d + 1);
    }
}

/// Link contents through the public interface only.
pub fn link_items(l: &Link) -> Vec<Variable> {
    let mut r = vec![];
    let mut cur = l.clone();
    while let Some(h) = cur.head() {
        r.push(*h);
        cur = cur.tail();
        if r.len() > 2_000_000 {
            break;
        }
    }
    r
}

/// Encodes a value, following references into `stack`.
/// A reference outside the stack is encoded as `D<index>;`.
pub fn put(out: &mut Vec<u8>, stack: &[Variable], v: &Variable, d: u32) {
    if d > 200 {
        out.push(b'!');
        return;
    }
    match v {
        Variable::Ref(i) => {
            if *i < stack.len() {
                put(out, stack, &stack[*i], d + 1)
            } else {
                out.extend_from_slice(format!("D{};", i).as_bytes())
            }
        }
        Variable::Return => out.push(b'$'),
        Variable::Bool(b, None) => out.push(if *b { b't' } else { b'f' }),
        Variable::Bool(b, Some(sec)) => {
            out.push(if *b { b'T' } else { b'F' });
            put_sec(out, stack, sec, d);
        }
        Variable::F64(x, None) => put_num(out, *x),
        Variable::F64(x, Some(sec)) => {
            out.extend_from_slice(format!("N{:016x}", x.to_bits()).as_bytes());
            put_sec(out, stack, sec, d);
        }
        Variable::Vec4(v) => {
            out.push(b'v');
            for x in v {
                out.extend_from_slice(format!("{:08x}", x.to_bits()).as_bytes());
            }
        }
        Variable::Mat4(m) => {
            out.push(b'm');
            for r in m.iter() {
                for x in r {
                    out.extend_from_slice(format!("{:08x}", x.to_bits()).as_bytes());
                }
            }
        }
        Variable::Str(s) => put_str(out, s),
        Variable::Array(a) => {
            out.extend_from_slice(format!("a{}:", a.len()).as_bytes());
            for x in a.iter() {
                put(out, stack, x, d + 1);
            }
        }
        Variable::Object(o) => {
            out.extend_from_slice(format!("o{}:", o.len()).as_bytes());
            let mut ks: Vec<_> = o.keys().collect();
            ks.sort();
            for k in ks {
                put_str(out, k);
                put(out, stack, &o[k], d + 1);
            }
        }
        Variable::Link(l) => {
            let items = link_items(l);
            out.extend_from_slice(format!("l{}:", items.len()).as_bytes());
            for x in &items {
                put(out, stack, x, d + 1);
            }
        }
        Variable::Option(None) => out.extend_from_slice(b"?0"),
        Variable::Option(Some(x)) => {
            out.extend_from_slice(b"?1");
            put(out, stack, x, d + 1);
        }
        Variable::Result(Ok(x)) => {
            out.extend_from_slice(b"r1");
            put(out, stack, x, d + 1);
        }
        Variable::Result(Err(e)) => {
            out.extend_from_slice(b"r0");
            put(out, stack, &e.message, d + 1);
            out.extend_from_slice(format!("a{}:", e.trace.len()).as_bytes());
            for t in &e.trace {
                put_str(out, t);
            }
        }
        Variable::Closure(..) => out.push(b'c'),
        Variable::RustObject(_) => out.push(b'X'),
        Variable::Thread(_) => out.push(b'H'),
        Variable::In(_) => out.push(b'I'),
        Variable::UnsafeRef(_) => out.push(b'U'),
    }
}

pub fn enc(rt: &Runtime, v: &Variable) -> Vec<u8> {
    let mut o = vec![];
    put(&mut o, &rt.stack, v, 0);
    o
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Dec<'a> {
        Dec { b, p: 0 }
    }
    pub fn done(&self) -> bool {
        self.p >= self.b.len()
    }
    fn byte(&mut self) -> u8 {
        self.p += 1;
        self.b[self.p - 1]
    }
    fn count(&mut self) -> usize {
        let st = self.p;
        while self.b[self.p] != b':' {
            self.p += 1;
        }
        let n = std::str::from_utf8(&self.b[st..self.p]).unwrap().parse().unwrap();
        self.p += 1;
        n
    }
    fn hex(&mut self, n: usize) -> u64 {
        let s = std::str::from_utf8(&self.b[self.p..self.p + n]).unwrap();
        self.p += n;
        u64::from_str_radix(s, 16).unwrap()
    }
    fn sec(&mut self) -> Box<Vec<Variable>> {
        match self.val() {
            Variable::Array(a) => Box::new((*a).clone()),
            _ => panic!("harness: secret"),
        }
    }
    fn text(&mut self) -> String {
        let n = self.count();
        let s = String::from_utf8(self.b[self.p..self.p + n].to_vec()).unwrap();
        self.p += n;
        s
    }
    pub fn val(&mut self) -> Variable {
        match self.byte() {
            b't' => Variable::bool(true),
            b'f' => Variable::bool(false),
            b'T' => Variable::Bool(true, Some(self.sec())),
            b'F' => Variable::Bool(false, Some(self.sec())),
            b'n' => Variable::f64(f64::from_bits(self.hex(16))),
            b'N' => {
                let x = f64::from_bits(self.hex(16));
                Variable::F64(x, Some(self.sec()))
            }
            b's' => Variable::Str(Arc::new(self.text())),
            b'v' => {
                let mut v = [0.0f32; 4];
                for x in v.iter_mut() {
                    *x = f32::from_bits(self.hex(8) as u32);
                }
                Variable::Vec4(v)
            }
            b'm' => {
                let mut m = [[0.0f32; 4]; 4];
                for r in m.iter_mut() {
                    for x in r.iter_mut() {
                        *x = f32::from_bits(self.hex(8) as u32);
                    }
                }
                Variable::Mat4(Box::new(m))
            }
            b'a' => {
                let n = self.count();
                Variable::Array(Arc::new((0..n).map(|_| self.val()).collect()))
            }
            b'o' => {
                let n = self.count();
                let mut o = HashMap::new();
                for _ in 0..n {
                    self.byte();
                    let k = self.text();
                    let v = self.val();
                    o.insert(Arc::new(k), v);
                }
                Variable::Object(Arc::new(o))
            }
            b'l' => {
                let n = self.count();
                let mut l = Link::new();
                for _ in 0..n {
                    let v = self.val();
                    l.push(&v).unwrap();
                }
                Variable::Link(Box::new(l))
            }
            b'?' => {
                if self.byte() == b'0' {
                    Variable::Option(None)
                } else {
                    Variable::Option(Some(Box::new(self.val())))
                }
            }
            b'r' => {
                if self.byte() == b'1' {
                    Variable::Result(Ok(Box::new(self.val())))
                } else {
                    let message = self.val();
                    let trace = match self.val() {
                        Variable::Array(a) => a
                            .iter()
                            .map(|x| match x {
                                Variable::Str(s) => (**s).clone(),
                                _ => String::new(),
                            })
                            .collect(),
                        _ => vec![],
                    };
                    Variable::Result(Err(Box::new(Error { message, trace })))
                }
            }
            c => panic!("harness: bad value tag {}", c as char),
        }
    }
}
