//! Input templates. A job's argument is a small program that builds the input:
//! literal text, symbolic bytes over a set, symbolic UTF-8 characters, symbolic
//! repetition and alternatives. Everything it builds is valid UTF-8 by
//! construction (sets used by the jobs are ASCII only).

use crate::sym::{self, range};

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, i: 0 }
    }
    pub fn u8(&mut self) -> u8 {
        let v = self.b[self.i];
        self.i += 1;
        v
    }
    pub fn u16(&mut self) -> usize {
        let v = self.b[self.i] as usize | (self.b[self.i + 1] as usize) << 8;
        self.i += 2;
        v
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let v = &self.b[self.i..self.i + n];
        self.i += n;
        v
    }
    pub fn done(&self) -> bool {
        self.i >= self.b.len()
    }
}

/// A symbolic character outside ASCII; `mask` bit 1/2/3: 2/3/4 byte forms.
pub fn uchar(mask: u8, out: &mut Vec<u8>) {
    let mut shapes: [(u8, u8, u8, u8, u8); 7] = [(0, 0, 0, 0, 0); 7];
    let mut n = 0usize;
    // lead lo, lead hi, second lo, second hi, trailing count after second
    let mut add = |m: bool, s: (u8, u8, u8, u8, u8)| {
        if m {
            shapes[n] = s;
            n += 1;
        }
    };
    add(mask & 2 != 0, (0xC2, 0xDF, 0x80, 0xBF, 0));
    add(mask & 4 != 0, (0xE0, 0xE0, 0xA0, 0xBF, 1));
    add(mask & 4 != 0, (0xE1, 0xEC, 0x80, 0xBF, 1));
    add(mask & 4 != 0, (0xED, 0xED, 0x80, 0x9F, 1));
    add(mask & 8 != 0, (0xF0, 0xF0, 0x90, 0xBF, 2));
    add(mask & 8 != 0, (0xF1, 0xF3, 0x80, 0xBF, 2));
    add(mask & 8 != 0, (0xF4, 0xF4, 0x80, 0x8F, 2));
    let k = sym::choose(0, (n - 1) as u8) as usize;
    let s = shapes[k];
    out.push(if s.0 == s.1 { s.0 } else { sym::set(&range(s.0, s.1)) });
    out.push(sym::set(&range(s.2, s.3)));
    for _ in 0..s.4 {
        out.push(sym::set(&range(0x80, 0xBF)));
    }
}

pub fn expand(r: &mut Rd, end: usize, out: &mut Vec<u8>) {
    while r.i < end {
        match r.u8() {
            b'L' => {
                let n = r.u16();
                out.extend_from_slice(r.take(n));
            }
            b'S' => {
                let mut s = [0u8; 32];
                s.copy_from_slice(r.take(32));
                out.push(sym::set(&s));
            }
            b'C' => {
                let m = r.u8();
                uchar(m, out);
            }
            b'R' => {
                let (lo, hi) = (r.u8(), r.u8());
                let n = r.u16();
                let (at, stop) = (r.i, r.i + n);
                let k = sym::choose(lo, hi);
                for _ in 0..k {
                    r.i = at;
                    expand(r, stop, out);
                }
                r.i = stop;
            }
            b'A' => {
                let n = r.u8();
                let k = sym::choose(0, n - 1);
                for i in 0..n {
                    let l = r.u16();
                    let stop = r.i + l;
                    if i == k {
                        expand(r, stop, out);
                    }
                    r.i = stop;
                }
            }
            b'X' => {
                let n = r.u16();
                let b = r.u8();
                for _ in 0..n {
                    out.push(b);
                }
            }
            _ => sym::fail("harness: bad template"),
        }
    }
}

pub fn build(arg: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(256);
    let mut r = Rd::new(arg);
    expand(&mut r, arg.len(), &mut out);
    sym::note(&out);
    out
}
pub fn text(v: &[u8]) -> &str {
    // valid by construction, see above; the replay binary checks it
    #[cfg(feature = "native")]
    {
        std::str::from_utf8(v).expect("harness: template built invalid UTF-8")
    }
    #[cfg(not(feature = "native"))]
    unsafe {
        std::str::from_utf8_unchecked(v)
    }
}
