//! Parser for the textual LLVM IR that rustc emits, and its pre-decoded form.

use crate::expr::{Bin, FxMap};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(usize, Box<Ty>),
    Vec(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

pub const OBJ_SHIFT: u32 = 24;
/// relative table entries from here on are indices into Module::rel
pub const REL: u32 = 0x4000_0000;
pub const FN_BASE: u64 = 1 << 62;

impl Ty {
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => ((*w as usize + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Void | Ty::Meta => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => (self.size() * 8) as u32,
        }
    }
    /// Store size
    pub fn store(&self) -> usize {
        match self {
            Ty::Int(w) => (*w as usize + 7) / 8,
            _ => self.size(),
        }
    }
    /// Allocation size
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(w) => {
                let s = (*w as usize + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as usize + 7) / 8,
            Ty::Struct(..) => {
                let (o, s) = self.layout();
                let _ = o;
                s
            }
            Ty::Void | Ty::Meta => 0,
        }
    }
    pub fn layout(&self) -> (Vec<usize>, usize) {
        if let Ty::Struct(f, p) = self {
            let mut off = 0;
            let mut v = vec![];
            for t in f {
                if !p {
                    let a = t.align();
                    off = (off + a - 1) / a * a;
                }
                v.push(off);
                off += t.size();
            }
            if !p {
                let a = self.align();
                off = (off + a - 1) / a * a;
            }
            (v, off)
        } else {
            (vec![], 0)
        }
    }
    /// Scalar components with byte offsets.  Vectors of sub-byte integers are not addressable
    /// per element: flagged by offset usize::MAX (handled by load/store).
    pub fn comps(&self, base: usize, out: &mut Vec<(u32, usize)>) {
        match self {
            Ty::Int(w) => out.push((*w, base)),
            Ty::Ptr | Ty::F64 => out.push((64, base)),
            Ty::F32 => out.push((32, base)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.comps(base + i * t.size(), out)
                }
            }
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.comps(base + i * t.store(), out)
                }
            }
            Ty::Struct(f, _) => {
                let (o, _) = self.layout();
                for (t, o) in f.iter().zip(o) {
                    t.comps(base + o, out)
                }
            }
            Ty::Void | Ty::Meta => {}
        }
    }
    pub fn ncomps(&self) -> usize {
        match self {
            Ty::Arr(n, t) | Ty::Vec(n, t) => n * t.ncomps(),
            Ty::Struct(f, _) => f.iter().map(|t| t.ncomps()).sum(),
            Ty::Void | Ty::Meta => 0,
            _ => 1,
        }
    }
    /// (type, first component) reached through constant indices
    fn path(&self, idx: &[usize]) -> (Ty, usize) {
        if idx.is_empty() {
            return (self.clone(), 0);
        }
        match self {
            Ty::Struct(f, _) => {
                let off: usize = f[..idx[0]].iter().map(|t| t.ncomps()).sum();
                let (t, o) = f[idx[0]].path(&idx[1..]);
                (t, o + off)
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let (t, o) = e.path(&idx[1..]);
                (t, o + idx[0] * e.ncomps())
            }
            _ => panic!("bad aggregate path"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    R(u32),
    C(u64),
    /// index into Module::wide (constants wider than 64 bits)
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Bin, w: u32, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, dst: u32, a: Op, b: Op },
    Cast { k: Cast, from: u32, to: u32, dst: u32, a: Op },
    /// element-wise move of n components
    Move { dst: u32, src: Box<[Op]> },
    Gep { dst: u32, base: Op, off: u64, idx: Box<[(Op, u32, u64)]> },
    Load { dst: u32, comps: Box<[(u32, u32)]>, ptr: Op },
    Store { comps: Box<[(u32, u32, Op)]>, ptr: Op },
    Alloca { dst: u32, size: u64, align: u64 },
    Call { dst: u32, ndst: u32, dstw: u32, callee: Callee, args: Box<[Op]>, normal: Option<(u32, bool)> },
    Select { dst: u32, w: u32, c: Op, a: Box<[Op]>, b: Box<[Op]>, ptr: bool },
    /// vector select with a vector condition
    VSelect { dst: u32, w: u32, c: Box<[Op]>, a: Box<[Op]>, b: Box<[Op]> },
    /// concatenate the components into one integer (little endian) / or split
    Pack { dst: u32, w: u32, src: Box<[Op]> },
    Split { dst: u32, from: u32, w: u32, n: u32, src: Op },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, def: u32, cases: Box<[(u128, u32)]> },
    Ret { v: Box<[Op]> },
    AtomicRmw { op: String, w: u32, dst: u32, ptr: Op, v: Op },
    CmpXchg { w: u32, dst: u32, ptr: Op, cmp: Op, new: Op },
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub n: u32,
    pub inc: Vec<(u32, Box<[Op]>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, u32)>, // base reg, ncomps
    pub nparam_comps: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub error: Option<String>,
}

pub struct Global {
    pub name: String,
    pub bytes: Vec<u8>,
    pub constant: bool,
    pub align: usize,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub wide: Vec<u128>,
    pub rel: Vec<i64>,
}

impl Module {
    pub fn global_addr(i: u32) -> u64 {
        ((i as u64) + 16) << OBJ_SHIFT
    }
    pub fn func_addr(i: u32) -> u64 {
        FN_BASE + (i as u64) * 16
    }
}

/// where a global's line says it is an alias (a string's text may say so too)
fn find_alias(r: &str) -> Option<usize> {
    let head = &r[..r.find('"').unwrap_or(r.len())];
    head.find(" alias ")
}

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

type R<T> = Result<T, String>;

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_')
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') {
            self.p += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    /// eat a whole word
    fn word(&mut self, t: &str) -> bool {
        self.ws();
        let e = self.p + t.len();
        if self.s[self.p..].starts_with(t.as_bytes()) && !self.s.get(e).map_or(false, |&c| is_name(c)) {
            self.p = e;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{t}` at `{}`", self.rest()))
        }
    }
    fn rest(&self) -> String {
        let e = (self.p + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.p.min(e)..e]).into_owned()
    }
    fn ident(&mut self) -> &'a str {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && is_name(self.s[self.p]) {
            self.p += 1
        }
        std::str::from_utf8(&self.s[b..self.p]).unwrap()
    }
    fn peek_ident(&mut self) -> &'a str {
        let p = self.p;
        let r = self.ident();
        self.p = p;
        r
    }
    /// after % or @
    fn name(&mut self) -> String {
        if self.s.get(self.p) == Some(&b'"') {
            self.p += 1;
            let b = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = String::from_utf8_lossy(&self.s[b..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            self.ident().to_string()
        }
    }
    fn num(&mut self) -> R<u64> {
        let w = self.ident();
        w.parse().map_err(|_| format!("number at `{w}` {}", self.rest()))
    }
    fn skip_parens(&mut self) {
        // at '('
        self.ws();
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.p += 1;
                let n = self.num()? as usize;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ty::Arr(n, Box::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.struct_ty(true)?;
                    self.expect(">")?;
                    t
                } else {
                    let n = self.num()? as usize;
                    self.expect("x")?;
                    let t = self.ty()?;
                    self.expect(">")?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            b'{' => self.struct_ty(false)?,
            _ => {
                let w = self.ident();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" => Ty::Meta,
                    "half" => Ty::Int(16),
                    "fp128" | "x86_fp80" => Ty::Int(128),
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u32>().ok()) {
                            Ty::Int(n)
                        } else {
                            return Err(format!("type? `{w}` {}", self.rest()));
                        }
                    }
                }
            }
        };
        Ok(t)
    }
    fn struct_ty(&mut self, packed: bool) -> R<Ty> {
        self.expect("{")?;
        let mut f = vec![];
        if !self.eat("}") {
            loop {
                f.push(self.ty()?);
                if self.eat("}") {
                    break;
                }
                self.expect(",")?;
            }
        }
        Ok(Ty::Struct(f, packed))
    }

    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'[' || c == b'<' || c == b'{' {
            return true;
        }
        let w = self.peek_ident();
        matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half")
            || w.strip_prefix('i').map_or(false, |x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()))
    }

    /// Skip attribute words until `stop` says so
    fn skip_attrs(&mut self, stop: fn(&mut Cur) -> bool) {
        loop {
            if stop(self) {
                return;
            }
            let c = self.peek();
            if c == b'"' {
                self.p += 1;
                while self.s[self.p] != b'"' {
                    self.p += 1
                }
                self.p += 1;
                if self.peek() == b'=' {
                    self.p += 1;
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                    self.p += 1;
                }
                continue;
            }
            if c == b'#' {
                self.p += 1;
                self.ident();
                continue;
            }
            let w = self.ident();
            if w.is_empty() {
                return;
            }
            if self.s.get(self.p) == Some(&b'(') {
                self.skip_parens();
            } else if w == "align" || w == "cc" || w == "alignstack" {
                self.ws();
                if self.peek().is_ascii_digit() {
                    self.ident();
                }
            }
        }
    }
}

fn value_start(c: &mut Cur) -> bool {
    let b = c.peek();
    if matches!(b, b'%' | b'@' | b'-' | b'<' | b'{' | b'[' | b'!' | b',' | b')') || b.is_ascii_digit() || b == 0 {
        return true;
    }
    if b == b'c' && c.s.get(c.p + 1) == Some(&b'"') {
        return true;
    }
    matches!(
        c.peek_ident(),
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "splat"
            | "getelementptr"
            | "inttoptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "trunc"
            | "sub"
            | "add"
            | "mul"
            | "bitcast"
            | "none"
            | "xor"
            | "asm"
    )
}

pub struct Parser {
    pub m: Module,
}

/// Constant: component values
impl Parser {
    fn wide(&mut self, v: u128) -> Op {
        self.m.wide.push(v);
        Op::W(self.m.wide.len() as u32 - 1)
    }

    fn int_op(&mut self, w: u32, v: i128) -> Op {
        let m = crate::expr::mask(w as u16);
        let v = v as u128 & m;
        if w > 64 {
            self.wide(v)
        } else {
            Op::C(v as u64)
        }
    }

    fn undef(&mut self, t: &Ty) -> Vec<Op> {
        let mut c = vec![];
        t.comps(0, &mut c);
        c.iter().map(|&(w, _)| self.int_op(w, 0)).collect()
    }

    /// Constant expression value (type already consumed), as u128 for scalars
    fn konst(&mut self, c: &mut Cur, t: &Ty) -> R<Vec<Op>> {
        let b = c.peek();
        if b == b'@' {
            c.p += 1;
            let n = c.name();
            return Ok(vec![Op::C(self.sym(&n)?)]);
        }
        if b == b'-' || b.is_ascii_digit() {
            let neg = c.eat("-");
            let w = c.ident();
            if w.starts_with("0x") || w.contains('.') {
                // floating point literal
                if let Some(h) = w.strip_prefix("0x") {
                    let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    return Ok(vec![Op::C(v)]);
                }
                let rest_exp = if c.s.get(c.p) == Some(&b'+') {
                    c.p += 1;
                    format!("+{}", c.ident())
                } else {
                    String::new()
                };
                let f: f64 = format!("{w}{rest_exp}").parse().map_err(|_| format!("float {w}"))?;
                let f = if neg { -f } else { f };
                let v = if *t == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                return Ok(vec![Op::C(v)]);
            }
            let v: u128 = w.parse().map_err(|_| format!("int literal {w}"))?;
            let v = if neg { (v as i128).wrapping_neg() } else { v as i128 };
            return Ok(vec![self.int_op(t.bits(), v)]);
        }
        if b == b'c' && c.s.get(c.p + 1) == Some(&b'"') {
            c.p += 2;
            let mut v = vec![];
            while c.s[c.p] != b'"' {
                if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' {
                    v.push(Op::C(b'\\' as u64));
                    c.p += 2;
                } else if c.s[c.p] == b'\\' {
                    let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                    v.push(Op::C(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                    c.p += 3;
                } else {
                    v.push(Op::C(c.s[c.p] as u64));
                    c.p += 1;
                }
            }
            c.p += 1;
            return Ok(v);
        }
        if b == b'[' || b == b'{' || b == b'<' {
            let packed = c.eat("<{");
            let (open, close): (&str, &str) = if packed {
                ("", "}>")
            } else if b == b'[' {
                ("[", "]")
            } else if b == b'{' {
                ("{", "}")
            } else {
                ("<", ">")
            };
            if !packed {
                c.expect(open)?;
            }
            let mut v = vec![];
            if c.eat(close) {
                return Ok(v);
            }
            loop {
                let et = c.ty()?;
                v.extend(self.konst(c, &et)?);
                if c.eat(close) {
                    return Ok(v);
                }
                c.expect(",")?;
            }
        }
        let w = c.ident();
        match w {
            "true" => Ok(vec![Op::C(1)]),
            "false" => Ok(vec![Op::C(0)]),
            "null" | "none" => Ok(vec![Op::C(0)]),
            "undef" | "poison" | "zeroinitializer" => Ok(self.undef(t)),
            "splat" => {
                c.expect("(")?;
                let et = c.ty()?;
                let v = self.konst(c, &et)?;
                c.expect(")")?;
                let n = match t {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                    _ => return Err("splat of non-vector".into()),
                };
                Ok((0..n).map(|_| v[0]).collect())
            }
            "getelementptr" => {
                while !c.peek_ident().is_empty() && c.peek() != b'(' {
                    c.ident();
                    if c.s.get(c.p) == Some(&b'(') && c.s[..c.p].ends_with(b"inrange") {
                        c.skip_parens();
                    }
                }
                c.expect("(")?;
                let et = c.ty()?;
                c.expect(",")?;
                let _pt = c.ty()?;
                let base = self.konst(c, &Ty::Ptr)?;
                let mut idx = vec![];
                while c.eat(",") {
                    let it = c.ty()?;
                    let v = self.konst(c, &it)?;
                    idx.push((v[0], it));
                }
                c.expect(")")?;
                let b = match base[0] {
                    Op::C(b) => b,
                    _ => return Err("gep base".into()),
                };
                let mut off = 0i128;
                let mut cur = et.clone();
                for (k, (v, it)) in idx.iter().enumerate() {
                    let v = match v {
                        Op::C(v) => crate::expr::sext(*v as u128, it.bits() as u16),
                        _ => return Err("gep idx".into()),
                    };
                    if k == 0 {
                        off += v * cur.size() as i128;
                    } else {
                        let (o, n) = gep_step(&cur, v)?;
                        off += o;
                        cur = n;
                    }
                }
                Ok(vec![Op::C(b.wrapping_add(off as u64))])
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                while c.peek() != b'(' {
                    c.ident();
                }
                c.expect("(")?;
                let ft = c.ty()?;
                let v = self.konst(c, &ft)?;
                if !c.word("to") {
                    return Err("cast".into());
                }
                let tt = c.ty()?;
                c.expect(")")?;
                match v[0] {
                    // the entry of a relative lookup table: addresses here lie
                    // further apart than it can say
                    Op::C(x) if w == "trunc" && ft.bits() == 64 && tt.bits() == 32 && (x as i64).unsigned_abs() >= REL as u64 => {
                        self.m.rel.push(x as i64);
                        Ok(vec![self.int_op(32, REL as i128 + self.m.rel.len() as i128 - 1)])
                    }
                    Op::C(x) => Ok(vec![self.int_op(tt.bits(), x as i128)]),
                    _ => Err("wide cast".into()),
                }
            }
            "sub" | "add" | "mul" | "xor" => {
                while c.peek() != b'(' {
                    c.ident();
                }
                c.expect("(")?;
                let ft = c.ty()?;
                let a = self.konst(c, &ft)?;
                c.expect(",")?;
                let ft2 = c.ty()?;
                let b = self.konst(c, &ft2)?;
                c.expect(")")?;
                match (a[0], b[0]) {
                    (Op::C(x), Op::C(y)) => {
                        let r = match w {
                            "sub" => x.wrapping_sub(y),
                            "add" => x.wrapping_add(y),
                            "xor" => x ^ y,
                            _ => x.wrapping_mul(y),
                        };
                        Ok(vec![self.int_op(ft.bits(), r as i128)])
                    }
                    _ => Err("wide const expr".into()),
                }
            }
            _ => Err(format!("constant `{w}` at {}", c.rest())),
        }
    }

    fn sym(&mut self, n: &str) -> R<u64> {
        if let Some(&i) = self.m.gmap.get(n) {
            return Ok(Module::global_addr(i));
        }
        if let Some(&i) = self.m.fmap.get(n) {
            return Ok(Module::func_addr(i));
        }
        Err(format!("unknown symbol @{n}"))
    }
}

fn gep_step(cur: &Ty, v: i128) -> R<(i128, Ty)> {
    match cur {
        Ty::Arr(_, t) | Ty::Vec(_, t) => Ok((v * t.size() as i128, (**t).clone())),
        Ty::Struct(f, _) => {
            let (o, _) = cur.layout();
            Ok((o[v as usize] as i128, f[v as usize].clone()))
        }
        _ => Err("gep into scalar".into()),
    }
}

fn const_bytes(t: &Ty, v: &[Op], wide: &[u128], out: &mut Vec<u8>, size: usize) {
    let mut c = vec![];
    t.comps(0, &mut c);
    let base = out.len();
    out.resize(base + size, 0);
    for ((w, off), op) in c.iter().zip(v) {
        let val: u128 = match op {
            Op::C(x) => *x as u128,
            Op::W(i) => wide[*i as usize],
            Op::R(_) => 0,
        };
        let n = (*w as usize + 7) / 8;
        for k in 0..n {
            out[base + off + k] = (val >> (8 * k)) as u8;
        }
    }
}

struct FnCx<'a> {
    regs: FxMap<&'a str, u32>,
    nregs: u32,
    blocks: FxMap<&'a str, u32>,
}

pub fn parse(text: &str) -> Result<Module, String> {
    let mut p = Parser {
        m: Module { funcs: vec![], fmap: Default::default(), globals: vec![], gmap: Default::default(), wide: vec![], rel: vec![] },
    };
    // Pass 1: symbols
    let mut glines: Vec<(&str, &str)> = vec![];
    let mut flines: Vec<(u32, Vec<&str>)> = vec![];
    let mut lines = text.lines();
    while let Some(l) = lines.next() {
        if let Some(r) = l.strip_prefix('@') {
            let mut c = Cur::new(r);
            let n = c.name();
            let i = p.m.globals.len() as u32;
            p.m.gmap.insert(n.clone(), i);
            p.m.globals.push(Global { name: n, bytes: vec![], constant: false, align: 1 });
            glines.push((l, &r[c.p..]));
        } else if l.starts_with("define") || l.starts_with("declare") {
            let at = l.find('@').ok_or("define without name")?;
            let mut c = Cur::new(&l[at + 1..]);
            let n = c.name();
            let i = p.m.funcs.len() as u32;
            p.m.fmap.insert(n.clone(), i);
            p.m.funcs.push(Func { name: n, ..Default::default() });
            if l.starts_with("define") {
                let mut body = vec![l];
                for b in lines.by_ref() {
                    if b == "}" {
                        break;
                    }
                    body.push(b);
                }
                flines.push((i, body));
            }
        }
    }
    // Aliases share the target's index; resolved before initialisers are evaluated
    for (i, (_, r)) in glines.iter().enumerate() {
        if let Some(pos) = find_alias(r) {
            let t = &r[pos..];
            if let Some(a) = t.rfind('@') {
                let n = Cur::new(&t[a + 1..]).name();
                let name = p.m.globals[i].name.clone();
                if let Some(&f) = p.m.fmap.get(&n) {
                    p.m.gmap.remove(&name);
                    p.m.fmap.insert(name, f);
                } else if let Some(&g) = p.m.gmap.get(&n) {
                    p.m.gmap.insert(name, g);
                }
            }
        }
    }
    // Pass 2: globals
    for (i, (l, r)) in glines.iter().enumerate() {
        if find_alias(r).is_some() {
            continue;
        }
        if let Err(e) = p.global(i, r) {
            return Err(format!("global: {e}\n  {}", &l[..l.len().min(200)]));
        }
    }
    // Pass 3: functions
    for (i, body) in &flines {
        match p.func(body) {
            Ok(f) => {
                let name = std::mem::take(&mut p.m.funcs[*i as usize].name);
                p.m.funcs[*i as usize] = Func { name, defined: true, ..f };
            }
            Err(e) => {
                p.m.funcs[*i as usize].defined = true;
                p.m.funcs[*i as usize].error = Some(e);
            }
        }
    }
    Ok(p.m)
}

impl Parser {
    fn global(&mut self, i: usize, r: &str) -> R<()> {
        let mut c = Cur::new(r);
        c.expect("=")?;
        let mut external = false;
        loop {
            let w = c.ident();
            match w {
                "global" => break,
                "constant" => {
                    self.m.globals[i].constant = true;
                    break;
                }
                "external" | "extern_weak" => external = true,
                "" => return Err(format!("keyword at {}", c.rest())),
                "thread_local" | "addrspace" => {
                    if c.s.get(c.p) == Some(&b'(') {
                        c.skip_parens();
                    }
                }
                _ => {}
            }
        }
        let t = c.ty()?;
        let size = t.size();
        if external {
            self.m.globals[i].bytes = vec![0; size];
            return Ok(());
        }
        let v = self.konst(&mut c, &t)?;
        let mut out = vec![];
        const_bytes(&t, &v, &self.m.wide, &mut out, size);
        self.m.globals[i].bytes = out;
        let mut al = 1;
        while c.eat(",") {
            if c.word("align") {
                al = c.num()? as usize;
            } else {
                break;
            }
        }
        self.m.globals[i].align = al.max(t.align());
        Ok(())
    }

    fn func(&mut self, body: &[&str]) -> R<Func> {
        let mut f = Func::default();
        let mut cx = FnCx { regs: Default::default(), nregs: 0, blocks: Default::default() };
        let head = body[0];
        let at = head.find('@').unwrap();
        let mut c = Cur::new(&head[at + 1..]);
        c.name();
        c.expect("(")?;
        let mut unnamed = 0;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.expect(")")?;
                    break;
                }
                let t = c.ty()?;
                c.skip_attrs(value_start);
                let n = t.ncomps() as u32;
                let base = cx.nregs;
                cx.nregs += n;
                if c.peek() == b'%' {
                    c.p += 1;
                    let s = c.p;
                    let _ = c.name();
                    let nm = &head[at + 1..][s..c.p];
                    cx.regs.insert(nm, base);
                    if nm.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                }
                f.params.push((base, n));
                if c.eat(")") {
                    break;
                }
                c.expect(",")?;
            }
        }
        f.nparam_comps = cx.nregs;
        // join continuation lines (switch tables, landingpad clauses)
        let mut stm: Vec<String> = vec![];
        let mut labels: Vec<(usize, String)> = vec![];
        let mut i = 1;
        while i < body.len() {
            let l = body[i];
            i += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut c = Cur::new(l);
                let n = c.name();
                labels.push((stm.len(), n));
                continue;
            }
            let mut s = strip_tail(t);
            if s.starts_with("switch ") {
                while !s.trim_end().ends_with(']') && !s.contains("], !") {
                    let n = body[i].trim();
                    i += 1;
                    s.push(' ');
                    s.push_str(n);
                    if n.starts_with(']') {
                        break;
                    }
                }
            } else if (s.contains("invoke ")) && !s.contains(" to label ") {
                let n = body[i].trim();
                i += 1;
                s.push(' ');
                s.push_str(n);
            } else if s.contains("= landingpad") {
                while i < body.len() && (body[i].trim_start().starts_with("cleanup") || body[i].trim_start().starts_with("catch") || body[i].trim_start().starts_with("filter")) {
                    i += 1;
                }
            }
            stm.push(s);
        }
        if labels.is_empty() || labels[0].0 != 0 {
            labels.insert(0, (0, unnamed.to_string()));
        }
        let labels = Box::leak(Box::new(labels));
        let stm: &'static Vec<String> = Box::leak(Box::new(stm));
        for (k, (_, n)) in labels.iter().enumerate() {
            cx.blocks.insert(n.as_str(), k as u32);
        }
        for k in 0..labels.len() {
            let (from, name) = &labels[k];
            let to = labels.get(k + 1).map_or(stm.len(), |x| x.0);
            let mut b = Block { name: name.clone(), ..Default::default() };
            for s in &stm[*from..to] {
                if let Err(e) = self.stmt(s, &mut cx, &mut b) {
                    // the destination register must still exist
                    b.ins.push(Ins::Unsupported(format!("{e} in `{}`", &s[..s.len().min(200)])));
                }
            }
            f.blocks.push(b);
        }
        f.nregs = cx.nregs;
        Ok(f)
    }

    fn reg<'a>(&mut self, cx: &mut FnCx<'a>, n: &'a str, k: usize) -> u32 {
        if let Some(&r) = cx.regs.get(n) {
            return r;
        }
        let r = cx.nregs;
        cx.nregs += k as u32;
        cx.regs.insert(n, r);
        r
    }

    fn val<'a>(&mut self, c: &mut Cur<'a>, t: &Ty, cx: &mut FnCx<'a>) -> R<Vec<Op>> {
        if c.peek() == b'%' {
            c.p += 1;
            let s = c.p;
            c.name();
            let n = std::str::from_utf8(&c.s[s..c.p]).unwrap();
            let k = t.ncomps();
            let r = self.reg(cx, n, k);
            return Ok((0..k as u32).map(|i| Op::R(r + i)).collect());
        }
        self.konst(c, t)
    }
    fn val1<'a>(&mut self, c: &mut Cur<'a>, t: &Ty, cx: &mut FnCx<'a>) -> R<Op> {
        let v = self.val(c, t, cx)?;
        if v.len() != 1 {
            return Err("aggregate where a scalar is expected".into());
        }
        Ok(v[0])
    }
    fn label<'a>(&mut self, c: &mut Cur<'a>, cx: &FnCx<'a>) -> R<u32> {
        if !c.word("label") {
            return Err(format!("label at {}", c.rest()));
        }
        c.expect("%")?;
        let n = c.name();
        cx.blocks.get(n.as_str()).copied().ok_or_else(|| format!("label {n}"))
    }

    fn stmt<'a>(&mut self, s: &'a str, cx: &mut FnCx<'a>, b: &mut Block) -> R<()> {
        let mut c = Cur::new(s);
        let mut dst: Option<&'a str> = None;
        if c.peek() == b'%' {
            c.p += 1;
            let st = c.p;
            c.name();
            dst = Some(&s[st..c.p]);
            c.expect("=")?;
        }
        let start = c.p;
        let op = c.ident();
        macro_rules! d {
            ($n:expr) => {{
                let n = $n;
                self.reg(cx, dst.ok_or("no destination")?, n)
            }};
        }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(c.peek_ident(), "nuw" | "nsw" | "exact" | "disjoint") {
                    c.ident();
                }
                let t = c.ty()?;
                let a = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                let bb = self.val(&mut c, &t, cx)?;
                let k = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    _ => Bin::Xor,
                };
                let r = d!(t.ncomps());
                let w = elem_bits(&t);
                for i in 0..a.len() {
                    b.ins.push(Ins::Bin { op: k, w, dst: r + i as u32, a: a[i], b: bb[i] });
                }
            }
            "icmp" => {
                c.word("samesign");
                let pr = match c.ident() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {x}")),
                };
                let t = c.ty()?;
                let a = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                let bb = self.val(&mut c, &t, cx)?;
                let r = d!(t.ncomps());
                let w = elem_bits(&t);
                for i in 0..a.len() {
                    b.ins.push(Ins::Icmp { p: pr, w, dst: r + i as u32, a: a[i], b: bb[i] });
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(c.peek_ident(), "nuw" | "nsw" | "nneg") {
                    c.ident();
                }
                let t = c.ty()?;
                let a = self.val(&mut c, &t, cx)?;
                if !c.word("to") {
                    return Err("to".into());
                }
                let t2 = c.ty()?;
                let (from, to) = (elem_bits(&t), elem_bits(&t2));
                let k = match op {
                    "sext" => Cast::SExt,
                    "zext" => Cast::ZExt,
                    "trunc" => Cast::Trunc,
                    _ => {
                        if to < from {
                            Cast::Trunc
                        } else {
                            Cast::ZExt
                        }
                    }
                };
                let r = d!(t2.ncomps());
                for (i, a) in a.into_iter().enumerate() {
                    b.ins.push(Ins::Cast { k, from, to, dst: r + i as u32, a });
                }
            }
            "bitcast" => {
                let t = c.ty()?;
                let a = self.val(&mut c, &t, cx)?;
                if !c.word("to") {
                    return Err("to".into());
                }
                let t2 = c.ty()?;
                let r = d!(t2.ncomps());
                if t.ncomps() == t2.ncomps() {
                    b.ins.push(Ins::Move { dst: r, src: a.into() });
                } else if t2.ncomps() == 1 {
                    b.ins.push(Ins::Pack { dst: r, w: elem_bits(&t), src: a.into() });
                } else if t.ncomps() == 1 {
                    b.ins.push(Ins::Split { dst: r, from: t.bits(), w: elem_bits(&t2), n: t2.ncomps() as u32, src: a[0] });
                } else {
                    return Err("vector bitcast".into());
                }
            }
            "freeze" => {
                let t = c.ty()?;
                let a = self.val(&mut c, &t, cx)?;
                let r = d!(t.ncomps());
                b.ins.push(Ins::Move { dst: r, src: a.into() });
            }
            "getelementptr" => {
                while matches!(c.peek_ident(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    c.ident();
                }
                let et = c.ty()?;
                c.expect(",")?;
                let pt = c.ty()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let base = self.val1(&mut c, &Ty::Ptr, cx)?;
                let mut off = 0i128;
                let mut idx = vec![];
                let mut cur = et;
                let mut k = 0;
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = c.ty()?;
                    let v = self.val1(&mut c, &it, cx)?;
                    let cv = match v {
                        Op::C(v) => Some(crate::expr::sext(v as u128, it.bits() as u16)),
                        _ => None,
                    };
                    if k == 0 {
                        match cv {
                            Some(v) => off += v * cur.size() as i128,
                            None => idx.push((v, it.bits(), cur.size() as u64)),
                        }
                    } else {
                        match cv {
                            Some(v) => {
                                let (o, n) = gep_step(&cur, v)?;
                                off += o;
                                cur = n;
                            }
                            None => {
                                let n = match &cur {
                                    Ty::Arr(_, t) => (**t).clone(),
                                    _ => return Err("variable gep".into()),
                                };
                                idx.push((v, it.bits(), n.size() as u64));
                                cur = n;
                            }
                        }
                    }
                    k += 1;
                }
                let r = d!(1);
                b.ins.push(Ins::Gep { dst: r, base, off: off as u64, idx: idx.into() });
            }
            "load" => {
                c.word("atomic");
                c.word("volatile");
                let t = c.ty()?;
                c.expect(",")?;
                c.ty()?;
                let ptr = self.val1(&mut c, &Ty::Ptr, cx)?;
                let r = d!(t.ncomps());
                if sub_byte_vec(&t) {
                    let w = t.bits();
                    let tmp = cx.nregs;
                    cx.nregs += 1;
                    b.ins.push(Ins::Load { dst: tmp, comps: vec![(w, 0)].into(), ptr });
                    b.ins.push(Ins::Split { dst: r, from: w, w: elem_bits(&t), n: t.ncomps() as u32, src: Op::R(tmp) });
                } else {
                    let mut v = vec![];
                    t.comps(0, &mut v);
                    b.ins.push(Ins::Load { dst: r, comps: v.into_iter().map(|(w, o)| (w, o as u32)).collect(), ptr });
                }
            }
            "store" => {
                c.word("atomic");
                c.word("volatile");
                let t = c.ty()?;
                let v = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                c.ty()?;
                let ptr = self.val1(&mut c, &Ty::Ptr, cx)?;
                if sub_byte_vec(&t) {
                    let tmp = cx.nregs;
                    cx.nregs += 1;
                    b.ins.push(Ins::Pack { dst: tmp, w: elem_bits(&t), src: v.into() });
                    b.ins.push(Ins::Store { comps: vec![(t.ncomps() as u32 * elem_bits(&t), 0, Op::R(tmp))].into(), ptr });
                } else {
                    let mut k = vec![];
                    t.comps(0, &mut k);
                    b.ins.push(Ins::Store {
                        comps: k.into_iter().zip(v).map(|((w, o), v)| (w, o as u32, v)).collect(),
                        ptr,
                    });
                }
            }
            "alloca" => {
                let t = c.ty()?;
                let mut n = 1u64;
                let mut al = t.align() as u64;
                while c.eat(",") {
                    if c.word("align") {
                        al = c.num()?;
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        let it = c.ty()?;
                        match self.val1(&mut c, &it, cx)? {
                            Op::C(v) => n = v,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                let r = d!(1);
                b.ins.push(Ins::Alloca { dst: r, size: t.size() as u64 * n, align: al });
            }
            "select" => {
                let ct = c.ty()?;
                let cv = self.val(&mut c, &ct, cx)?;
                c.expect(",")?;
                let t = c.ty()?;
                let x = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                let t2 = c.ty()?;
                let y = self.val(&mut c, &t2, cx)?;
                let r = d!(t.ncomps());
                if cv.len() > 1 {
                    b.ins.push(Ins::VSelect { dst: r, w: elem_bits(&t), c: cv.into(), a: x.into(), b: y.into() });
                } else {
                    let w = if t.ncomps() == 1 { t.bits() } else { 0 };
                    b.ins.push(Ins::Select { dst: r, w, c: cv[0], a: x.into(), b: y.into(), ptr: t == Ty::Ptr });
                }
            }
            "phi" => {
                let t = c.ty()?;
                let n = t.ncomps();
                let r = d!(n);
                let mut inc = vec![];
                loop {
                    c.expect("[")?;
                    let v = self.val(&mut c, &t, cx)?;
                    c.expect(",")?;
                    c.expect("%")?;
                    let ln = c.name();
                    c.expect("]")?;
                    let l = *cx.blocks.get(ln.as_str()).ok_or_else(|| format!("phi label {ln}"))?;
                    inc.push((l, v.into()));
                    if !c.eat(",") || c.peek() == b'!' {
                        break;
                    }
                }
                b.phis.push(Phi { dst: r, n: n as u32, inc });
            }
            "extractvalue" => {
                let t = c.ty()?;
                let v = self.val(&mut c, &t, cx)?;
                let mut idx = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.num()? as usize);
                }
                let (st, o) = t.path(&idx);
                let n = st.ncomps();
                let r = d!(n);
                b.ins.push(Ins::Move { dst: r, src: v[o..o + n].into() });
            }
            "insertvalue" => {
                let t = c.ty()?;
                let mut v = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                let et = c.ty()?;
                let e = self.val(&mut c, &et, cx)?;
                let mut idx = vec![];
                while c.eat(",") {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.num()? as usize);
                }
                let (_, o) = t.path(&idx);
                for (i, x) in e.into_iter().enumerate() {
                    v[o + i] = x;
                }
                let r = d!(v.len());
                b.ins.push(Ins::Move { dst: r, src: v.into() });
            }
            "extractelement" | "insertelement" => {
                let t = c.ty()?;
                let mut v = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                let et = c.ty()?;
                let e = self.val1(&mut c, &et, cx)?;
                if op == "extractelement" {
                    let i = match e {
                        Op::C(i) => i as usize,
                        _ => return Err("variable extractelement".into()),
                    };
                    let r = d!(1);
                    b.ins.push(Ins::Move { dst: r, src: vec![v[i]].into() });
                } else {
                    c.expect(",")?;
                    let it = c.ty()?;
                    let i = match self.val1(&mut c, &it, cx)? {
                        Op::C(i) => i as usize,
                        _ => return Err("variable insertelement".into()),
                    };
                    v[i] = e;
                    let r = d!(v.len());
                    b.ins.push(Ins::Move { dst: r, src: v.into() });
                }
            }
            "shufflevector" => {
                let t = c.ty()?;
                let x = self.val(&mut c, &t, cx)?;
                c.expect(",")?;
                let t2 = c.ty()?;
                let y = self.val(&mut c, &t2, cx)?;
                c.expect(",")?;
                let mt = c.ty()?;
                let m = self.konst(&mut c, &mt)?;
                let all: Vec<Op> = x.into_iter().chain(y).collect();
                let src: Vec<Op> = m
                    .iter()
                    .map(|o| match o {
                        Op::C(i) => all[*i as usize],
                        _ => Op::C(0),
                    })
                    .collect();
                let r = d!(src.len());
                b.ins.push(Ins::Move { dst: r, src: src.into() });
            }
            "br" => {
                if c.peek_ident() == "label" {
                    let t = self.label(&mut c, cx)?;
                    b.ins.push(Ins::Br { t });
                } else {
                    let t = c.ty()?;
                    let v = self.val1(&mut c, &t, cx)?;
                    c.expect(",")?;
                    let t = self.label(&mut c, cx)?;
                    c.expect(",")?;
                    let f = self.label(&mut c, cx)?;
                    b.ins.push(Ins::CondBr { c: v, t, f });
                }
            }
            "switch" => {
                let t = c.ty()?;
                let v = self.val1(&mut c, &t, cx)?;
                c.expect(",")?;
                let def = self.label(&mut c, cx)?;
                c.expect("[")?;
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = c.ty()?;
                    let k = self.konst(&mut c, &ct)?;
                    let k = match k[0] {
                        Op::C(k) => k as u128,
                        Op::W(i) => self.m.wide[i as usize],
                        _ => unreachable!(),
                    };
                    c.expect(",")?;
                    let l = self.label(&mut c, cx)?;
                    cases.push((k, l));
                }
                b.ins.push(Ins::Switch { w: t.bits(), v, def, cases: cases.into() });
            }
            "ret" => {
                let t = c.ty()?;
                let v = if t == Ty::Void { vec![] } else { self.val(&mut c, &t, cx)? };
                b.ins.push(Ins::Ret { v: v.into() });
            }
            "unreachable" => b.ins.push(Ins::Unreachable),
            "fence" => b.ins.push(Ins::Nop),
            "atomicrmw" => {
                c.word("volatile");
                let o = c.ident().to_string();
                c.ty()?;
                let ptr = self.val1(&mut c, &Ty::Ptr, cx)?;
                c.expect(",")?;
                let t = c.ty()?;
                let v = self.val1(&mut c, &t, cx)?;
                let r = d!(1);
                b.ins.push(Ins::AtomicRmw { op: o, w: t.bits(), dst: r, ptr, v });
            }
            "cmpxchg" => {
                c.word("weak");
                c.word("volatile");
                c.ty()?;
                let ptr = self.val1(&mut c, &Ty::Ptr, cx)?;
                c.expect(",")?;
                let t = c.ty()?;
                let x = self.val1(&mut c, &t, cx)?;
                c.expect(",")?;
                let t2 = c.ty()?;
                let y = self.val1(&mut c, &t2, cx)?;
                let r = d!(2);
                b.ins.push(Ins::CmpXchg { w: t.bits(), dst: r, ptr, cmp: x, new: y });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                c.p = start;
                if !c.word("invoke") {
                    c.word("tail");
                    c.word("musttail");
                    c.word("notail");
                    if !c.word("call") {
                        return Err("call".into());
                    }
                }
                c.skip_attrs(|c| c.is_type_start());
                let t = c.ty()?;
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let callee = if c.peek() == b'%' {
                    Callee::Indirect(self.val1(&mut c, &Ty::Ptr, cx)?)
                } else if c.peek() == b'@' {
                    c.p += 1;
                    let n = c.name();
                    match self.m.fmap.get(&n) {
                        Some(&f) => Callee::Func(f),
                        None => return Err(format!("callee @{n}")),
                    }
                } else if c.peek_ident() == "asm" {
                    // inline assembly used as an optimisation barrier (black_box) has no effect here
                    if s.contains("asm sideeffect \"\"") || s.contains("asm sideeffect inteldialect \"\"") {
                        b.ins.push(Ins::Nop);
                        return Ok(());
                    }
                    return Err("inline asm".into());
                } else {
                    let v = self.konst(&mut c, &Ty::Ptr)?;
                    Callee::Indirect(v[0])
                };
                c.expect("(")?;
                let mut args = vec![];
                if !c.eat(")") {
                    loop {
                        let at = c.ty()?;
                        if at == Ty::Meta {
                            // skip metadata operand
                            let mut d = 0;
                            while c.p < c.s.len() {
                                match c.s[c.p] {
                                    b'(' => d += 1,
                                    b')' if d == 0 => break,
                                    b')' => d -= 1,
                                    b',' if d == 0 => break,
                                    _ => {}
                                }
                                c.p += 1;
                            }
                        } else {
                            c.skip_attrs(value_start);
                            args.extend(self.val(&mut c, &at, cx)?);
                        }
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",")?;
                    }
                }
                let normal = if s[c.p..].contains(" to label ") {
                    let q = s[c.p..].find(" to label ").unwrap();
                    c.p += q + 4;
                    Some((self.label(&mut c, cx)?, true))
                } else {
                    None
                };
                let n = t.ncomps();
                let r = if n > 0 && dst.is_some() { d!(n) } else { u32::MAX };
                let dstw = if n == 1 { t.bits() } else { 0 };
                b.ins.push(Ins::Call { dst: r, ndst: n as u32, dstw, callee, args: args.into(), normal });
            }
            "landingpad" | "resume" => {
                if op == "landingpad" {
                    let _ = d!(2);
                }
                b.ins.push(Ins::Unsupported(op.into()));
            }
            _ => return Err(format!("opcode {op}")),
        }
        Ok(())
    }
}

fn sub_byte_vec(t: &Ty) -> bool {
    matches!(t, Ty::Vec(_, e) if e.bits() % 8 != 0)
}

fn elem_bits(t: &Ty) -> u32 {
    match t {
        Ty::Vec(_, e) | Ty::Arr(_, e) => e.bits(),
        _ => t.bits(),
    }
}

/// Remove a trailing comment (never inside a string in instruction lines we decode).
fn strip_tail(l: &str) -> String {
    if let Some(p) = l.find(" ; ") {
        if !l[..p].contains('"') {
            return l[..p].to_string();
        }
    }
    l.to_string()
}
