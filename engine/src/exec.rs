//! Symbolic interpreter: one `Worker` per thread, depth-first over path states.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Sat, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    C(u64),
    E(Id),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[Id]>>,
    pub ro: bool,
    pub heap: bool,
    pub align: u64,
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: usize,
    stack_free: Vec<u32>,
    live_heap: u64,
}

fn empty_chunk() -> Chunk {
    std::array::from_fn(|_| None)
}

impl Mem {
    fn new() -> Self {
        Mem { chunks: vec![], next: 16, stack_free: vec![], live_heap: 0 }
    }
    fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        let c = i / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(empty_chunk()));
        }
        if let Some(x) = Rc::get_mut(&mut self.chunks[c]) {
            x[i % CH] = o;
        } else {
            let mut n: Chunk = (*self.chunks[c]).clone();
            n[i % CH] = o;
            self.chunks[c] = Rc::new(n);
        }
    }
    #[inline]
    fn get(&self, i: usize) -> Option<&Obj> {
        self.chunks.get(i / CH)?[i % CH].as_deref()
    }
    #[inline]
    fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i / CH)?;
        let c = Rc::make_mut(c);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
    fn alloc_heap(&mut self, size: usize, align: u64) -> u64 {
        let i = self.next;
        self.next += 1;
        self.live_heap += size as u64;
        self.set(i, Some(Rc::new(Obj { data: vec![0; size], sym: None, ro: false, heap: true, align })));
        (i as u64) << OBJ_SHIFT
    }
    fn alloc_stack(&mut self, size: usize) -> u32 {
        let i = match self.stack_free.pop() {
            Some(i) => i as usize,
            None => {
                let i = self.next;
                self.next += 1;
                i
            }
        };
        self.set(i, Some(Rc::new(Obj { data: vec![0; size], sym: None, ro: false, heap: false, align: 16 })));
        i as u32
    }
    fn free_stack(&mut self, i: u32) {
        self.set(i as usize, None);
        self.stack_free.push(i);
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    obj: u32, // frame object, 0 = none
    // where to put the result in the caller
    dst: u32,
    ndst: u32,
    normal: u32, // u32::MAX: plain call
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    mem: Mem,
    doms: Vec<Table>,
    cons: Vec<Id>,
    multi_mask: u128,
    pub model: Vec<u8>,
    pub trace: Vec<(u64, bool)>,
    replay: usize,
    steps: u64,
    pub job: usize,
    notes: u64,
    tls: (),
}

#[derive(Clone, Debug)]
pub struct Job {
    pub entry: String,
    pub arg: Vec<u8>,
    pub param: u64,
    pub name: String,
}

#[derive(Clone)]
pub struct Item {
    pub job: usize,
    pub trace: Vec<(u64, bool)>,
    pub model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: usize,
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
}

enum Stop {
    /// fork on this condition, re-execute the instruction in both
    Fork(Id, u64),
    Viol(String, String),
    /// path assumed away
    Discard,
    /// engine limitation
    Error(String),
}
type Res<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Error(s.into()))
}
fn ub<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Viol("memory".into(), s.into()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Assume,
    Expect,
    TlsAddr,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    IsConst,
    LoadRel,
    PtrMask,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceUMax,
    Trap,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    Memalign,
    HashOne,
    RandKeys,
    Panic,
    SymBytes,
    SymSet,
    SymAssume,
    SymConc,
    SymFail,
    SymReach,
    SymNote,
    SymSteps,
    RunUtf8,
}

fn builtin(n: &str, ret_defined: bool) -> Bi {
    let _ = ret_defined;
    if let Some(r) = n.strip_prefix("llvm.") {
        let has = |p: &str| r.starts_with(p);
        return if has("memcpy") {
            Bi::Memcpy
        } else if has("memmove") {
            Bi::Memmove
        } else if has("memset") {
            Bi::Memset
        } else if has("lifetime") || has("experimental.noalias") || has("dbg") || has("invariant") || has("x86.sse2.pause") || has("prefetch") || has("donothing") || has("sideeffect") {
            Bi::Nop
        } else if has("assume") {
            Bi::Assume
        } else if has("expect") {
            Bi::Expect
        } else if has("threadlocal.address") {
            Bi::TlsAddr
        } else if has("usub.sat") {
            Bi::USubSat
        } else if has("uadd.sat") {
            Bi::UAddSat
        } else if has("ssub.sat") {
            Bi::SSubSat
        } else if has("sadd.sat") {
            Bi::SAddSat
        } else if has("umin") {
            Bi::UMin
        } else if has("umax") {
            Bi::UMax
        } else if has("smin") {
            Bi::SMin
        } else if has("smax") {
            Bi::SMax
        } else if has("abs") {
            Bi::Abs
        } else if has("uadd.with") {
            Bi::UAddO
        } else if has("usub.with") {
            Bi::USubO
        } else if has("umul.with") {
            Bi::UMulO
        } else if has("sadd.with") {
            Bi::SAddO
        } else if has("ssub.with") {
            Bi::SSubO
        } else if has("smul.with") {
            Bi::SMulO
        } else if has("ctpop") {
            Bi::Ctpop
        } else if has("ctlz") {
            Bi::Ctlz
        } else if has("cttz") {
            Bi::Cttz
        } else if has("bswap") {
            Bi::Bswap
        } else if has("bitreverse") {
            Bi::Bitrev
        } else if has("fshl") {
            Bi::Fshl
        } else if has("fshr") {
            Bi::Fshr
        } else if has("ucmp") {
            Bi::Ucmp
        } else if has("scmp") {
            Bi::Scmp
        } else if has("is.constant") {
            Bi::IsConst
        } else if has("load.relative") {
            Bi::LoadRel
        } else if has("ptrmask") {
            Bi::PtrMask
        } else if has("vector.reduce.or") {
            Bi::ReduceOr
        } else if has("vector.reduce.and") {
            Bi::ReduceAnd
        } else if has("vector.reduce.add") {
            Bi::ReduceAdd
        } else if has("vector.reduce.umax") {
            Bi::ReduceUMax
        } else if has("trap") || has("ubsantrap") {
            Bi::Trap
        } else {
            Bi::None
        };
    }
    match n {
        "bcmp" => return Bi::Bcmp,
        "memcmp" => return Bi::Memcmp,
        "memcpy" => return Bi::Memcpy,
        "memmove" => return Bi::Memmove,
        "memset" => return Bi::Memset,
        "strlen" => return Bi::Strlen,
        "malloc" => return Bi::Malloc,
        "calloc" => return Bi::Calloc,
        "free" => return Bi::Free,
        "realloc" => return Bi::CRealloc,
        "posix_memalign" => return Bi::Memalign,
        "abort" => return Bi::Trap,
        "sym_bytes" => return Bi::SymBytes,
        "sym_set" => return Bi::SymSet,
        "sym_assume" => return Bi::SymAssume,
        "sym_concrete" => return Bi::SymConc,
        "sym_fail" => return Bi::SymFail,
        "sym_reach" => return Bi::SymReach,
        "sym_note" => return Bi::SymNote,
        "sym_steps" => return Bi::SymSteps,
        _ => {}
    }
    let e = |s: &str| n.ends_with(s);
    if e("___rust_alloc") || e("___rdl_alloc") {
        Bi::Alloc
    } else if e("___rust_alloc_zeroed") || e("___rdl_alloc_zeroed") {
        Bi::AllocZ
    } else if e("___rust_dealloc") || e("___rdl_dealloc") {
        Bi::Dealloc
    } else if e("___rust_realloc") || e("___rdl_realloc") {
        Bi::Realloc
    } else if n.contains("RandomState") && n.contains("hash_one") {
        Bi::HashOne
    } else if n.contains("hashmap_random_keys") {
        Bi::RandKeys
    } else if (n.contains("core9panicking") || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("capacity_overflow") || n.contains("std9panicking11begin_panic") || n.contains("3std7process5abort") || n.contains("abort_internal")) && !n.contains("drop_glue") {
        Bi::Panic
    } else if e("4core3str8converts9from_utf8") || e("4core3str11validations15run_utf8_validation") {
        Bi::RunUtf8
    } else {
        Bi::None
    }
}

/// Static per-function data
struct FInfo {
    bi: Bi,
    frame: usize,
    /// (dst reg, offset)
    allocas: Vec<(u32, u64)>,
}

pub struct Prog {
    pub m: Module,
    info: Vec<FInfo>,
}

impl Prog {
    pub fn new(m: Module) -> Self {
        let info = m
            .funcs
            .iter()
            .map(|f| {
                let mut off = 0u64;
                let mut al = vec![];
                for b in &f.blocks {
                    for i in &b.ins {
                        if let Ins::Alloca { dst, size, align } = i {
                            let a = (*align).max(8);
                            off = (off + a - 1) / a * a;
                            al.push((*dst, off));
                            // red zone between stack variables
                            off += size + 8;
                        }
                    }
                }
                FInfo { bi: builtin(&f.name, f.defined), frame: off as usize, allocas: al }
            })
            .collect();
        Prog { m, info }
    }
}

pub struct Limits {
    pub max_steps: u64,
}

pub struct Worker<'p> {
    p: &'p Prog,
    jobs: &'p [Job],
    pub a: Arena,
    pub z: Z3,
    globals: Mem,
    pub states: Vec<State>,
    single_memo: FxMap<(Table, Table), (bool, bool)>,
    qcache: HashMap<(Vec<Id>, Id), Option<Vec<(u8, u8)>>>,
    regpool: Vec<Vec<Val>>,
    lim: Limits,
    pub funcs_hit: Vec<bool>,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub reach: BTreeMap<usize, BTreeSet<u32>>,
    pub paths: BTreeMap<usize, u64>,
    pub discarded: u64,
    pub steps: u64,
    pub forks: u64,
    pub max_path_steps: u64,
    pub cache_hits: u64,
    pub max_sym: usize,
    /// finished paths kept for native replay: job -> (reach mask, input)
    pub samples: BTreeMap<usize, Vec<(u64, Vec<u8>)>>,
    pub masks: BTreeMap<(usize, u64), u64>,
    pub job_steps: BTreeMap<usize, u64>,
}

fn tand(a: &Table, b: &Table) -> Table {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn tnot(a: &Table) -> Table {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn tempty(a: &Table) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn thas(a: &Table, v: u8) -> bool {
    a[v as usize / 64] >> (v % 64) & 1 != 0
}
fn tfirst(a: &Table) -> u8 {
    // prefer letters, then printable characters
    for r in [b'a'..=b'z', b'0'..=b'9', 0x21..=0x7e] {
        for v in r {
            if thas(a, v) {
                return v;
            }
        }
    }
    (0..=255u8).find(|&v| thas(a, v)).unwrap_or(0)
}

#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

impl<'p> Worker<'p> {
    pub fn new(p: &'p Prog, jobs: &'p [Job], max_steps: u64, z3_timeout: u32, dump_every: u64) -> Self {
        let mut globals = Mem::new();
        for (i, g) in p.m.globals.iter().enumerate() {
            globals.set(
                i + 16,
                Some(Rc::new(Obj { data: g.bytes.clone(), sym: None, ro: g.constant, heap: false, align: g.align as u64 })),
            );
        }
        globals.next = p.m.globals.len() + 16;
        let mut z = Z3::new(z3_timeout);
        z.dump_every = dump_every;
        Worker {
            p,
            jobs,
            a: Arena::new(),
            z,
            globals,
            states: vec![],
            single_memo: Default::default(),
            qcache: Default::default(),
            regpool: vec![],
            lim: Limits { max_steps },
            funcs_hit: vec![false; p.m.funcs.len()],
            viols: vec![],
            errors: vec![],
            reach: Default::default(),
            paths: Default::default(),
            discarded: 0,
            steps: 0,
            forks: 0,
            max_path_steps: 0,
            cache_hits: 0,
            max_sym: 0,
            samples: Default::default(),
            masks: Default::default(), job_steps: Default::default(),
        }
    }

    pub fn start(&mut self, it: Item) {
        let job = &self.jobs[it.job];
        let f = match self.p.m.fmap.get(&job.entry) {
            Some(&f) if self.p.m.funcs[f as usize].defined => f,
            _ => {
                self.errors.push(format!("no entry function {}", job.entry));
                return;
            }
        };
        let mut st = State {
            top: Frame { func: 0, block: 0, ip: 0, regs: vec![], obj: 0, dst: u32::MAX, ndst: 0, normal: u32::MAX },
            stack: vec![],
            mem: self.globals.clone(),
            doms: vec![],
            cons: vec![],
            multi_mask: 0,
            model: it.model,
            trace: it.trace,
            replay: 0,
            steps: 0,
            job: it.job,
            notes: 0,
            tls: (),
        };
        let addr = st.mem.alloc_heap(job.arg.len().max(1), 1);
        let o = st.mem.get_mut((addr >> OBJ_SHIFT) as usize).unwrap();
        o.data = job.arg.clone();
        let args = [Val::C(addr), Val::C(job.arg.len() as u64), Val::C(job.param)];
        let n = (self.p.m.funcs[f as usize].nparam_comps as usize).min(3);
        if let Err(_) = self.enter(&mut st, f, &args[..n], u32::MAX, 0, u32::MAX) {
            self.errors.push("cannot enter".into());
            return;
        }
        st.stack.clear();
        self.states.push(st);
    }

    fn enter(&mut self, st: &mut State, f: u32, args: &[Val], dst: u32, ndst: u32, normal: u32) -> Res<()> {
        let fun = &self.p.m.funcs[f as usize];
        if let Some(e) = &fun.error {
            return err(format!("function {} not decoded: {e}", fun.name));
        }
        if st.stack.len() > 400 {
            return Err(Stop::Viol("stack".into(), "call depth above 400".into()));
        }
        self.funcs_hit[f as usize] = true;
        let info = &self.p.info[f as usize];
        let mut regs = self.regpool.pop().unwrap_or_default();
        regs.clear();
        regs.resize(fun.nregs as usize, Val::C(0));
        let mut k = 0;
        for &(b, n) in &fun.params {
            for i in 0..n {
                if let Some(v) = args.get(k) {
                    regs[(b + i) as usize] = *v;
                }
                k += 1;
            }
        }
        let mut obj = 0;
        if !info.allocas.is_empty() {
            obj = st.mem.alloc_stack(info.frame);
            for &(r, off) in &info.allocas {
                regs[r as usize] = Val::C(((obj as u64) << OBJ_SHIFT) + off);
            }
        }
        let fr = Frame { func: f, block: 0, ip: 0, regs, obj, dst, ndst, normal };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    /// Run the state on top of the stack to completion of its path.
    pub fn run_one(&mut self) {
        let mut st = self.states.pop().unwrap();
        let (job, mut s0) = (st.job, self.steps);
        loop {
            let r = self.run(&mut st);
            *self.job_steps.entry(job).or_default() += self.steps - s0;
            s0 = self.steps;
            match r {
                Ok(()) => {
                    let n = self.paths.entry(st.job).or_default();
                    *n += 1;
                    let (n, k) = (*n, self.masks.entry((st.job, st.notes)).or_default());
                    *k += 1;
                    if k.is_power_of_two() || n % 1024 == 0 {
                        let v = self.samples.entry(st.job).or_default();
                        let x = (st.notes, st.model[..st.doms.len()].to_vec());
                        if v.len() < 64 {
                            v.push(x);
                        } else {
                            v[(n.wrapping_mul(0x9E3779B97F4A7C15) >> 58) as usize] = x;
                        }
                    }
                    break;
                }
                Err(Stop::Discard) => {
                    self.discarded += 1;
                    break;
                }
                Err(Stop::Viol(k, m)) => {
                    *self.paths.entry(st.job).or_default() += 1;
                    if self.viols.len() < 500 {
                        self.viols.push(Violation { job: st.job, kind: k, msg: m, input: st.model[..st.doms.len()].to_vec() });
                    }
                    break;
                }
                Err(Stop::Error(e)) => {
                    let inp: String = st.model.iter().map(|b| format!("{b:02x}")).collect();
                    let e = format!(
                        "{e} [in {} block {} ip {}; job {}; input {inp}]",
                        self.p.m.funcs[st.top.func as usize].name,
                        self.p.m.funcs[st.top.func as usize].blocks.get(st.top.block as usize).map_or("", |b| &b.name),
                        st.top.ip,
                        self.jobs[st.job].name,
                    );
                    self.errors.push(e);
                    break;
                }
                Err(Stop::Fork(c, v)) => {
                    if let Err(e) = self.fork(&mut st, c, v) {
                        if let Stop::Error(e) = e {
                            self.errors.push(e);
                        }
                        break;
                    }
                }
            }
        }
        self.max_path_steps = self.max_path_steps.max(st.steps);
        self.max_sym = self.max_sym.max(st.doms.len());
    }

    fn fork(&mut self, st: &mut State, c: Id, v: u64) -> Res<()> {
        let nc = self.a.not(c);
        let model = st.model.clone();
        let here = self.a.eval(c, &model) != 0;
        if st.replay < st.trace.len() {
            let want = st.trace[st.replay].1;
            if want != here {
                return err("replayed path diverges from its trace");
            }
            st.replay += 1;
            self.constrain(st, if here { c } else { nc });
            return Ok(());
        }
        self.forks += 1;
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        // a model for the other side
        let mut m2 = st.model.clone();
        if !self.find_model(st, other, &mut m2)? {
            return err("fork on an infeasible condition");
        }
        let mut o = st.clone();
        o.model = m2;
        o.trace.push((v, !here));
        o.replay = o.trace.len();
        self.constrain(&mut o, other);
        st.trace.push((v, here));
        st.replay = st.trace.len();
        self.constrain(st, mine);
        self.states.push(o);
        Ok(())
    }

    fn constrain(&mut self, st: &mut State, c: Id) {
        if self.a.as_const(c).is_some() {
            return;
        }
        if let N::Bin(Bin::And, x, y) = self.a.n(c) {
            if self.a.table(c).is_none() {
                self.constrain(st, x);
                self.constrain(st, y);
                return;
            }
        }
        let vars = self.a.vars(c);
        if let Some(t) = self.a.table(c) {
            let v = vars.trailing_zeros() as usize;
            st.doms[v] = tand(&st.doms[v], t);
        } else {
            st.multi_mask |= vars;
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
        }
    }

    /// Constraints connected with `vars`
    fn slice(&self, st: &State, vars: u128) -> (Vec<Id>, u128) {
        let mut vs = vars;
        if vs & st.multi_mask != 0 {
            loop {
                let mut ch = false;
                for &c in &st.cons {
                    let cv = self.a.vars(c);
                    if cv & vs != 0 && cv & !vs != 0 {
                        vs |= cv;
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let mut out: Vec<Id> = st.cons.iter().copied().filter(|&c| self.a.vars(c) & vs != 0).collect();
        out.sort_unstable();
        (out, vs)
    }

    /// Is pc ∧ c satisfiable?  Updates `m` with a witness (only the connected variables).
    fn find_model(&mut self, st: &State, c: Id, m: &mut Vec<u8>) -> Res<bool> {
        if let Some(k) = self.a.as_const(c) {
            return Ok(k != 0);
        }
        let vars = self.a.vars(c);
        if let Some(t) = self.a.table(c).copied() {
            let v = vars.trailing_zeros() as usize;
            if vars & st.multi_mask == 0 {
                let d = tand(&st.doms[v], &t);
                self.single(st, v, c)?;
                if tempty(&d) {
                    return Ok(false);
                }
                m[v] = tfirst(&d);
                return Ok(true);
            }
            if tempty(&tand(&st.doms[v], &t)) {
                return Ok(false);
            }
        }
        let (sl, vs) = self.slice(st, vars);
        let key = (sl, c);
        if let Some(r) = self.qcache.get(&key) {
            self.cache_hits += 1;
            return Ok(match r {
                None => false,
                Some(a) => {
                    for &(i, x) in a {
                        m[i as usize] = x;
                    }
                    true
                }
            });
        }
        let mut q = key.0.clone();
        q.push(c);
        let mut mm = vec![0u8; 128];
        let r = self.z.check(&self.a, &q, vs, &mut mm);
        let ans = match r {
            Sat::Unknown => {
                if std::env::var_os("SYMX_DEBUG").is_some() {
                    for &e in &q {
                        eprintln!("Q: {}", self.a.show(e));
                    }
                }
                return err("solver answered unknown");
            }
            Sat::Unsat => None,
            Sat::Sat => {
                let mut a = vec![];
                let mut x = vs;
                while x != 0 {
                    let k = x.trailing_zeros();
                    x &= x - 1;
                    a.push((k as u8, mm[k as usize]));
                }
                // the solver's model must satisfy the query under our own evaluation
                for &e in &q {
                    if self.a.eval(e, &mm) == 0 {
                        return err("solver model does not satisfy the query");
                    }
                }
                Some(a)
            }
        };
        let res = match &ans {
            None => false,
            Some(a) => {
                for &(i, x) in a {
                    m[i as usize] = x;
                }
                true
            }
        };
        self.qcache.insert(key, ans);
        Ok(res)
    }

    /// Single-byte condition: (can be true, can be false), decided by the solver once per
    /// (domain, condition) pair and cross-checked with the truth tables.
    fn single(&mut self, st: &State, v: usize, c: Id) -> Res<(bool, bool)> {
        let t = *self.a.table(c).unwrap();
        let d = st.doms[v];
        if let Some(&r) = self.single_memo.get(&(d, t)) {
            self.cache_hits += 1;
            return Ok(r);
        }
        let bit = 1u128 << v;
        let mut q: Vec<Id> = st.cons.iter().copied().filter(|&c| self.a.vars(c) == bit).collect();
        let nc = self.a.not(c);
        let mut mm = vec![0u8; 128];
        q.push(c);
        let r1 = self.z.check(&self.a, &q, bit, &mut mm);
        q.pop();
        q.push(nc);
        let r2 = self.z.check(&self.a, &q, bit, &mut mm);
        if r1 == Sat::Unknown || r2 == Sat::Unknown {
            return err("solver answered unknown");
        }
        let r = (r1 == Sat::Sat, r2 == Sat::Sat);
        let want = (!tempty(&tand(&d, &t)), !tempty(&tand(&d, &tnot(&t))));
        if r != want {
            return err(format!("solver and truth table disagree on {}: {r:?} vs {want:?}", self.a.show(c)));
        }
        self.single_memo.insert((d, t), r);
        Ok(r)
    }

    /// Some(b): the condition is decided on this path; otherwise the sub-condition to fork on.
    fn tri(&mut self, st: &State, c: Id) -> Res<Result<bool, Id>> {
        if let Some(k) = self.a.as_const(c) {
            return Ok(Ok(k != 0));
        }
        let vars = self.a.vars(c);
        if self.a.table(c).is_some() {
            let v = vars.trailing_zeros() as usize;
            let (t, f) = self.single(st, v, c)?;
            if !t {
                return Ok(Ok(false));
            }
            if !f {
                return Ok(Ok(true));
            }
            if vars & st.multi_mask == 0 {
                return Ok(Err(c));
            }
        } else {
            match self.a.n(c) {
                N::Not(x) => {
                    return Ok(match self.tri(st, x)? {
                        Ok(b) => Ok(!b),
                        Err(s) => Err(s),
                    })
                }
                N::Bin(op @ (Bin::And | Bin::Or), x, y) => {
                    let abs = op == Bin::Or; // absorbing value
                    let rx = self.tri(st, x)?;
                    if rx == Ok(abs) {
                        return Ok(Ok(abs));
                    }
                    let ry = self.tri(st, y)?;
                    if ry == Ok(abs) {
                        return Ok(Ok(abs));
                    }
                    return Ok(match (rx, ry) {
                        (Ok(_), r) => r,
                        (r, Ok(_)) => r,
                        (Err(s), Err(_)) => Err(s),
                    });
                }
                N::Ite(k, x, y) => {
                    return match self.tri(st, k)? {
                        Ok(true) => self.tri(st, x),
                        Ok(false) => self.tri(st, y),
                        Err(s) => Ok(Err(s)),
                    }
                }
                _ => {}
            }
        }
        // large: case split on the single-byte conditions it is made of
        if self.a.size_above(c, 40) {
            let mut s = self.under(st, c)?;
            // conditions which the constraints over several bytes decide
            let mut decided: FxMap<Id, Id> = Default::default();
            loop {
                if let Some(k) = self.a.as_const(s) {
                    return Ok(Ok(k != 0));
                }
                if !self.a.size_above(s, 40) {
                    break;
                }
                let Some(b) = self.a.first_table(s) else { break };
                if b == c {
                    break;
                }
                match self.tri(st, b)? {
                    Err(x) => return Ok(Err(x)),
                    Ok(k) => {
                        let kb = self.a.bool(k);
                        decided.insert(b, kb);
                        let mut memo = decided.clone();
                        s = self.under_rec(st, s, &mut memo)?;
                    }
                }
            }
        }
        // general case
        let here = self.a.eval(c, &st.model) != 0;
        let other = if here { self.a.not(c) } else { c };
        let mut m = st.model.clone();
        if self.find_model(st, other, &mut m)? {
            Ok(Err(c))
        } else {
            Ok(Ok(here))
        }
    }

    /// `e` with the single-byte conditions this path has decided replaced by
    /// their values.
    fn under(&mut self, st: &State, e: Id) -> Res<Id> {
        let mut memo: FxMap<Id, Id> = Default::default();
        self.under_rec(st, e, &mut memo)
    }
    fn under_rec(&mut self, st: &State, e: Id, memo: &mut FxMap<Id, Id>) -> Res<Id> {
        if self.a.vars(e) == 0 {
            return Ok(e);
        }
        if let Some(&r) = memo.get(&e) {
            return Ok(r);
        }
        let r = if self.a.table(e).is_some() {
            let v = self.a.vars(e).trailing_zeros() as usize;
            match self.single(st, v, e)? {
                (true, true) => e,
                (t, _) => self.a.bool(t),
            }
        } else {
            let w = self.a.w(e);
            match self.a.n(e) {
                N::Const(_) | N::Var(_) => e,
                N::Bin(o, x, y) => {
                    let (x, y) = (self.under_rec(st, x, memo)?, self.under_rec(st, y, memo)?);
                    self.a.bin(o, x, y)
                }
                N::Cmp(o, x, y) => {
                    let (x, y) = (self.under_rec(st, x, memo)?, self.under_rec(st, y, memo)?);
                    self.a.cmp(o, x, y)
                }
                N::Not(x) => {
                    let x = self.under_rec(st, x, memo)?;
                    self.a.not(x)
                }
                N::Ite(c, x, y) => {
                    let c = self.under_rec(st, c, memo)?;
                    match self.a.as_const(c) {
                        Some(0) => self.under_rec(st, y, memo)?,
                        Some(_) => self.under_rec(st, x, memo)?,
                        None => {
                            let (x, y) = (self.under_rec(st, x, memo)?, self.under_rec(st, y, memo)?);
                            self.a.ite(c, x, y)
                        }
                    }
                }
                N::ZExt(x) => {
                    let x = self.under_rec(st, x, memo)?;
                    self.a.zext(x, w)
                }
                N::SExt(x) => {
                    let x = self.under_rec(st, x, memo)?;
                    self.a.sext(x, w)
                }
                N::Extract(x, lo) => {
                    let x = self.under_rec(st, x, memo)?;
                    self.a.extract(x, lo, w)
                }
                N::Concat(x, y) => {
                    let (x, y) = (self.under_rec(st, x, memo)?, self.under_rec(st, y, memo)?);
                    self.a.concat(x, y)
                }
            }
        };
        memo.insert(e, r);
        Ok(r)
    }

    fn branch(&mut self, st: &State, v: Val) -> Res<bool> {
        match v {
            Val::C(x) => Ok(x & 1 != 0),
            Val::E(c) => match self.tri(st, c)? {
                Ok(b) => Ok(b),
                Err(s) => Err(Stop::Fork(s, 0)),
            },
        }
    }

    /// Concrete value of an expression, forking over its feasible values.
    fn conc(&mut self, st: &State, v: Val) -> Res<u64> {
        let e = match v {
            Val::C(x) => return Ok(x),
            Val::E(e) => e,
        };
        if let Some(k) = self.a.as_const(e) {
            return Ok(k as u64);
        }
        // an if-then-else forks on its condition
        let mut x = e;
        loop {
            match self.a.n(x) {
                N::Ite(k, p, q) => match self.tri(st, k)? {
                    Ok(true) => x = p,
                    Ok(false) => x = q,
                    Err(s) => return Err(Stop::Fork(s, 0)),
                },
                N::ZExt(p) | N::Extract(p, 0) if matches!(self.a.n(p), N::Ite(..)) && self.a.as_const(p).is_none() => {
                    if let N::Ite(k, _, _) = self.a.n(p) {
                        if let Err(s) = self.tri(st, k)? {
                            return Err(Stop::Fork(s, 0));
                        }
                    }
                    break;
                }
                _ => break,
            }
        }
        if let Some(k) = self.a.as_const(x) {
            return Ok(k as u64);
        }
        let val = if st.replay < st.trace.len() && self.feasible_trace(st) { st.trace[st.replay].0 } else { self.a.eval(e, &st.model) as u64 };
        let c = self.a.eq_const(e, val as u128);
        match self.tri(st, c)? {
            Ok(true) => Ok(val),
            Ok(false) => {
                // the traced value belongs to a later fork: this one is decided
                let mv = self.a.eval(e, &st.model) as u64;
                let c = self.a.eq_const(e, mv as u128);
                match self.tri(st, c)? {
                    Ok(true) => Ok(mv),
                    _ => err("concretisation lost its value on replay"),
                }
            }
            Err(s) => Err(Stop::Fork(s, val)),
        }
    }

    fn feasible_trace(&self, _st: &State) -> bool {
        true
    }

    #[inline]
    fn op(&mut self, st: &State, o: Op) -> Val {
        match o {
            Op::R(r) => st.top.regs[r as usize],
            Op::C(c) => Val::C(c),
            Op::W(i) => {
                let k = self.p.m.wide[i as usize];
                Val::E(self.a.konst(k, 128))
            }
        }
    }

    fn ex(&mut self, v: Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.a.konst(c as u128, w as u16),
            Val::E(e) => e,
        }
    }
    fn norm(&self, e: Id) -> Val {
        match self.a.n(e) {
            N::Const(c) if self.a.w(e) <= 64 => Val::C(c as u64),
            _ => Val::E(e),
        }
    }

    fn bin(&mut self, op: Bin, w: u32, x: Val, y: Val) -> Res<Val> {
        if let (Val::C(x), Val::C(y)) = (x, y) {
            if w <= 64 {
                let m = m64(w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => {
                        if y == 0 && !matches!(op, Bin::AShr) {
                            return ub("division by zero");
                        }
                        eval_bin(op, w as u16, x as u128, y as u128) as u64
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.a.bin(op, a, b);
        Ok(self.norm(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, x: Val, y: Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (x, y) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => {
                    let (x, y) = (sx(x, w), sx(y, w));
                    match p {
                        Pred::Slt => x < y,
                        Pred::Sle => x <= y,
                        Pred::Sgt => x > y,
                        _ => x >= y,
                    }
                }
            };
            return Val::C(r as u64);
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = match p {
            Pred::Eq => self.a.cmp(Cmp::Eq, a, b),
            Pred::Ne => {
                let e = self.a.cmp(Cmp::Eq, a, b);
                self.a.not(e)
            }
            Pred::Ult => self.a.cmp(Cmp::Ult, a, b),
            Pred::Ugt => self.a.cmp(Cmp::Ult, b, a),
            Pred::Ule => {
                let e = self.a.cmp(Cmp::Ult, b, a);
                self.a.not(e)
            }
            Pred::Uge => {
                let e = self.a.cmp(Cmp::Ult, a, b);
                self.a.not(e)
            }
            Pred::Slt => self.a.cmp(Cmp::Slt, a, b),
            Pred::Sgt => self.a.cmp(Cmp::Slt, b, a),
            Pred::Sle => {
                let e = self.a.cmp(Cmp::Slt, b, a);
                self.a.not(e)
            }
            Pred::Sge => {
                let e = self.a.cmp(Cmp::Slt, a, b);
                self.a.not(e)
            }
        };
        self.norm(r)
    }

    fn cast(&mut self, k: Cast, from: u32, to: u32, x: Val) -> Val {
        match x {
            Val::C(c) if to <= 64 => match k {
                Cast::Trunc => Val::C(c & m64(to)),
                Cast::ZExt => Val::C(c),
                Cast::SExt => Val::C(sx(c, from) as u64 & m64(to)),
            },
            _ => {
                let e = self.ex(x, from);
                let r = match k {
                    Cast::Trunc => self.a.extract(e, 0, to as u16),
                    Cast::ZExt => self.a.zext(e, to as u16),
                    Cast::SExt => self.a.sext(e, to as u16),
                };
                self.norm(r)
            }
        }
    }

    // ---- memory -------------------------------------------------------------------------

    fn locate<'s>(&self, st: &'s State, addr: u64, n: usize, what: &str) -> Res<(&'s Obj, usize)> {
        let i = (addr >> OBJ_SHIFT) as usize;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        if addr >> 60 != 0 {
            return ub(format!("{what} of {n} bytes at invalid address {addr:#x}"));
        }
        match st.mem.get(i) {
            Some(o) if off + n <= o.data.len() => Ok((o, off)),
            Some(o) => ub(format!("{what} of {n} bytes at offset {off} of an object of {} bytes", o.data.len())),
            None => ub(format!("{what} of {n} bytes at invalid or freed address {addr:#x}")),
        }
    }

    fn load_bits(&mut self, st: &State, addr: u64, w: u32) -> Res<Val> {
        let n = (w as usize + 7) / 8;
        let (o, off) = self.locate(st, addr, n, "read")?;
        let symbolic = match &o.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|&x| x != 0),
        };
        if !symbolic {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::E(self.a.konst(u128::from_le_bytes(b), w as u16)));
        }
        let s = o.sym.as_ref().unwrap();
        let mut acc: Option<Id> = None;
        for k in (0..n).rev() {
            let x = s[off + k];
            let b = if x != 0 { x } else { self.a.konst(o.data[off + k] as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(h) => self.a.concat(h, b),
            });
        }
        let mut e = acc.unwrap();
        if w % 8 != 0 {
            e = self.a.extract(e, 0, w as u16);
        }
        Ok(self.norm(e))
    }

    fn obj_mut<'s>(&self, st: &'s mut State, addr: u64, n: usize, what: &str) -> Res<(&'s mut Obj, usize)> {
        self.locate(st, addr, n, what)?;
        let i = (addr >> OBJ_SHIFT) as usize;
        let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
        if st.mem.get(i).unwrap().ro {
            return ub(format!("{what} to read-only memory"));
        }
        Ok((st.mem.get_mut(i).unwrap(), off))
    }

    fn store_bits(&mut self, st: &mut State, addr: u64, w: u32, v: Val) -> Res<()> {
        let n = (w as usize + 7) / 8;
        match v {
            Val::C(c) => {
                let (o, off) = self.obj_mut(st, addr, n, "write")?;
                let b = (c as u128).to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].iter_mut().for_each(|x| *x = 0);
                }
            }
            Val::E(e) => {
                let mut e = e;
                if w % 8 != 0 {
                    e = self.a.zext(e, (n * 8) as u16);
                }
                let mut ids = [0u32; 16];
                let mut by = [0u8; 16];
                for k in 0..n {
                    let x = self.a.extract(e, 8 * k as u16, 8);
                    match self.a.as_const(x) {
                        Some(c) => by[k] = c as u8,
                        None => ids[k] = x,
                    }
                }
                let (o, off) = self.obj_mut(st, addr, n, "write")?;
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len].into());
                for k in 0..n {
                    o.data[off + k] = by[k];
                    s[off + k] = ids[k];
                }
            }
        }
        Ok(())
    }

    /// Address operand of a load: concrete, or a small table lookup turned into if-then-else.
    fn load(&mut self, st: &State, ptr: Val, w: u32, off: u64) -> Res<Val> {
        match ptr {
            Val::C(p) => self.load_bits(st, p.wrapping_add(off), w),
            Val::E(e) => {
                let vars = self.a.vars(e);
                if vars.count_ones() == 1 && off == 0 {
                    let v = vars.trailing_zeros() as usize;
                    let d = st.doms[v];
                    let mut asg = [0u8; 128];
                    let mut addrs: BTreeSet<u64> = Default::default();
                    for x in 0..=255u8 {
                        if thas(&d, x) {
                            asg[v] = x;
                            addrs.insert(self.a.eval(e, &asg) as u64);
                        }
                    }
                    let objs: BTreeSet<u64> = addrs.iter().map(|a| a >> OBJ_SHIFT).collect();
                    let n = (w as usize + 7) / 8;
                    let ro = |a: u64| st.mem.get((a >> OBJ_SHIFT) as usize).map_or(false, |o| {
                        o.ro && o.sym.is_none() && (a & ((1 << OBJ_SHIFT) - 1)) as usize + n <= o.data.len()
                    });
                    if objs.len() == 1 && addrs.iter().all(|&a| ro(a)) {
                        // group by value
                        let mut by: BTreeMap<u64, Vec<u64>> = Default::default();
                        for &a in &addrs {
                            if let Val::C(x) = self.load_bits(st, a, w)? {
                                by.entry(x).or_default().push(a);
                            }
                        }
                        let big = *by.iter().max_by_key(|(_, v)| v.len()).unwrap().0;
                        // pointers read from a table are forked on
                        if by.len() <= 64 {
                            let mut acc = self.a.konst(big as u128, w as u16);
                            for (x, aa) in &by {
                                if *x == big {
                                    continue;
                                }
                                let mut c = self.a.bool(false);
                                for &ad in aa {
                                    let q = self.a.eq_const(e, ad as u128);
                                    c = self.a.or(c, q);
                                }
                                let k = self.a.konst(*x as u128, w as u16);
                                acc = self.a.ite(c, k, acc);
                            }
                            return Ok(self.norm(acc));
                        }
                    }
                }
                let p = self.conc(st, ptr)?;
                self.load_bits(st, p.wrapping_add(off), w)
            }
        }
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.locate(st, s, n, "read")?;
        let data = o.data[off..off + n].to_vec();
        let sym: Option<Vec<Id>> = o.sym.as_ref().and_then(|x| {
            let x = &x[off..off + n];
            if x.iter().any(|&i| i != 0) {
                Some(x.to_vec())
            } else {
                None
            }
        });
        let (o, off) = self.obj_mut(st, d, n, "write")?;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(x) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len].into());
                s[off..off + n].copy_from_slice(&x);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    s[off..off + n].iter_mut().for_each(|i| *i = 0);
                }
            }
        }
        Ok(())
    }

    fn free(&mut self, st: &mut State, p: u64) -> Res<()> {
        if p == 0 {
            return Ok(());
        }
        let i = (p >> OBJ_SHIFT) as usize;
        match st.mem.get(i) {
            Some(o) if o.heap && p & ((1 << OBJ_SHIFT) - 1) == 0 => {
                st.mem.live_heap -= o.data.len() as u64;
                st.mem.set(i, None);
                Ok(())
            }
            _ => ub(format!("free of {p:#x}, which is not a live heap block")),
        }
    }

    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> Res<Val> {
        if n > (1 << OBJ_SHIFT) - 64 {
            return err(format!("allocation of {n} bytes"));
        }
        Ok(Val::C(st.mem.alloc_heap(n as usize, al)))
    }

    fn cstr(&self, st: &State, p: u64, n: usize) -> Option<String> {
        let (o, off) = self.locate(st, p, n, "read").ok()?;
        Some(String::from_utf8_lossy(&o.data[off..off + n]).into_owned())
    }

    fn location(&self, st: &State, p: u64) -> Option<String> {
        let (o, off) = self.locate(st, p, 24, "read").ok()?;
        if o.heap || o.data.len() - off < 24 {
            return None;
        }
        let g = |k: usize| u64::from_le_bytes(o.data[off + k..off + k + 8].try_into().unwrap());
        let (fp, len) = (g(0), g(8));
        let l = g(16);
        if len == 0 || len > 400 {
            return None;
        }
        let f = self.cstr(st, fp, len as usize)?;
        if !f.ends_with(".rs") {
            return None;
        }
        Some(format!("{f}:{}:{}", l as u32, l >> 32))
    }

    fn backtrace(&self, st: &State) -> String {
        let mut v = vec![demangle(&self.p.m.funcs[st.top.func as usize].name)];
        for f in st.stack.iter().rev().take(6) {
            if f.regs.is_empty() {
                break;
            }
            v.push(demangle(&self.p.m.funcs[f.func as usize].name));
        }
        v.join(" < ")
    }

    // ---- calls --------------------------------------------------------------------------

    fn ret_set(&mut self, st: &mut State, dst: u32, v: &[Val]) {
        if dst != u32::MAX {
            for (i, x) in v.iter().enumerate() {
                st.top.regs[dst as usize + i] = *x;
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, b: Bi, fname: &str, a: &[Val], w: u32, ndst: u32) -> Res<Vec<Val>> {
        // width from the name suffix for overflow intrinsics
        let nw = || fname.rsplit('.').next().and_then(|x| x.strip_prefix('i')).and_then(|x| x.parse::<u32>().ok()).unwrap_or(w.max(1));
        let one = |v: Val| Ok(vec![v]);
        match b {
            Bi::None | Bi::RunUtf8 => err(format!("call to undefined function {fname}")),
            Bi::Nop => Ok(vec![Val::C(0); ndst as usize]),
            Bi::Memcpy | Bi::Memmove => {
                let (d, s, n) = (self.conc(st, a[0])?, self.conc(st, a[1])?, self.conc(st, a[2])?);
                self.copy(st, d, s, n as usize)?;
                if ndst == 1 {
                    one(Val::C(d))
                } else {
                    Ok(vec![])
                }
            }
            Bi::Memset => {
                let (d, n) = (self.conc(st, a[0])?, self.conc(st, a[2])?);
                if n > 0 {
                    match a[1] {
                        Val::C(c) => {
                            let (o, off) = self.obj_mut(st, d, n as usize, "write")?;
                            o.data[off..off + n as usize].fill(c as u8);
                            if let Some(s) = &mut o.sym {
                                s[off..off + n as usize].fill(0);
                            }
                        }
                        Val::E(e) => {
                            let e = self.a.extract(e, 0, 8);
                            for i in 0..n {
                                self.store_bits(st, d + i, 8, Val::E(e))?;
                            }
                        }
                    }
                }
                if ndst == 1 {
                    one(Val::C(d))
                } else {
                    Ok(vec![])
                }
            }
            Bi::Bcmp | Bi::Memcmp => {
                let (p, q, n) = (self.conc(st, a[0])?, self.conc(st, a[1])?, self.conc(st, a[2])?);
                if n == 0 {
                    return one(Val::C(0));
                }
                let mut acc = self.a.konst(0, 32);
                // from the last byte: if this byte differs, its sign, else the rest
                for i in (0..n).rev() {
                    let x = self.load_bits(st, p + i, 8)?;
                    let y = self.load_bits(st, q + i, 8)?;
                    let (x, y) = (self.ex(x, 8), self.ex(y, 8));
                    let e = self.a.eq(x, y);
                    let d = if b == Bi::Bcmp {
                        self.a.konst(1, 32)
                    } else {
                        let l = self.a.cmp(Cmp::Ult, x, y);
                        let (m, o) = (self.a.konst(u32::MAX as u128, 32), self.a.konst(1, 32));
                        self.a.ite(l, m, o)
                    };
                    acc = self.a.ite(e, acc, d);
                }
                let v = self.norm(acc);
                one(v)
            }
            Bi::Strlen => {
                let p = self.conc(st, a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load_bits(st, p + n, 8)?;
                    if self.conc(st, v)? == 0 {
                        return one(Val::C(n));
                    }
                    n += 1;
                }
            }
            Bi::Assume => Ok(vec![]),
            Bi::Expect | Bi::TlsAddr => one(a[0]),
            Bi::IsConst => one(Val::C(0)),
            Bi::UMin | Bi::UMax | Bi::SMin | Bi::SMax => {
                let p = match b {
                    Bi::UMin => Pred::Ult,
                    Bi::UMax => Pred::Ugt,
                    Bi::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let n = a.len() / 2;
                let w = if n == 1 { w } else { 8 };
                let mut out = vec![];
                for i in 0..n {
                    let c = self.icmp(p, w, a[i], a[n + i]);
                    out.push(self.sel(st, c, a[i], a[n + i], w, false)?);
                }
                Ok(out)
            }
            Bi::Abs => {
                let z = Val::C(0);
                let c = self.icmp(Pred::Slt, w, a[0], z);
                let n = self.bin(Bin::Sub, w, z, a[0])?;
                one(self.sel(st, c, n, a[0], w, false)?)
            }
            Bi::USubSat => {
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                let d = self.bin(Bin::Sub, w, a[0], a[1])?;
                one(self.sel(st, c, Val::C(0), d, w, false)?)
            }
            Bi::UAddSat => {
                let d = self.bin(Bin::Add, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, d, a[0]);
                one(self.sel(st, c, Val::C(m64(w)), d, w, false)?)
            }
            Bi::UAddO => {
                let w = nw();
                let d = self.bin(Bin::Add, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, d, a[0]);
                Ok(vec![d, c])
            }
            Bi::USubO => {
                let w = nw();
                let d = self.bin(Bin::Sub, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                Ok(vec![d, c])
            }
            Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let w = nw();
                let (x, y) = (self.ex(a[0], w), self.ex(a[1], w));
                let ww = (2 * w) as u16;
                let s = b != Bi::UMulO;
                let (x, y) = if s { (self.a.sext(x, ww), self.a.sext(y, ww)) } else { (self.a.zext(x, ww), self.a.zext(y, ww)) };
                let op = match b {
                    Bi::SAddO => Bin::Add,
                    Bi::SSubO => Bin::Sub,
                    _ => Bin::Mul,
                };
                let r = self.a.bin(op, x, y);
                let lo = self.a.extract(r, 0, w as u16);
                let back = if s { self.a.sext(lo, ww) } else { self.a.zext(lo, ww) };
                let e = self.a.eq(back, r);
                let o = self.a.not(e);
                Ok(vec![self.norm(lo), self.norm(o)])
            }
            Bi::SSubSat | Bi::SAddSat => err(format!("{fname}")),
            Bi::Ctpop | Bi::Ctlz | Bi::Cttz | Bi::Bswap | Bi::Bitrev => {
                let f = |c: u64| -> u64 {
                    match b {
                        Bi::Ctpop => c.count_ones() as u64,
                        Bi::Ctlz => (c.leading_zeros() as u64).wrapping_sub(64 - w as u64),
                        Bi::Cttz => {
                            if c == 0 {
                                w as u64
                            } else {
                                c.trailing_zeros() as u64
                            }
                        }
                        Bi::Bswap => c.swap_bytes() >> (64 - w),
                        _ => c.reverse_bits() >> (64 - w),
                    }
                };
                match a[0] {
                    Val::C(c) if w <= 64 => one(Val::C(f(c))),
                    Val::E(e) if w <= 64 => {
                        // bit-by-bit
                        let r = match b {
                            Bi::Ctpop => {
                                let mut acc = self.a.konst(0, w as u16);
                                for i in 0..w as u16 {
                                    let x = self.a.extract(e, i, 1);
                                    let x = self.a.zext(x, w as u16);
                                    acc = self.a.bin(Bin::Add, acc, x);
                                }
                                acc
                            }
                            Bi::Ctlz | Bi::Cttz => {
                                let mut acc = self.a.konst(w as u128, w as u16);
                                for i in 0..w as u16 {
                                    let (bit, n) = if b == Bi::Ctlz { (i, w as u16 - 1 - i) } else { (w as u16 - 1 - i, w as u16 - 1 - i) };
                                    let x = self.a.extract(e, bit, 1);
                                    let k = self.a.konst(n as u128, w as u16);
                                    acc = self.a.ite(x, k, acc);
                                }
                                acc
                            }
                            Bi::Bswap => {
                                let n = w as u16 / 8;
                                let mut acc = self.a.extract(e, 0, 8);
                                for i in 1..n {
                                    let x = self.a.extract(e, 8 * i, 8);
                                    acc = self.a.concat(acc, x);
                                }
                                acc
                            }
                            _ => {
                                let mut acc = self.a.extract(e, 0, 1);
                                for i in 1..w as u16 {
                                    let x = self.a.extract(e, i, 1);
                                    acc = self.a.concat(acc, x);
                                }
                                acc
                            }
                        };
                        one(self.norm(r))
                    }
                    _ => err(format!("{fname} on wide value")),
                }
            }
            Bi::Fshl | Bi::Fshr => {
                let s = self.conc(st, a[2])? % w as u64;
                let (h, l) = (self.ex(a[0], w), self.ex(a[1], w));
                let c = self.a.concat(h, l);
                let lo = if b == Bi::Fshl { w as u64 - s } else { s };
                let r = self.a.extract(c, lo as u16, w as u16);
                one(self.norm(r))
            }
            Bi::Ucmp | Bi::Scmp => {
                // llvm.ucmp.iR.iA: operand width is the last suffix
                let aw = nw();
                let p = if b == Bi::Ucmp { Pred::Ult } else { Pred::Slt };
                let l = self.icmp(p, aw, a[0], a[1]);
                let g = self.icmp(p, aw, a[1], a[0]);
                let x = self.sel(st, g, Val::C(1), Val::C(0), w, false)?;
                one(self.sel(st, l, Val::C(m64(w)), x, w, false)?)
            }
            Bi::LoadRel => {
                let (p, o) = (self.conc(st, a[0])?, self.conc(st, a[1])?);
                match self.load_bits(st, p.wrapping_add(o), 32)? {
                    Val::C(r) => {
                        let r = match self.p.m.rel.get((r as usize).wrapping_sub(REL as usize)) {
                            Some(x) => *x as u64,
                            None => sx(r, 32) as u64,
                        };
                        one(Val::C(p.wrapping_add(r)))
                    }
                    _ => err("load.relative"),
                }
            }
            Bi::PtrMask => one(self.bin(Bin::And, 64, a[0], a[1])?),
            Bi::ReduceOr | Bi::ReduceAnd | Bi::ReduceAdd | Bi::ReduceUMax => {
                let mut acc = a[0];
                for x in &a[1..] {
                    acc = match b {
                        Bi::ReduceOr => self.bin(Bin::Or, w, acc, *x)?,
                        Bi::ReduceAnd => self.bin(Bin::And, w, acc, *x)?,
                        Bi::ReduceAdd => self.bin(Bin::Add, w, acc, *x)?,
                        _ => {
                            let c = self.icmp(Pred::Ugt, w, acc, *x);
                            self.sel(st, c, acc, *x, w, false)?
                        }
                    };
                }
                one(acc)
            }
            Bi::Trap => Err(Stop::Viol("abort".into(), format!("abort at {}", self.backtrace(st)))),
            Bi::Alloc | Bi::AllocZ => {
                let (n, al) = (self.conc(st, a[0])?, self.conc(st, a[1])?);
                one(self.alloc(st, n, al)?)
            }
            Bi::Malloc => {
                let n = self.conc(st, a[0])?;
                one(self.alloc(st, n, 16)?)
            }
            Bi::Calloc => {
                let n = self.conc(st, a[0])? * self.conc(st, a[1])?;
                one(self.alloc(st, n, 16)?)
            }
            Bi::Memalign => {
                let (n, al) = (self.conc(st, a[2])?, self.conc(st, a[1])?);
                let p = self.alloc(st, n, al)?;
                let d = self.conc(st, a[0])?;
                self.store_bits(st, d, 64, p)?;
                one(Val::C(0))
            }
            Bi::Dealloc | Bi::Free => {
                let p = self.conc(st, a[0])?;
                self.free(st, p)?;
                Ok(vec![])
            }
            Bi::Realloc | Bi::CRealloc => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[if b == Bi::Realloc { 3 } else { 1 }])?;
                let al = if b == Bi::Realloc { self.conc(st, a[2])? } else { 16 };
                let q = match self.alloc(st, n, al)? {
                    Val::C(q) => q,
                    _ => unreachable!(),
                };
                if p != 0 {
                    let (o, _) = self.locate(st, p, 0, "realloc")?;
                    let old = o.data.len().min(n as usize);
                    self.copy(st, q, p, old)?;
                    self.free(st, p)?;
                }
                one(Val::C(q))
            }
            Bi::HashOne => one(Val::C(0x5bd1_e995_1234_5678)),
            Bi::RandKeys => Ok(vec![Val::C(1), Val::C(2)]),
            Bi::Panic => {
                let mut loc = String::new();
                let mut msg = String::new();
                for (i, x) in a.iter().enumerate() {
                    if let Val::C(p) = x {
                        if let Some(l) = self.location(st, *p) {
                            loc = l;
                        } else if let (true, Some(Val::C(n))) = (msg.is_empty(), a.get(i + 1)) {
                            if *n > 0 && *n < 300 && p >> OBJ_SHIFT >= 16 && p >> 60 == 0 {
                                if let Some(s) = self.cstr(st, *p, *n as usize) {
                                    if s.chars().all(|c| !c.is_control()) {
                                        msg = s;
                                    }
                                }
                            }
                        }
                    }
                }
                let f = demangle(fname);
                Err(Stop::Viol("panic".into(), format!("{f} {msg} at {loc} in {}", self.backtrace(st))))
            }
            Bi::SymBytes => {
                let (p, n) = (self.conc(st, a[0])?, self.conc(st, a[1])?);
                for i in 0..n {
                    let k = st.doms.len();
                    if k >= 128 {
                        return err("more than 128 symbolic bytes");
                    }
                    st.doms.push([u64::MAX; 4]);
                    if st.model.len() <= k {
                        st.model.push(b'a');
                    }
                    let v = self.a.var(k as u16);
                    self.store_bits(st, p + i, 8, Val::E(v))?;
                }
                Ok(vec![])
            }
            Bi::SymSet => {
                // sym_set(bitmap: *const [u8; 32]) -> u8
                let p = self.conc(st, a[0])?;
                let (o, off) = self.locate(st, p, 32, "read")?;
                let bm = o.data[off..off + 32].to_vec();
                let k = st.doms.len();
                if k >= 128 {
                    return err("more than 128 symbolic bytes");
                }
                st.doms.push([u64::MAX; 4]);
                let v = self.a.var(k as u16);
                let mut c = self.a.bool(false);
                let mut first = None;
                let mut i = 0usize;
                while i < 256 {
                    if bm[i / 8] >> (i % 8) & 1 == 0 {
                        i += 1;
                        continue;
                    }
                    let lo = i;
                    while i < 256 && bm[i / 8] >> (i % 8) & 1 != 0 {
                        i += 1;
                    }
                    if first.is_none() {
                        first = Some(lo);
                    }
                    let kl = self.a.konst(lo as u128, 8);
                    let d = self.a.bin(Bin::Sub, v, kl);
                    let r = if i - lo == 256 {
                        self.a.bool(true)
                    } else {
                        let kn = self.a.konst((i - lo) as u128, 8);
                        self.a.cmp(Cmp::Ult, d, kn)
                    };
                    c = self.a.or(c, r);
                }
                let first = match first {
                    None => return Err(Stop::Discard),
                    Some(f) => f,
                };
                let mut t = [0u64; 4];
                for i in 0..256 {
                    if bm[i / 8] >> (i % 8) & 1 != 0 {
                        t[i / 64] |= 1 << (i % 64);
                    }
                }
                if st.model.len() <= k {
                    let _ = first;
                    st.model.push(tfirst(&t));
                } else if !thas(&t, st.model[k]) {
                    return err("replayed model outside of its set");
                }
                self.constrain(st, c);
                one(Val::E(v))
            }
            Bi::SymAssume => {
                if self.branch(st, a[0])? {
                    Ok(vec![])
                } else {
                    Err(Stop::Discard)
                }
            }
            Bi::SymConc => {
                let v = self.conc(st, a[0])?;
                one(Val::C(v))
            }
            Bi::SymFail => {
                let (p, n) = (self.conc(st, a[0])?, self.conc(st, a[1])?);
                let s = self.cstr(st, p, n as usize).unwrap_or_default();
                Err(Stop::Viol("property".into(), s))
            }
            Bi::SymReach => {
                let k = self.conc(st, a[0])? as u32;
                self.reach.entry(st.job).or_default().insert(k);
                st.notes |= 1u64 << (k % 64);
                Ok(vec![])
            }
            Bi::SymNote => Ok(vec![]),
            Bi::SymSteps => one(Val::C(st.steps)),
        }
    }

    fn sel(&mut self, st: &State, c: Val, x: Val, y: Val, w: u32, ptr: bool) -> Res<Val> {
        match c {
            Val::C(k) => Ok(if k & 1 != 0 { x } else { y }),
            Val::E(e) => {
                if x == y {
                    return Ok(x);
                }
                match self.tri(st, e)? {
                    Ok(b) => Ok(if b { x } else { y }),
                    Err(s) => {
                        if ptr || w > 32 {
                            return Err(Stop::Fork(s, 0));
                        }
                        let (p, q) = (self.ex(x, w), self.ex(y, w));
                        let r = self.a.ite(e, p, q);
                        Ok(self.norm(r))
                    }
                }
            }
        }
    }

    fn jump(&mut self, st: &mut State, t: u32) {
        let f = &self.p.m.funcs[st.top.func as usize];
        let b = &f.blocks[t as usize];
        if !b.phis.is_empty() {
            let from = st.top.block;
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for ph in &b.phis {
                for (l, v) in &ph.inc {
                    if *l == from {
                        for (i, o) in v.iter().enumerate() {
                            let x = self.op(st, *o);
                            tmp.push((ph.dst + i as u32, x));
                        }
                        break;
                    }
                }
            }
            for (d, v) in tmp {
                st.top.regs[d as usize] = v;
            }
        }
        st.top.block = t;
        st.top.ip = 0;
    }

    /// Returns Ok(()) when the entry function returns.
    fn run(&mut self, st: &mut State) -> Res<()> {
        let prog: &'p Prog = self.p;
        loop {
            let f = &prog.m.funcs[st.top.func as usize];
            let ins = &f.blocks[st.top.block as usize].ins[st.top.ip as usize];
            st.steps += 1;
            self.steps += 1;
            if st.steps > self.lim.max_steps {
                return Err(Stop::Viol("hang".into(), format!("more than {} instructions, in {}", self.lim.max_steps, self.backtrace(st))));
            }
            match ins {
                Ins::Bin { op, w, dst, a, b } => {
                    let (x, y) = (self.op(st, *a), self.op(st, *b));
                    st.top.regs[*dst as usize] = self.bin(*op, *w, x, y)?;
                }
                Ins::Icmp { p, w, dst, a, b } => {
                    let (x, y) = (self.op(st, *a), self.op(st, *b));
                    st.top.regs[*dst as usize] = self.icmp(*p, *w, x, y);
                }
                Ins::Cast { k, from, to, dst, a } => {
                    let x = self.op(st, *a);
                    st.top.regs[*dst as usize] = self.cast(*k, *from, *to, x);
                }
                Ins::Move { dst, src } => {
                    // sources may overlap destinations only for identical registers
                    for (i, s) in src.iter().enumerate() {
                        let v = self.op(st, *s);
                        st.top.regs[*dst as usize + i] = v;
                    }
                }
                Ins::Gep { dst, base, off, idx } => {
                    let mut v = self.op(st, *base);
                    v = match v {
                        Val::C(c) => Val::C(c.wrapping_add(*off)),
                        _ if *off == 0 => v,
                        _ => self.bin(Bin::Add, 64, v, Val::C(*off))?,
                    };
                    for (o, w, scale) in idx.iter() {
                        let i = self.op(st, *o);
                        let i = self.cast(Cast::SExt, *w, 64, i);
                        let i = self.bin(Bin::Mul, 64, i, Val::C(*scale))?;
                        v = self.bin(Bin::Add, 64, v, i)?;
                    }
                    st.top.regs[*dst as usize] = v;
                }
                Ins::Load { dst, comps, ptr } => {
                    let p = self.op(st, *ptr);
                    if comps.len() == 1 {
                        st.top.regs[*dst as usize] = self.load(st, p, comps[0].0, comps[0].1 as u64)?;
                    } else {
                        let p = Val::C(self.conc(st, p)?);
                        for (i, (w, o)) in comps.iter().enumerate() {
                            st.top.regs[*dst as usize + i] = self.load(st, p, *w, *o as u64)?;
                        }
                    }
                }
                Ins::Store { comps, ptr } => {
                    let p = self.op(st, *ptr);
                    let p = self.conc(st, p)?;
                    for (w, o, v) in comps.iter() {
                        let v = self.op(st, *v);
                        self.store_bits(st, p + *o as u64, *w, v)?;
                    }
                }
                Ins::Alloca { .. } | Ins::Nop => {}
                Ins::Select { dst, w, c, a, b, ptr } => {
                    let c = self.op(st, *c);
                    if a.len() == 1 {
                        let (x, y) = (self.op(st, a[0]), self.op(st, b[0]));
                        let r = self.sel(st, c, x, y, *w, *ptr)?;
                        st.top.regs[*dst as usize] = r;
                    } else {
                        let k = self.branch(st, c)?;
                        for i in 0..a.len() {
                            let v = self.op(st, if k { a[i] } else { b[i] });
                            st.top.regs[*dst as usize + i] = v;
                        }
                    }
                }
                Ins::VSelect { dst, w, c, a, b } => {
                    let mut out = vec![];
                    for i in 0..a.len() {
                        let (k, x, y) = (self.op(st, c[i]), self.op(st, a[i]), self.op(st, b[i]));
                        out.push(self.sel(st, k, x, y, *w, false)?);
                    }
                    self.ret_set(st, *dst, &out);
                }
                Ins::Pack { dst, w, src } => {
                    let tot = *w * src.len() as u32;
                    let mut allc = true;
                    let mut k: u128 = 0;
                    for (i, s) in src.iter().enumerate() {
                        match self.op(st, *s) {
                            Val::C(c) => k |= (c as u128 & mask(*w as u16)) << (i as u32 * *w),
                            Val::E(_) => allc = false,
                        }
                    }
                    let r = if allc {
                        if tot <= 64 {
                            Val::C(k as u64)
                        } else {
                            Val::E(self.a.konst(k, tot as u16))
                        }
                    } else {
                        let mut acc: Option<Id> = None;
                        for s in src.iter().rev() {
                            let v = self.op(st, *s);
                            let e = self.ex(v, *w);
                            acc = Some(match acc {
                                None => e,
                                Some(h) => self.a.concat(h, e),
                            });
                        }
                        self.norm(acc.unwrap())
                    };
                    st.top.regs[*dst as usize] = r;
                }
                Ins::Split { dst, from, w, n, src } => {
                    let v = self.op(st, *src);
                    let e = self.ex(v, *from);
                    for i in 0..*n {
                        let x = self.a.extract(e, (i * *w) as u16, *w as u16);
                        st.top.regs[(*dst + i) as usize] = self.norm(x);
                    }
                }
                Ins::Br { t } => {
                    self.jump(st, *t);
                    continue;
                }
                Ins::CondBr { c, t, f } => {
                    let c = self.op(st, *c);
                    let k = self.branch(st, c)?;
                    self.jump(st, if k { *t } else { *f });
                    continue;
                }
                Ins::Switch { w, v, def, cases } => {
                    let x = self.op(st, *v);
                    let t = match x {
                        Val::C(c) => cases.iter().find(|k| k.0 as u64 == c).map_or(*def, |k| k.1),
                        Val::E(e) => {
                            // one condition per distinct target
                            let mut tg: Vec<(u32, Id)> = vec![];
                            for (k, l) in cases.iter() {
                                let q = self.a.eq_const(e, *k & mask(*w as u16));
                                match tg.iter_mut().find(|x| x.0 == *l) {
                                    Some(x) => x.1 = self.a.or(x.1, q),
                                    None => tg.push((*l, q)),
                                }
                            }
                            let mut t = *def;
                            for (l, q) in tg {
                                let v = self.norm(q);
                                if l != *def && self.branch(st, v)? {
                                    t = l;
                                    break;
                                }
                            }
                            t
                        }
                    };
                    self.jump(st, t);
                    continue;
                }
                Ins::Ret { v } => {
                    let vals: Vec<Val> = v.iter().map(|o| self.op(st, *o)).collect();
                    if st.top.obj != 0 {
                        let o = st.top.obj;
                        st.mem.free_stack(o);
                    }
                    match st.stack.pop() {
                        None => return Ok(()),
                        Some(p) => {
                            let p = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                            let old = std::mem::replace(&mut st.top, p);
                            if self.regpool.len() < 64 { self.regpool.push(old.regs) };
                            if old.dst != u32::MAX {
                                for i in 0..(old.ndst as usize).min(vals.len()) {
                                    st.top.regs[old.dst as usize + i] = vals[i];
                                }
                            }
                            if old.normal != u32::MAX {
                                self.jump(st, old.normal);
                            } else {
                                st.top.ip += 1;
                            }
                        }
                    }
                    continue;
                }
                Ins::Call { dst, ndst, dstw, callee, args, normal } => {
                    let fi = match callee {
                        Callee::Func(f) => *f,
                        Callee::Indirect(o) => {
                            let v = self.op(st, *o);
                            let p = self.conc(st, v)?;
                            let i = p.wrapping_sub(FN_BASE);
                            if p < FN_BASE || i / 16 >= prog.m.funcs.len() as u64 || i % 16 != 0 {
                                return ub(format!("call through invalid pointer {p:#x}"));
                            }
                            (i / 16) as u32
                        }
                    };
                    let info = &prog.info[fi as usize];
                    let fun = &prog.m.funcs[fi as usize];
                    let mut av = [Val::C(0); 40];
                    if args.len() > 40 {
                        return err("more than 40 argument components");
                    }
                    for (i, o) in args.iter().enumerate() {
                        av[i] = self.op(st, *o);
                    }
                    let av = &av[..args.len()];
                    if info.bi != Bi::None && info.bi != Bi::RunUtf8 {
                        let r = self.intrinsic(st, info.bi, &fun.name, av, *dstw, *ndst)?;
                        self.ret_set(st, *dst, &r);
                        match normal {
                            Some((l, _)) => {
                                self.jump(st, *l);
                                continue;
                            }
                            None => {
                                st.top.ip += 1;
                                continue;
                            }
                        }
                    }
                    if !fun.defined {
                        return err(format!("call to undefined function {}", fun.name));
                    }
                    self.enter(st, fi, av, *dst, *ndst, normal.map_or(u32::MAX, |n| n.0))?;
                    continue;
                }
                Ins::AtomicRmw { op, w, dst, ptr, v } => {
                    let p = self.op(st, *ptr);
                    let p = self.conc(st, p)?;
                    let v = self.op(st, *v);
                    let old = self.load_bits(st, p, *w)?;
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Bin::Add, *w, old, v)?,
                        "sub" => self.bin(Bin::Sub, *w, old, v)?,
                        "or" => self.bin(Bin::Or, *w, old, v)?,
                        "and" => self.bin(Bin::And, *w, old, v)?,
                        "xor" => self.bin(Bin::Xor, *w, old, v)?,
                        _ => return err(format!("atomicrmw {op}")),
                    };
                    self.store_bits(st, p, *w, new)?;
                    st.top.regs[*dst as usize] = old;
                }
                Ins::CmpXchg { w, dst, ptr, cmp, new } => {
                    let p = self.op(st, *ptr);
                    let p = self.conc(st, p)?;
                    let (x, y) = (self.op(st, *cmp), self.op(st, *new));
                    let old = self.load_bits(st, p, *w)?;
                    let c = self.icmp(Pred::Eq, *w, old, x);
                    let k = self.branch(st, c)?;
                    if k {
                        self.store_bits(st, p, *w, y)?;
                    }
                    st.top.regs[*dst as usize] = old;
                    st.top.regs[*dst as usize + 1] = Val::C(k as u64);
                }
                Ins::Unreachable => {
                    return Err(Stop::Viol("unreachable".into(), format!("unreachable code reached in {}", self.backtrace(st))));
                }
                Ins::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
            }
            st.top.ip += 1;
        }
    }
}

/// Rough v0 demangling: the path identifiers only.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator: s [base62] _
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 13 && i > 0 && b[i - 1] == b'C' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && k < 100 {
                let s = &n[j..j + k];
                if s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(s.to_string());
                    i = j + k;
                    continue;
                }
            }
            i += 1;
            continue;
        }
        i += 1;
    }
    out.truncate(8);
    out.join("::")
}
