//! Symbolic execution of LLVM IR: memory model, instruction semantics and forking.
use crate::ir::*;
use crate::term::{mask, sext, Arena, Op, VarSet, MAXVARS, T};
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    T(T),
    W(Box<u128>),
    A(Rc<Vec<Val>>),
}
use Val::{A, I, W};

const OFFB: u32 = 38;
const OFFM: u64 = (1 << OFFB) - 1;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Heap,
    Stack,
    Global,
}

#[derive(Clone)]
pub struct Obj {
    bytes: Vec<u8>,
    sym: Vec<T>, // empty, or one entry per byte (0 = concrete)
    kind: Kind,
    grow: bool,
    ro: bool,
}

pub struct Model {
    id: u64,
    b: Vec<u8>,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    fid: u32,
    regs: Vec<Val>,
    blk: u32,
    ip: usize,
    allocas: Vec<u32>,
    ret_dst: Option<u32>,
    ret_to: Option<u32>,
}

#[derive(Clone)]
struct Mem {
    objs: Vec<Option<Rc<Obj>>>,
    gover: Rc<HashMap<u32, Rc<Obj>>>,
}

#[derive(Clone)]
struct Path {
    un: Vec<T>, // per variable: constraint (0 = none)
    multi: Vec<T>,
    mvars: VarSet,
    model: Rc<Model>,
    nsym: usize,
    forks: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    p: Path,
    steps: u64,
    live: u64,
    peak: u64,
    limit: u64,
    /// work beyond one step per instruction: bytes moved, set or compared, by the sixteen
    extra: u64,
    work0: u64,
    wlimit: u64,
    maxframes: usize,
    trace: Rc<Vec<(Val, u16)>>,
    covers: Rc<Vec<u64>>,
}

#[derive(Debug)]
pub enum Stop {
    Violation { kind: String, model: Option<Rc<Model>>, id: u64 },
    Unsupported(String),
    Killed,
    Done,
    Budget(String),
}
impl std::fmt::Debug for Model {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "model{}", self.id)
    }
}
type R<X> = Result<X, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ck {
    Unknown,
    Normal,
    Nop,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    AlignedAlloc,
    Free,
    Bcmp,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    SymBytes,
    SymDone,
    SymAssume,
    SymAssert,
    SymAssertEq,
    SymCover,
    SymTrace,
    SymLimit,
    SymWork,
    SymConc,
    SymIsNative,
    SymPeak,
    SymDepth,
    SymArg,
    Errno,
    AtExit,
    Random,
    Env,
    Clock,
    Write,
    Intr(In),
    Missing,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum In {
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddS(bool),
    SubS(bool),
    Min(bool),
    Max(bool),
    Abs,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Expect,
    IsConst,
    ObjSize,
    TlsAddr,
    LoadRel,
    Cmp(bool),
    Red(Op),
    RedMin(bool),
    RedMax(bool),
    PtrMask,
    Trap,
    FAbs,
    CopySign,
    FpClass,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub branches: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub qhits: u64,
    pub covers: std::collections::BTreeMap<u64, u64>,
    pub max_frames: usize,
    pub max_peak: u64,
    pub max_work: u64,
    pub nsym: usize,
    pub max_asserted_words: u64,
}

pub struct Limits {
    pub paths: u64,
    pub secs: f64,
    pub steps: u64,
    pub samples: usize,
}

pub struct Sample {
    pub bytes: Vec<u8>,
    pub hash: u64,
    pub covers: Vec<u64>,
}

pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
}

pub struct Outcome {
    pub status: String, // ok / violation / incomplete / unsupported
    pub msg: String,
    pub stats: Stats,
    pub samples: Vec<Sample>,
    pub violations: Vec<Violation>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub ztime: f64,
    pub zmax: f64,
    pub wall: f64,
}

pub struct Eng {
    pub m: Module,
    pub ar: Arena,
    pub z: Z3,
    qcache: HashMap<Vec<T>, Res>,
    gbase: HashMap<u32, Rc<Obj>>,
    nsyms: u32,
    ck: Vec<Ck>,
    work: Vec<State>,
    pub st: Stats,
    pub cov: HashMap<u32, (Rc<Func>, Vec<bool>)>,
    model_ctr: u64,
    opts: Opts,
    args: Vec<u64>,
    deadline: Option<Instant>,
}
#[derive(Clone, Default)]
pub struct Opts {
    pub continue_after_violation: u64,
}

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Unsupported(s.into()))
}

fn has(s: &VarSet, v: usize) -> bool {
    s[v / 64] >> (v % 64) & 1 != 0
}

impl Eng {
    pub fn new(m: Module, opts: Opts) -> Eng {
        let n = m.syms.len();
        Eng {
            m,
            ar: Arena::new(),
            z: Z3::new(60_000),
            qcache: HashMap::new(),
            gbase: HashMap::new(),
            nsyms: n as u32,
            ck: vec![Ck::Unknown; n],
            work: vec![],
            st: Stats::default(),
            cov: HashMap::new(),
            model_ctr: 1,
            opts,
            args: vec![],
            deadline: None,
        }
    }

    // ---- values -------------------------------------------------------------------------------
    fn kval(v: u128, w: u16) -> Val {
        let v = v & mask(w);
        if w <= 64 {
            I(v as u64)
        } else {
            W(Box::new(v))
        }
    }
    fn term(&mut self, v: &Val, w: u16) -> R<T> {
        match v {
            I(x) => Ok(self.ar.konst(*x as u128, w)),
            W(x) => Ok(self.ar.konst(**x, w)),
            Val::T(t) => {
                if self.ar.w(*t) != w {
                    return unsup(format!("width {} expected, term has {}", w, self.ar.w(*t)));
                }
                Ok(*t)
            }
            A(_) => unsup("aggregate used as scalar"),
        }
    }
    fn val(&self, t: T) -> Val {
        match self.ar.as_const(t) {
            Some(k) => Self::kval(k, self.ar.w(t)),
            None => Val::T(t),
        }
    }
    fn conc(v: &Val) -> Option<u128> {
        match v {
            I(x) => Some(*x as u128),
            W(x) => Some(**x),
            _ => None,
        }
    }
    fn zero(&self, ty: &Type) -> Val {
        match ty {
            Type::Struct(..) | Type::Arr(..) | Type::Vec(..) => {
                let n = ty.count();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.zero(&ty.elem(i)));
                }
                A(Rc::new(v))
            }
            _ => {
                if ty.bits().unwrap_or(0) > 64 {
                    W(Box::new(0))
                } else {
                    I(0)
                }
            }
        }
    }
    fn sym_addr(&self, s: u32) -> u64 {
        ((s as u64) + 1) << OFFB
    }
    fn const_val(&self, k: &Const, ty: &Type) -> R<Val> {
        Ok(match k {
            Const::Int(v) => match ty.bits() {
                Some(w) => Self::kval(*v, w as u16),
                None => return unsup("int constant of aggregate type"),
            },
            Const::Global(s, o) => I(self.sym_addr(*s).wrapping_add(*o as u64)),
            // 32-bit differences occur in tables read by llvm.load.relative: the distance packs that of the
            // symbols' numbers and that of the offsets (see Ck::LoadRel)
            Const::Diff(a, o, b, p) if ty.bits() == Some(32) => {
                let (sd, od) = (*a as i64 - *b as i64, (*o as i64).wrapping_sub(*p as i64));
                if sd.abs() >= 1 << 17 || od.abs() >= 1 << 13 {
                    return unsup("relative address too far away");
                }
                Self::kval(((sd << 14) + od) as u32 as u128, 32)
            }
            Const::Diff(a, o, b, p) => {
                let v = self.sym_addr(*a).wrapping_add(*o as u64).wrapping_sub(self.sym_addr(*b).wrapping_add(*p as u64));
                Self::kval(v as u128, ty.bits().unwrap_or(64) as u16)
            }
            Const::Zero => self.zero(ty),
            Const::Bytes(b) => A(Rc::new(b.iter().map(|x| I(*x as u64)).collect())),
            Const::Agg(v) => {
                let mut r = Vec::with_capacity(v.len());
                for (i, x) in v.iter().enumerate() {
                    r.push(self.const_val(x, &ty.elem(i))?);
                }
                A(Rc::new(r))
            }
            Const::Unsupported(s) => return unsup(s.clone()),
        })
    }
    #[inline]
    fn opd(&self, fr: &Frame, o: &Opd, ty: &Type) -> R<Val> {
        Ok(match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::I(x) => I(*x),
            Opd::K(k) => self.const_val(k, ty)?,
        })
    }

    // ---- globals and memory -------------------------------------------------------------------
    fn init_const(&self, k: &Const, ty: &Type, out: &mut [u8]) -> R<()> {
        match k {
            Const::Zero => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    let et = ty.elem(i);
                    let n = et.size() as usize;
                    self.init_const(x, &et, &mut out[o..o + n])?;
                }
            }
            _ => {
                let v = self.const_val(k, ty)?;
                let n = ty.store_size() as usize;
                let x = Self::conc(&v).unwrap();
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
        Ok(())
    }
    fn global(&mut self, s: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gbase.get(&s) {
            return Ok(o.clone());
        }
        let (ty, constant) = match &self.m.syms[s as usize].kind {
            SymKind::Global { ty, constant, .. } => (ty.clone(), *constant),
            _ => return unsup(format!("data access to function {}", self.m.syms[s as usize].name)),
        };
        let k = self.m.global_init(s).map_err(Stop::Unsupported)?;
        let mut bytes = vec![0u8; ty.size() as usize];
        match k {
            Some(k) => self.init_const(&k, &ty, &mut bytes)?,
            None => return unsup(format!("external global {}", self.m.syms[s as usize].name)),
        }
        let o = Rc::new(Obj { bytes, sym: vec![], kind: Kind::Global, grow: false, ro: constant });
        self.gbase.insert(s, o.clone());
        Ok(o)
    }
    /// (object, offset) of an access of n bytes
    fn locate(&mut self, mem: &Mem, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let id = (addr >> OFFB).wrapping_sub(1);
        let off = addr & OFFM;
        let o = if id < self.nsyms as u64 {
            match mem.gover.get(&(id as u32)) {
                Some(o) => o.clone(),
                None => self.global(id as u32)?,
            }
        } else {
            match mem.objs.get((id - self.nsyms as u64) as usize) {
                Some(Some(o)) => o.clone(),
                _ => return Err(self.memfault(format!("invalid memory access at {:#x}", addr))),
            }
        };
        if off + n > o.bytes.len() as u64 && !o.grow {
            return Err(self.memfault(format!("out of bounds access at {:#x}+{} of an object of {} bytes", addr, n, o.bytes.len())));
        }
        Ok((o, off as usize))
    }
    fn memfault(&self, s: String) -> Stop {
        Stop::Violation { kind: format!("memory: {}", s), model: None, id: u64::MAX }
    }
    fn with_obj<X>(&mut self, mem: &mut Mem, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> X) -> R<X> {
        let id = (addr >> OFFB).wrapping_sub(1);
        let off = addr & OFFM;
        let rc: &mut Rc<Obj> = if id < self.nsyms as u64 {
            let id = id as u32;
            if !mem.gover.contains_key(&id) {
                let o = self.global(id)?;
                Rc::make_mut(&mut mem.gover).insert(id, o);
            }
            Rc::make_mut(&mut mem.gover).get_mut(&id).unwrap()
        } else {
            match mem.objs.get_mut((id - self.nsyms as u64) as usize) {
                Some(Some(o)) => o,
                _ => return Err(self.memfault(format!("invalid memory access at {:#x}", addr))),
            }
        };
        if off + n > rc.bytes.len() as u64 {
            if rc.grow && off + n < (1 << 26) {
                let o = Rc::make_mut(rc);
                o.bytes.resize((off + n) as usize, 0);
                if !o.sym.is_empty() {
                    o.sym.resize((off + n) as usize, 0);
                }
            } else {
                let l = rc.bytes.len();
                return Err(self.memfault(format!("out of bounds write at {:#x}+{} of an object of {} bytes", addr, n, l)));
            }
        }
        if rc.ro {
            return Err(self.memfault(format!("write to constant at {:#x}", addr)));
        }
        Ok(f(Rc::make_mut(rc), off as usize))
    }
    fn alloc(&mut self, mem: &mut Mem, n: usize, kind: Kind) -> R<u64> {
        let id = mem.objs.len() as u64 + self.nsyms as u64;
        if id >= (1 << (64 - OFFB)) - 2 {
            return Err(Stop::Budget("too many objects on one path".into()));
        }
        mem.objs.push(Some(Rc::new(Obj { bytes: vec![0; n], sym: vec![], kind, grow: false, ro: false })));
        Ok((id + 1) << OFFB)
    }

    fn load(&mut self, mem: &Mem, addr: u64, ty: &Type) -> R<Val> {
        if let Some(w) = ty.bits() {
            return self.load_int(mem, addr, w as u16);
        }
        if ty.is_agg() {
            let n = ty.count();
            let mut v = Vec::with_capacity(n);
            if let Type::Vec(_, e) = ty {
                let w = e.bits().unwrap();
                if w % 8 != 0 {
                    return unsup("load of a packed bit vector");
                }
            }
            for i in 0..n {
                v.push(self.load(mem, addr + ty.field_offset(i), &ty.elem(i))?);
            }
            return Ok(A(Rc::new(v)));
        }
        unsup("load type")
    }
    fn load_int(&mut self, mem: &Mem, addr: u64, w: u16) -> R<Val> {
        if w > 128 {
            return unsup(format!("load of i{}", w));
        }
        let n = (w as usize).div_ceil(8);
        let (o, off) = self.locate(mem, addr, n as u64)?;
        if off + n > o.bytes.len() {
            // lazily grown object: unread bytes are zero
            let mut b = [0u8; 16];
            let mut any = false;
            for i in 0..n {
                if off + i < o.bytes.len() {
                    b[i] = o.bytes[off + i];
                    any |= !o.sym.is_empty() && o.sym[off + i] != 0;
                }
            }
            if any {
                return unsup("partial symbolic read at the end of a lazily grown object");
            }
            return Ok(Self::kval(u128::from_le_bytes(b), w));
        }
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|t| *t == 0) {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.bytes[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Ok(I(if w == 64 { v } else { v & ((1u64 << w) - 1) }));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            return Ok(Self::kval(u128::from_le_bytes(b), w));
        }
        let mut t = self.byte_term(&o, off);
        for i in 1..n {
            let h = self.byte_term(&o, off + i);
            t = self.ar.concat(h, t);
        }
        if self.ar.w(t) > w {
            t = self.ar.extract(t, 0, w);
        }
        Ok(self.val(t))
    }
    fn byte_term(&mut self, o: &Obj, i: usize) -> T {
        if !o.sym.is_empty() && o.sym[i] != 0 {
            o.sym[i]
        } else {
            self.ar.konst(o.bytes[i] as u128, 8)
        }
    }
    fn store(&mut self, mem: &mut Mem, addr: u64, ty: &Type, v: &Val) -> R<()> {
        if let Some(w) = ty.bits() {
            return self.store_int(mem, addr, w as u16, v);
        }
        if ty.is_agg() {
            if let Type::Vec(_, e) = ty {
                if e.bits().unwrap() % 8 != 0 {
                    return unsup("store of a packed bit vector");
                }
            }
            let A(vs) = v else { return unsup("store agg") };
            for (i, x) in vs.iter().enumerate() {
                self.store(mem, addr + ty.field_offset(i), &ty.elem(i), x)?;
            }
            return Ok(());
        }
        unsup("store type")
    }
    fn store_int(&mut self, mem: &mut Mem, addr: u64, w: u16, v: &Val) -> R<()> {
        if w > 128 {
            return unsup(format!("store of i{}", w));
        }
        let n = (w as usize).div_ceil(8);
        if let Some(x) = Self::conc(v) {
            let b = x.to_le_bytes();
            return self.with_obj(mem, addr, n as u64, |o, off| {
                o.bytes[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            });
        }
        let mut t = self.term(v, w)?;
        if w as usize != n * 8 {
            t = self.ar.zext(t, n as u16 * 8);
        }
        let mut bs = [(0u8, 0 as T); 16];
        for i in 0..n {
            let x = self.ar.extract(t, i as u16 * 8, 8);
            bs[i] = match self.ar.as_const(x) {
                Some(k) => (k as u8, 0),
                None => (0, x),
            };
        }
        self.with_obj(mem, addr, n as u64, |o, off| {
            if o.sym.is_empty() {
                o.sym = vec![0; o.bytes.len()];
            }
            for i in 0..n {
                o.bytes[off + i] = bs[i].0;
                o.sym[off + i] = bs[i].1;
            }
        })
    }
    fn memcpy(&mut self, mem: &mut Mem, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.locate(mem, s, n)?;
        let n = n as usize;
        let mut tmp = vec![0u8; n];
        let have = n.min(o.bytes.len().saturating_sub(off));
        tmp[..have].copy_from_slice(&o.bytes[off..off + have]);
        let mut ts = vec![];
        if !o.sym.is_empty() && o.sym[off..off + have].iter().any(|t| *t != 0) {
            ts = o.sym[off..off + have].to_vec();
            ts.resize(n, 0);
        }
        drop(o);
        self.with_obj(mem, d, n as u64, |o, off| {
            o.bytes[off..off + n].copy_from_slice(&tmp);
            if !ts.is_empty() {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.bytes.len()];
                }
                o.sym[off..off + n].copy_from_slice(&ts);
            } else if !o.sym.is_empty() {
                o.sym[off..off + n].fill(0);
            }
        })
    }

    // ---- path conditions ----------------------------------------------------------------------
    fn new_model(&mut self, b: Vec<u8>) -> Rc<Model> {
        self.model_ctr += 1;
        Rc::new(Model { id: self.model_ctr, b })
    }
    fn ev(&mut self, p: &Path, t: T) -> u128 {
        let m = p.model.clone();
        self.ar.eval(t, &m.b, m.id)
    }
    fn is_true(&mut self, p: &Path, t: T) -> bool {
        self.ev(p, t) != 0
    }

    /// Is the path condition satisfiable together with c?  Returns a model of both.
    fn feasible(&mut self, p: &Path, c: T) -> R<Option<Rc<Model>>> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(if k != 0 { Some(p.model.clone()) } else { None });
        }
        let single = self.ar.info[c as usize].single;
        if single != u32::MAX {
            let v = single as usize;
            let u = if p.un[v] == 0 { c } else { self.ar.and(p.un[v], c) };
            if self.ar.as_const(u) == Some(0) {
                return Ok(None);
            }
            if !has(&p.mvars, v) {
                let x = (0..=255u8).find(|x| self.ar.eval1(u, *x) != 0);
                let Some(x) = x else { return Ok(None) };
                let mut b = p.model.b.clone();
                b[v] = x;
                return Ok(Some(self.new_model(b)));
            }
        }
        // independence slice
        let mut vars = *self.ar.varset(c);
        let mut used = vec![false; p.multi.len()];
        loop {
            let mut ch = false;
            for (i, t) in p.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.ar.varset(*t);
                if s.iter().zip(vars.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    ch = true;
                    for (a, b) in vars.iter_mut().zip(s.iter()) {
                        *a |= *b;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut cs: Vec<T> = vec![c];
        for (i, t) in p.multi.iter().enumerate() {
            if used[i] {
                cs.push(*t);
            }
        }
        for v in 0..p.nsym {
            if has(&vars, v) && p.un[v] != 0 {
                cs.push(p.un[v]);
            }
        }
        cs.sort_unstable();
        cs.dedup();
        let r = match self.qcache.get(&cs) {
            Some(r) => {
                self.st.qhits += 1;
                r.clone()
            }
            None => {
                let r = self.z.check(&mut self.ar, &cs, &vars);
                self.qcache.insert(cs, r.clone());
                r
            }
        };
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut b = p.model.b.clone();
                for (v, x) in m {
                    b[v as usize] = x;
                }
                Ok(Some(self.new_model(b)))
            }
            Res::Unknown => Err(Stop::Budget("solver returned unknown".into())),
        }
    }
    fn add(&mut self, p: &mut Path, c: T) {
        if self.ar.as_const(c).is_some() {
            return;
        }
        let single = self.ar.info[c as usize].single;
        if single != u32::MAX {
            let v = single as usize;
            p.un[v] = if p.un[v] == 0 { c } else { self.ar.and(p.un[v], c) };
            return;
        }
        let n = self.ar.nodes[c as usize];
        if n.op == Op::And {
            self.add(p, n.a);
            self.add(p, n.b);
            return;
        }
        if n.op == Op::Xor && self.ar.as_const(n.b) == Some(1) {
            let m = self.ar.nodes[n.a as usize];
            if m.op == Op::Or {
                let x = self.ar.not(m.a);
                let y = self.ar.not(m.b);
                self.add(p, x);
                self.add(p, y);
                return;
            }
        }
        if p.multi.contains(&c) {
            return;
        }
        let s = *self.ar.varset(c);
        for (a, b) in p.mvars.iter_mut().zip(s.iter()) {
            *a |= *b;
        }
        p.multi.push(c);
    }

    /// Decide a branch. Returns the side taken by `st` and, when both sides are feasible, the sibling
    /// (already constrained to the other side, program counter untouched).
    fn branch(&mut self, st: &mut State, c: T) -> R<(bool, Option<State>)> {
        self.st.branches += 1;
        if let Some(k) = self.ar.as_const(c) {
            return Ok((k != 0, None));
        }
        let side = self.is_true(&st.p, c);
        let nc = self.ar.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        match self.feasible(&st.p, other)? {
            None => Ok((side, None)),
            Some(m) => {
                self.st.forks += 1;
                st.p.forks += 1;
                let mut o = st.clone();
                o.p.model = m;
                self.add(&mut o.p, other);
                self.add(&mut st.p, mine);
                Ok((side, Some(o)))
            }
        }
    }

    /// Make a value concrete by forking: the sibling re-executes the instruction at `ip`.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u16, ip: usize) -> R<u64> {
        match v {
            I(x) => Ok(*x),
            W(x) => Ok(**x as u64),
            A(_) => unsup("concretize aggregate"),
            Val::T(t) => {
                let x = self.ev(&st.p, *t);
                let k = self.ar.konst(x, w);
                let c = self.ar.eq(*t, k);
                let nc = self.ar.not(c);
                if let Some(m) = self.feasible(&st.p, nc)? {
                    self.st.forks += 1;
                    st.p.forks += 1;
                    let mut o = st.clone();
                    o.p.model = m;
                    self.add(&mut o.p, nc);
                    Rc::make_mut(o.frames.last_mut().unwrap()).ip = ip;
                    self.work.push(o);
                    self.add(&mut st.p, c);
                }
                Ok(x as u64)
            }
        }
    }

    // ---- arithmetic ---------------------------------------------------------------------------
    fn binop(op: BinOp) -> Op {
        match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        }
    }
    fn bin(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (I(x), I(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(*y),
                    Op::Sub => x.wrapping_sub(*y),
                    Op::Mul => x.wrapping_mul(*y),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl if *y < w as u64 => x << y,
                    Op::LShr if *y < w as u64 => x >> y,
                    _ => crate::term::fold(op, *x as u128, *y as u128, w) as u64,
                };
                return Ok(I(r & m));
            }
        }
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            return Ok(Self::kval(crate::term::fold(op, x, y, w), w));
        }
        let x = self.term(a, w)?;
        let y = self.term(b, w)?;
        let t = self.ar.bin(op, x, y);
        Ok(self.val(t))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                _ => {
                    let (x, y) = (sext(x, w), sext(y, w));
                    match p {
                        Pred::Sgt => x > y,
                        Pred::Sge => x >= y,
                        Pred::Slt => x < y,
                        _ => x <= y,
                    }
                }
            };
            return Ok(I(r as u64));
        }
        let x = self.term(a, w)?;
        let y = self.term(b, w)?;
        let t = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.cmp(Op::Ult, y, x),
            Pred::Uge => self.ar.cmp(Op::Ule, y, x),
            Pred::Ult => self.ar.cmp(Op::Ult, x, y),
            Pred::Ule => self.ar.cmp(Op::Ule, x, y),
            Pred::Sgt => self.ar.cmp(Op::Slt, y, x),
            Pred::Sge => self.ar.cmp(Op::Sle, y, x),
            Pred::Slt => self.ar.cmp(Op::Slt, x, y),
            Pred::Sle => self.ar.cmp(Op::Sle, x, y),
        };
        Ok(self.val(t))
    }
    fn cast(&mut self, k: CastK, fw: u16, tw: u16, v: &Val) -> R<Val> {
        match k {
            CastK::Same => Ok(v.clone()),
            CastK::FpExt | CastK::FpTrunc => self.fp_resize(k, fw, tw, v),
            CastK::FpConv(to, signed) => {
                let Some(x) = Self::conc(v) else { return unsup("conversion of a symbolic number") };
                let fl = |x: u128, w: u16| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                Ok(if to {
                    let r = match (tw, signed) {
                        (32, true) => (sext(x, fw) as f32).to_bits() as u128,
                        (32, false) => (x as f32).to_bits() as u128,
                        (_, true) => (sext(x, fw) as f64).to_bits() as u128,
                        _ => (x as f64).to_bits() as u128,
                    };
                    Self::kval(r, tw)
                } else {
                    let f = fl(x, fw);
                    let r = if signed {
                        (f as i128).clamp(-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1) as u128
                    } else {
                        (f as u128).min(mask(tw))
                    };
                    Self::kval(r & mask(tw), tw)
                })
            }
            _ if fw == tw => Ok(v.clone()),
            _ => {
                if let Some(x) = Self::conc(v) {
                    return Ok(match k {
                        CastK::SExt => Self::kval(sext(x, fw) as u128, tw),
                        _ => Self::kval(x, tw),
                    });
                }
                let t = self.term(v, fw)?;
                let r = match k {
                    CastK::Trunc => self.ar.extract(t, 0, tw),
                    CastK::ZExt => self.ar.zext(t, tw),
                    CastK::SExt => self.ar.sext(t, tw),
                    _ => return unsup("cast"),
                };
                Ok(self.val(r))
            }
        }
    }
    fn fp_mant(w: u16) -> u16 {
        if w == 32 { 23 } else { 52 }
    }
    fn fp_nan(&mut self, w: u16, v: &Val) -> R<Val> {
        let m = Self::fp_mant(w);
        let mag = self.bin(Op::And, w, v, &Self::kval(mask(w - 1), w))?;
        let inf = Self::kval(mask(w - 1 - m) << m, w);
        self.icmp(Pred::Ugt, w, &mag, &inf)
    }
    /// integers ordered like the numbers
    fn fp_key(&mut self, w: u16, v: &Val) -> R<Val> {
        let mag = self.bin(Op::And, w, v, &Self::kval(mask(w - 1), w))?;
        let z = Self::kval(0, w);
        let neg = self.icmp(Pred::Slt, w, v, &z)?;
        let n = self.bin(Op::Sub, w, &z, &mag)?;
        self.select(&neg, &Type::Int(w as u32), n, mag)
    }
    fn fcmp(&mut self, p: u8, w: u16, a: &Val, b: &Val) -> R<Val> {
        if p == 0 || p == 15 {
            return Ok(I((p & 1) as u64));
        }
        let (na, nb) = (self.fp_nan(w, a)?, self.fp_nan(w, b)?);
        let nan = self.bin(Op::Or, 1, &na, &nb)?;
        let (ka, kb) = (self.fp_key(w, a)?, self.fp_key(w, b)?);
        let mut r = I(0);
        for (bit, q) in [(2, Pred::Slt), (4, Pred::Eq), (8, Pred::Sgt)] {
            if p & bit != 0 {
                let c = self.icmp(q, w, &ka, &kb)?;
                r = self.bin(Op::Or, 1, &r, &c)?;
            }
        }
        self.select(&nan, &Type::Int(1), I((p & 1) as u64), r)
    }
    fn fp_resize(&mut self, k: CastK, fw: u16, tw: u16, v: &Val) -> R<Val> {
        let w = 64;
        let t64 = Type::Int(64);
        let c = |x: u64| I(x);
        let (ew, mw) = if fw == 32 { (8u16, 23u16) } else { (11, 52) };
        let x = self.cast(CastK::ZExt, fw, w, v)?;
        let sh = self.bin(Op::LShr, w, &x, &c(fw as u64 - 1))?;
        let sign = self.bin(Op::Shl, w, &sh, &c(tw as u64 - 1))?;
        let e0 = self.bin(Op::LShr, w, &x, &c(mw as u64))?;
        let e = self.bin(Op::And, w, &e0, &c(mask(ew) as u64))?;
        let m = self.bin(Op::And, w, &x, &c(mask(mw) as u64))?;
        let special = self.icmp(Pred::Eq, w, &e, &c(mask(ew) as u64))?;
        let mz = self.icmp(Pred::Eq, w, &m, &c(0))?;
        let r = if k == CastK::FpExt {
            // normal
            let en = self.bin(Op::Add, w, &e, &c(896))?;
            let en = self.bin(Op::Shl, w, &en, &c(52))?;
            let mn = self.bin(Op::Shl, w, &m, &c(29))?;
            let mut r = self.bin(Op::Or, w, &en, &mn)?;
            // subnormal
            let mut sub = c(0);
            for p in 0..23u64 {
                let mm = self.bin(Op::Shl, w, &m, &c(52 - p))?;
                let mm = self.bin(Op::And, w, &mm, &c(mask(52) as u64))?;
                let n = self.bin(Op::Or, w, &mm, &c((p + 874) << 52))?;
                let ge = self.icmp(Pred::Uge, w, &m, &c(1 << p))?;
                sub = self.select(&ge, &t64, n, sub)?;
            }
            let ez = self.icmp(Pred::Eq, w, &e, &c(0))?;
            r = self.select(&ez, &t64, sub, r)?;
            let q = self.bin(Op::Or, w, &mn, &c(0x7FF8 << 48))?;
            let sp = self.select(&mz, &t64, c(0x7FF0 << 48), q)?;
            self.select(&special, &t64, sp, r)?
        } else {
            let round = |s: &mut Self, base: Val, rem: Val, half: Val| -> R<Val> {
                let gt = s.icmp(Pred::Ugt, w, &rem, &half)?;
                let eq = s.icmp(Pred::Eq, w, &rem, &half)?;
                let odd = s.bin(Op::And, w, &base, &c(1))?;
                let odd = s.icmp(Pred::Ne, w, &odd, &c(0))?;
                let tie = s.bin(Op::And, 1, &eq, &odd)?;
                let up = s.bin(Op::Or, 1, &gt, &tie)?;
                let b1 = s.bin(Op::Add, w, &base, &c(1))?;
                s.select(&up, &t64, b1, base)
            };
            let mt = self.bin(Op::LShr, w, &m, &c(29))?;
            let en = self.bin(Op::Sub, w, &e, &c(896))?;
            let en = self.bin(Op::Shl, w, &en, &c(23))?;
            let base = self.bin(Op::Or, w, &en, &mt)?;
            let rem = self.bin(Op::And, w, &m, &c(mask(29) as u64))?;
            let norm = round(self, base, rem, c(1 << 28))?;
            let full = self.bin(Op::Or, w, &m, &c(1 << 52))?;
            let s0 = self.bin(Op::Sub, w, &c(926), &e)?;
            let big = self.icmp(Pred::Ugt, w, &s0, &c(63))?;
            let s = self.select(&big, &t64, c(63), s0)?;
            let b2 = self.bin(Op::LShr, w, &full, &s)?;
            let one = self.bin(Op::Shl, w, &c(1), &s)?;
            let rm = self.bin(Op::Sub, w, &one, &c(1))?;
            let rem2 = self.bin(Op::And, w, &full, &rm)?;
            let half = self.bin(Op::LShr, w, &one, &c(1))?;
            let sub = round(self, b2, rem2, half)?;
            let small = self.icmp(Pred::Ult, w, &e, &c(897))?;
            let mut r = self.select(&small, &t64, sub, norm)?;
            let over = self.icmp(Pred::Ugt, w, &e, &c(1150))?;
            r = self.select(&over, &t64, c(0x7F80_0000), r)?;
            let q = self.bin(Op::Or, w, &mt, &c(0x7FC0_0000))?;
            let sp = self.select(&mz, &t64, c(0x7F80_0000), q)?;
            self.select(&special, &t64, sp, r)?
        };
        let r = self.bin(Op::Or, w, &r, &sign)?;
        self.cast(CastK::Trunc, w, tw, &r)
    }
    fn select(&mut self, c: &Val, ty: &Type, a: Val, b: Val) -> R<Val> {
        match c {
            I(x) => Ok(if *x & 1 != 0 { a } else { b }),
            Val::T(ct) => match ty.bits() {
                Some(w) => {
                    let x = self.term(&a, w as u16)?;
                    let y = self.term(&b, w as u16)?;
                    let t = self.ar.ite(*ct, x, y);
                    Ok(self.val(t))
                }
                None => {
                    let (A(x), A(y)) = (&a, &b) else { return unsup("select agg") };
                    let mut r = Vec::with_capacity(x.len());
                    for i in 0..x.len() {
                        r.push(self.select(c, &ty.elem(i), x[i].clone(), y[i].clone())?);
                    }
                    Ok(A(Rc::new(r)))
                }
            },
            _ => unsup("select condition"),
        }
    }
    fn to_bits(&mut self, ty: &Type, v: &Val) -> R<(Val, u16)> {
        // little endian packing of lanes
        if let Some(w) = ty.bits() {
            return Ok((v.clone(), w as u16));
        }
        let Type::Vec(n, e) = ty else { return unsup("bitcast of aggregate") };
        let ew = e.bits().unwrap() as u16;
        if *n as u16 * ew > 128 {
            return unsup("wide bitcast");
        }
        let A(vs) = v else { return unsup("bitcast") };
        if vs.iter().all(|x| matches!(x, I(_))) {
            let mut r = 0u128;
            for (i, x) in vs.iter().enumerate() {
                if let I(x) = x {
                    r |= (*x as u128) << (i as u16 * ew);
                }
            }
            return Ok((Self::kval(r, *n as u16 * ew), *n as u16 * ew));
        }
        let mut t = self.term(&vs[0], ew)?;
        for x in &vs[1..] {
            let h = self.term(x, ew)?;
            t = self.ar.concat(h, t);
        }
        Ok((self.val(t), *n as u16 * ew))
    }
    fn bitcast(&mut self, from: &Type, to: &Type, v: &Val) -> R<Val> {
        if from == to {
            return Ok(v.clone());
        }
        if let (Type::Vec(_, fe), Type::Vec(n, te)) = (from, to) {
            let (fw, tw) = (fe.bits().unwrap() as u16, te.bits().unwrap() as u16);
            if fw % 8 == 0 && tw % 8 == 0 {
                let A(vs) = v else { return unsup("bitcast") };
                let mut bytes = vec![];
                for x in vs.iter() {
                    for i in 0..fw / 8 {
                        bytes.push(match Self::conc(x) {
                            Some(k) => I((k >> (8 * i)) as u64 & 255),
                            None => {
                                let t = self.term(x, fw)?;
                                let t = self.ar.extract(t, 8 * i, 8);
                                self.val(t)
                            }
                        });
                    }
                }
                let mut r = vec![];
                for l in 0..*n as usize {
                    let k = tw as usize / 8;
                    let mut t = self.term(&bytes[l * k], 8)?;
                    for i in 1..k {
                        let h = self.term(&bytes[l * k + i], 8)?;
                        t = self.ar.concat(h, t);
                    }
                    r.push(self.val(t));
                }
                return Ok(A(Rc::new(r)));
            }
        }
        let (x, w) = self.to_bits(from, v)?;
        if let Some(tw) = to.bits() {
            debug_assert_eq!(tw as u16, w);
            return Ok(x);
        }
        let Type::Vec(n, e) = to else { return unsup("bitcast to aggregate") };
        let ew = e.bits().unwrap() as u16;
        let mut r = vec![];
        for i in 0..*n as u16 {
            r.push(match Self::conc(&x) {
                Some(k) => Self::kval(k >> (i * ew), ew),
                None => {
                    let t = self.term(&x, w)?;
                    let t = self.ar.extract(t, i * ew, ew);
                    self.val(t)
                }
            });
        }
        Ok(A(Rc::new(r)))
    }
    fn lanes(&mut self, ty: &Type, v: &[&Val], f: &mut dyn FnMut(&mut Self, u16, &[&Val]) -> R<Val>) -> R<Val> {
        if let Some(w) = ty.bits() {
            return f(self, w as u16, v);
        }
        let Type::Vec(n, e) = ty else { return unsup("lanes") };
        let w = e.bits().unwrap() as u16;
        let mut r = Vec::with_capacity(*n as usize);
        for i in 0..*n as usize {
            let mut l = vec![];
            for x in v {
                match x {
                    A(y) => l.push(&y[i]),
                    _ => return unsup("lanes value"),
                }
            }
            r.push(f(self, w, &l)?);
        }
        Ok(A(Rc::new(r)))
    }

    fn extract_agg(v: &Val, idx: &[u32]) -> R<Val> {
        let mut c = v.clone();
        for i in idx {
            let A(x) = &c else { return unsup("extractvalue") };
            let n = x[*i as usize].clone();
            c = n;
        }
        Ok(c)
    }
    fn insert_agg(v: &Val, idx: &[u32], x: Val) -> R<Val> {
        if idx.is_empty() {
            return Ok(x);
        }
        let A(a) = v else { return unsup("insertvalue") };
        let mut n = (**a).clone();
        n[idx[0] as usize] = Self::insert_agg(&a[idx[0] as usize], &idx[1..], x)?;
        Ok(A(Rc::new(n)))
    }

    // ---- callee classification ----------------------------------------------------------------
    fn classify(&mut self, s: u32) -> Ck {
        if self.ck[s as usize] != Ck::Unknown {
            return self.ck[s as usize];
        }
        let name = self.m.syms[s as usize].name.clone();
        let is_def = matches!(self.m.syms[s as usize].kind, SymKind::Func { .. });
        let n = name.as_str();
        let k = match n {
            "malloc" => Ck::Malloc,
            "calloc" => Ck::Calloc,
            "realloc" => Ck::Realloc,
            "posix_memalign" => Ck::Memalign,
            "aligned_alloc" => Ck::AlignedAlloc,
            "free" => Ck::Free,
            "bcmp" => Ck::Bcmp,
            "memcmp" => Ck::Memcmp,
            "strlen" => Ck::Strlen,
            "memcpy" | "memmove" => Ck::Memcpy,
            "memset" => Ck::Memset,
            "__errno_location" => Ck::Errno,
            // the surroundings, as far as code that should not depend on them may ask: an empty
            // environment, a clock that stands still, random numbers that are not, output that goes nowhere
            "__cxa_thread_atexit_impl" => Ck::AtExit,
            "getrandom" => Ck::Random,
            "getenv" => Ck::Env,
            "clock_gettime" => Ck::Clock,
            "write" if !is_def => Ck::Write,
            "abort" | "exit" | "_exit" => Ck::Panic,
            "sym_bytes" => Ck::SymBytes,
            "sym_done" => Ck::SymDone,
            "sym_assume" => Ck::SymAssume,
            "sym_assert" => Ck::SymAssert,
            "sym_assert_eq" => Ck::SymAssertEq,
            "sym_cover" => Ck::SymCover,
            "sym_trace" => Ck::SymTrace,
            "sym_alloc_limit" => Ck::SymLimit,
            "sym_work_limit" => Ck::SymWork,
            "sym_concretize" => Ck::SymConc,
            "sym_is_native" => Ck::SymIsNative,
            "sym_peak" => Ck::SymPeak,
            "sym_depth" => Ck::SymDepth,
            "sym_arg" => Ck::SymArg,
            _ if n.starts_with("llvm.") => {
                let r = &n[5..];
                let sw = |p: &str| r.starts_with(p);
                if sw("memcpy") || sw("memmove") {
                    Ck::Memcpy
                } else if sw("memset") {
                    Ck::Memset
                } else if sw("lifetime") || sw("assume") || sw("dbg") || sw("experimental.noalias") || sw("invariant") || sw("prefetch") || sw("x86.sse2.pause") || sw("donothing") || sw("sideeffect") {
                    Ck::Nop
                } else {
                    let i = if sw("uadd.with") {
                        Some(In::AddO(false))
                    } else if sw("sadd.with") {
                        Some(In::AddO(true))
                    } else if sw("usub.with") {
                        Some(In::SubO(false))
                    } else if sw("ssub.with") {
                        Some(In::SubO(true))
                    } else if sw("umul.with") {
                        Some(In::MulO(false))
                    } else if sw("smul.with") {
                        Some(In::MulO(true))
                    } else if sw("uadd.sat") {
                        Some(In::AddS(false))
                    } else if sw("sadd.sat") {
                        Some(In::AddS(true))
                    } else if sw("usub.sat") {
                        Some(In::SubS(false))
                    } else if sw("ssub.sat") {
                        Some(In::SubS(true))
                    } else if sw("umin.") {
                        Some(In::Min(false))
                    } else if sw("smin.") {
                        Some(In::Min(true))
                    } else if sw("umax.") {
                        Some(In::Max(false))
                    } else if sw("smax.") {
                        Some(In::Max(true))
                    } else if sw("abs.") {
                        Some(In::Abs)
                    } else if sw("fshl.") {
                        Some(In::Fshl)
                    } else if sw("fshr.") {
                        Some(In::Fshr)
                    } else if sw("ctlz.") {
                        Some(In::Ctlz)
                    } else if sw("cttz.") {
                        Some(In::Cttz)
                    } else if sw("ctpop.") {
                        Some(In::Ctpop)
                    } else if sw("bswap.") {
                        Some(In::Bswap)
                    } else if sw("bitreverse.") {
                        Some(In::Bitrev)
                    } else if sw("expect") {
                        Some(In::Expect)
                    } else if sw("is.constant") {
                        Some(In::IsConst)
                    } else if sw("objectsize") {
                        Some(In::ObjSize)
                    } else if sw("threadlocal.address") {
                        Some(In::TlsAddr)
                    } else if sw("load.relative") {
                        Some(In::LoadRel)
                    } else if sw("ucmp.") {
                        Some(In::Cmp(false))
                    } else if sw("scmp.") {
                        Some(In::Cmp(true))
                    } else if sw("vector.reduce.") {
                        let q = &r["vector.reduce.".len()..];
                        if q.starts_with("add") {
                            Some(In::Red(Op::Add))
                        } else if q.starts_with("or") {
                            Some(In::Red(Op::Or))
                        } else if q.starts_with("and") {
                            Some(In::Red(Op::And))
                        } else if q.starts_with("xor") {
                            Some(In::Red(Op::Xor))
                        } else if q.starts_with("mul") {
                            Some(In::Red(Op::Mul))
                        } else if q.starts_with("umin") {
                            Some(In::RedMin(false))
                        } else if q.starts_with("umax") {
                            Some(In::RedMax(false))
                        } else if q.starts_with("smin") {
                            Some(In::RedMin(true))
                        } else if q.starts_with("smax") {
                            Some(In::RedMax(true))
                        } else {
                            None
                        }
                    } else if sw("fabs.") {
                        Some(In::FAbs)
                    } else if sw("copysign.") {
                        Some(In::CopySign)
                    } else if sw("is.fpclass") {
                        Some(In::FpClass)
                    } else if sw("ptrmask") {
                        Some(In::PtrMask)
                    } else if sw("trap") || sw("ubsantrap") {
                        Some(In::Trap)
                    } else {
                        None
                    };
                    match i {
                        Some(i) => Ck::Intr(i),
                        None => Ck::Missing,
                    }
                }
            }
            _ if n.contains("9panicking") || n.contains("handle_alloc_error") || n.contains("16capacity_overflow") || n.contains("rust_start_panic") || n == "rust_begin_unwind" => Ck::Panic,
            _ if n.contains("__rust_no_alloc_shim_is_unstable") => Ck::Nop,
            _ if is_def => Ck::Normal,
            _ => Ck::Missing,
        };
        self.ck[s as usize] = k;
        k
    }

    fn intr(&mut self, i: In, args: &[Val], tys: &[Rc<Type>], ret: &Type) -> R<Val> {
        let w0 = tys.first().and_then(|t| t.bits()).unwrap_or(0) as u16;
        match i {
            In::AddO(s) | In::SubO(s) | In::MulO(s) => {
                let w = w0;
                let op = match i {
                    In::AddO(_) => Op::Add,
                    In::SubO(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let ww = if op == Op::Mul { w * 2 } else { w + 1 };
                if ww > 128 {
                    return unsup("overflow arithmetic on wide integers");
                }
                let r = self.bin(op, w, &args[0], &args[1])?;
                let ext = if s { CastK::SExt } else { CastK::ZExt };
                let x = self.cast(ext, w, ww, &args[0])?;
                let y = self.cast(ext, w, ww, &args[1])?;
                let full = self.bin(op, ww, &x, &y)?;
                let back = self.cast(ext, w, ww, &r)?;
                let o = self.icmp(Pred::Ne, ww, &full, &back)?;
                Ok(A(Rc::new(vec![r, o])))
            }
            In::AddS(false) => self.lanes(&tys[0], &[&args[0], &args[1]], &mut |e, w, a| {
                let r = e.bin(Op::Add, w, a[0], a[1])?;
                let o = e.icmp(Pred::Ult, w, &r, a[0])?;
                let m = Self::kval(mask(w), w);
                e.select(&o, &Type::Int(w as u32), m, r)
            }),
            In::SubS(false) => self.lanes(&tys[0], &[&args[0], &args[1]], &mut |e, w, a| {
                let r = e.bin(Op::Sub, w, a[0], a[1])?;
                let o = e.icmp(Pred::Ult, w, a[0], a[1])?;
                let m = Self::kval(0, w);
                e.select(&o, &Type::Int(w as u32), m, r)
            }),
            In::AddS(true) | In::SubS(true) => {
                let op = if i == In::AddS(true) { Op::Add } else { Op::Sub };
                self.lanes(&tys[0], &[&args[0], &args[1]], &mut |e, w, a| {
                    if w >= 128 {
                        return unsup("signed saturating arithmetic on wide integers");
                    }
                    let (x, y) = (e.cast(CastK::SExt, w, w + 1, a[0])?, e.cast(CastK::SExt, w, w + 1, a[1])?);
                    let r = e.bin(op, w + 1, &x, &y)?;
                    let hi = Self::kval(mask(w - 1), w + 1);
                    let lo = Self::kval(mask(w + 1) & !mask(w - 1), w + 1);
                    let t = Type::Int(w as u32 + 1);
                    let big = e.icmp(Pred::Sgt, w + 1, &r, &hi)?;
                    let small = e.icmp(Pred::Slt, w + 1, &r, &lo)?;
                    let r = e.select(&big, &t, hi, r)?;
                    let r = e.select(&small, &t, lo, r)?;
                    e.cast(CastK::Trunc, w + 1, w, &r)
                })
            }
            In::FAbs => self.lanes(&tys[0], &[&args[0]], &mut |e, w, a| e.bin(Op::And, w, a[0], &Self::kval(mask(w - 1), w))),
            In::CopySign => self.lanes(&tys[0], &[&args[0], &args[1]], &mut |e, w, a| {
                let x = e.bin(Op::And, w, a[0], &Self::kval(mask(w - 1), w))?;
                let y = e.bin(Op::And, w, a[1], &Self::kval(1 << (w - 1), w))?;
                e.bin(Op::Or, w, &x, &y)
            }),
            In::FpClass => {
                let Some(want) = Self::conc(&args[1]) else { return unsup("is.fpclass") };
                let w = w0;
                let mw = Self::fp_mant(w);
                let mag = self.bin(Op::And, w, &args[0], &Self::kval(mask(w - 1), w))?;
                let neg = self.icmp(Pred::Slt, w, &args[0], &Self::kval(0, w))?;
                let pos = self.bin(Op::Xor, 1, &neg, &I(1))?;
                let inf = mask(w - 1 - mw) << mw;
                let quiet = inf | 1 << (mw - 1);
                // half-open ranges of the magnitude, and the bits for a negative and a positive number
                let ranges = [(inf + 1, quiet, 0, 0), (quiet, 1 << (w - 1), 1, 1), (inf, inf + 1, 2, 9), (1 << mw, inf, 3, 8), (1, 1 << mw, 4, 7), (0, 1, 5, 6)];
                let mut r = I(0);
                for (lo, hi, n, p) in ranges {
                    let a = self.icmp(Pred::Uge, w, &mag, &Self::kval(lo, w))?;
                    let b = self.icmp(Pred::Ult, w, &mag, &Self::kval(hi, w))?;
                    let inr = self.bin(Op::And, 1, &a, &b)?;
                    for (bit, s) in [(n, &neg), (p, &pos)] {
                        if want >> bit & 1 == 1 {
                            let c = self.bin(Op::And, 1, &inr, s)?;
                            r = self.bin(Op::Or, 1, &r, &c)?;
                        }
                    }
                }
                Ok(r)
            }
            In::Min(s) | In::Max(s) => {
                let mx = matches!(i, In::Max(_));
                self.lanes(&tys[0], &[&args[0], &args[1]], &mut |e, w, a| {
                    let c = e.icmp(if s { Pred::Slt } else { Pred::Ult }, w, a[0], a[1])?;
                    let (x, y) = if mx { (a[1], a[0]) } else { (a[0], a[1]) };
                    e.select(&c, &Type::Int(w as u32), x.clone(), y.clone())
                })
            }
            In::Abs => self.lanes(&tys[0], &[&args[0]], &mut |e, w, a| {
                let z = Self::kval(0, w);
                let c = e.icmp(Pred::Slt, w, a[0], &z)?;
                let n = e.bin(Op::Sub, w, &z, a[0])?;
                e.select(&c, &Type::Int(w as u32), n, a[0].clone())
            }),
            In::Fshl | In::Fshr => self.lanes(&tys[0], &[&args[0], &args[1], &args[2]], &mut |e, w, a| {
                let left = i == In::Fshl;
                let Some(k) = Self::conc(a[2]) else {
                    if w > 64 || !w.is_power_of_two() {
                        return unsup("funnel shift by a symbolic amount");
                    }
                    let k = e.bin(Op::And, w, a[2], &Self::kval(w as u128 - 1, w))?;
                    let k = e.cast(CastK::ZExt, w, 2 * w, &k)?;
                    let (hi, lo) = (e.term(a[0], w)?, e.term(a[1], w)?);
                    let d = e.ar.concat(hi, lo);
                    let d = e.val(d);
                    let r = e.bin(if left { Op::Shl } else { Op::LShr }, 2 * w, &d, &k)?;
                    let t = e.term(&r, 2 * w)?;
                    let t = e.ar.extract(t, if left { w } else { 0 }, w);
                    return Ok(e.val(t));
                };
                let k = (k % w as u128) as u64;
                let l = if left { k } else { w as u64 - k };
                if l == 0 {
                    return Ok(a[0].clone());
                }
                if l == w as u64 {
                    return Ok(a[1].clone());
                }
                let h = e.bin(Op::Shl, w, a[0], &Self::kval(l as u128, w))?;
                let lo = e.bin(Op::LShr, w, a[1], &Self::kval(w as u128 - l as u128, w))?;
                e.bin(Op::Or, w, &h, &lo)
            }),
            In::Ctlz | In::Cttz | In::Ctpop => {
                if let Some(x) = Self::conc(&args[0]) {
                    let r = match i {
                        In::Ctlz => x.leading_zeros() - (128 - w0 as u32),
                        In::Cttz => x.trailing_zeros().min(w0 as u32),
                        _ => x.count_ones(),
                    };
                    return Ok(Self::kval(r as u128, w0));
                }
                let t = self.term(&args[0], w0)?;
                let mut r;
                match i {
                    In::Ctpop => {
                        r = self.ar.konst(0, w0);
                        for b in 0..w0 {
                            let x = self.ar.extract(t, b, 1);
                            let x = self.ar.zext(x, w0);
                            r = self.ar.bin(Op::Add, r, x);
                        }
                    }
                    _ => {
                        r = self.ar.konst(w0 as u128, w0);
                        for j in 0..w0 {
                            // last assignment wins: lowest priority first
                            let b = if i == In::Ctlz { j } else { w0 - 1 - j };
                            let cnt = if i == In::Ctlz { w0 - 1 - b } else { b };
                            let x = self.ar.extract(t, b, 1);
                            let k = self.ar.konst(cnt as u128, w0);
                            r = self.ar.ite(x, k, r);
                        }
                    }
                }
                Ok(self.val(r))
            }
            In::Bswap | In::Bitrev => {
                let step = if i == In::Bswap { 8 } else { 1 };
                if let Some(x) = Self::conc(&args[0]) {
                    let r = if i == In::Bswap { x.swap_bytes() } else { x.reverse_bits() } >> (128 - w0 as u32);
                    return Ok(Self::kval(r, w0));
                }
                let t = self.term(&args[0], w0)?;
                let mut r = self.ar.extract(t, 0, step);
                let mut b = step;
                while b < w0 {
                    let x = self.ar.extract(t, b, step);
                    r = self.ar.concat(r, x);
                    b += step;
                }
                Ok(self.val(r))
            }
            In::Expect | In::TlsAddr => Ok(args[0].clone()),
            In::IsConst => Ok(I(0)),
            In::ObjSize => Ok(Self::kval(!0, ret.bits().unwrap() as u16)),
            In::LoadRel => unsup("load.relative handled elsewhere"),
            In::Cmp(s) => {
                let rw = ret.bits().ok_or(Stop::Unsupported("cmp".into()))? as u16;
                let lt = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w0, &args[0], &args[1])?;
                let eq = self.icmp(Pred::Eq, w0, &args[0], &args[1])?;
                let t = Type::Int(rw as u32);
                let x = self.select(&eq, &t, Self::kval(0, rw), Self::kval(1, rw))?;
                self.select(&lt, &t, Self::kval(!0, rw), x)
            }
            In::Red(op) => {
                let A(v) = &args[0] else { return unsup("reduce") };
                let w = tys[0].elem(0).bits().unwrap() as u16;
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = self.bin(op, w, &r, x)?;
                }
                Ok(r)
            }
            In::RedMin(s) | In::RedMax(s) => {
                let A(v) = &args[0] else { return unsup("reduce") };
                let et = tys[0].elem(0);
                let j = if matches!(i, In::RedMin(_)) { In::Min(s) } else { In::Max(s) };
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = self.intr(j, &[r, x.clone()], &[et.clone(), et.clone()], &et)?;
                }
                Ok(r)
            }
            In::PtrMask => self.bin(Op::And, 64, &args[0], &args[1]),
            In::Trap => Err(Stop::Violation { kind: "trap".into(), model: None, id: u64::MAX }),
        }
    }

    fn new_frame(&mut self, fid: u32, args: Vec<Val>) -> R<Frame> {
        let f = self.m.func(fid).map_err(Stop::Unsupported)?;
        let mut regs = vec![I(0); f.nregs as usize];
        if args.len() < f.params.len() {
            return unsup(format!("{}: {} arguments for {} parameters", f.name, args.len(), f.params.len()));
        }
        for (i, p) in f.params.iter().enumerate() {
            regs[*p as usize] = args[i].clone();
        }
        let n = f.blocks.len();
        let c = self.cov.entry(fid).or_insert_with(|| (f.clone(), vec![false; n]));
        c.1[0] = true;
        Ok(Frame { f, fid, regs, blk: 0, ip: 0, allocas: vec![], ret_dst: None, ret_to: None })
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (dst, ty, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from);
                let Some((_, o)) = o else { return unsup("phi without predecessor") };
                vals.push((*dst, self.opd(fr, o, ty)?));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
        if let Some(c) = self.cov.get_mut(&fr.fid) {
            c.1[to as usize] = true;
        }
        Ok(())
    }

    /// Fork a multi-way choice: `conds[i]` selects target `tgts[i]`; the conditions are exhaustive and disjoint.
    fn multi(&mut self, st: &mut State, conds: Vec<(T, u32)>) -> R<u32> {
        let mut mine = None;
        for (c, t) in &conds {
            if self.is_true(&st.p, *c) {
                mine = Some((*c, *t));
                break;
            }
        }
        let Some((mc, mt)) = mine else { return unsup("switch without a feasible case") };
        let mut any = false;
        let mut others = vec![];
        for (c, t) in &conds {
            if *t == mt {
                continue;
            }
            if self.ar.as_const(*c) == Some(0) {
                continue;
            }
            self.st.branches += 1;
            if let Some(m) = self.feasible(&st.p, *c)? {
                any = true;
                others.push((*c, *t, m));
            }
        }
        for (c, t, m) in others.into_iter().rev() {
            self.st.forks += 1;
            let mut o = st.clone();
            o.p.forks += 1;
            o.p.model = m;
            self.add(&mut o.p, c);
            self.jump(&mut o, t)?;
            self.work.push(o);
        }
        if any {
            st.p.forks += 1;
            self.add(&mut st.p, mc);
        }
        Ok(mt)
    }

    fn symbolic_load(&mut self, st: &mut State, t: T, ty: &Type) -> R<Option<Val>> {
        // a table lookup indexed by one symbolic byte
        let single = self.ar.info[t as usize].single;
        let Some(w) = ty.bits() else { return Ok(None) };
        if single == u32::MAX || w > 64 {
            return self.ite_load(st, t, ty);
        }
        let v = single as usize;
        let dom = st.p.un[v];
        let mut base: Option<u64> = None;
        let mut tab = [0u64; 256];
        for x in 0..=255u8 {
            if dom != 0 && self.ar.eval1(dom, x) == 0 {
                continue;
            }
            let a = self.ar.eval1(t, x) as u64;
            match base {
                None => base = Some(a >> OFFB),
                Some(b) if b != a >> OFFB => return Ok(None),
                _ => {}
            }
            match self.load_int(&st.mem, a, w as u16) {
                Ok(I(k)) => tab[x as usize] = k,
                Ok(_) => return self.ite_load(st, t, ty),
                Err(Stop::Violation { .. }) => return Ok(None),
                Err(e) => return Err(e),
            }
        }
        let r = self.ar.table(v, tab, w as u16);
        Ok(Some(self.val(r)))
    }
    /// few feasible addresses: build an if-then-else over the loaded values
    fn ite_load(&mut self, st: &mut State, t: T, ty: &Type) -> R<Option<Val>> {
        const MAX: usize = 6;
        let Some(w) = ty.bits() else { return Ok(None) };
        if w > 128 {
            return Ok(None);
        }
        let mut vals: Vec<(T, Val)> = vec![];
        let mut p = st.p.clone();
        loop {
            let x = self.ev(&p, t);
            let k = self.ar.konst(x, 64);
            let c = self.ar.eq(t, k);
            let v = match self.load_int(&st.mem, x as u64, w as u16) {
                Ok(v) => v,
                Err(Stop::Violation { .. }) => return Ok(None),
                Err(e) => return Err(e),
            };
            vals.push((c, v));
            let nc = self.ar.not(c);
            match self.feasible(&p, nc)? {
                None => break,
                Some(m) => {
                    if vals.len() >= MAX {
                        return self.lut_load(st, t, x as u64, w as u16);
                    }
                    self.add(&mut p, nc);
                    p.model = m;
                }
            }
        }
        let (_, last) = vals.pop().unwrap();
        let mut r = self.term(&last, w as u16)?;
        for (c, v) in vals.into_iter().rev() {
            let x = self.term(&v, w as u16)?;
            r = self.ar.ite(c, x, r);
        }
        Ok(Some(self.val(r)))
    }

    /// many feasible addresses within one small constant object (digit tables): select by the bits of the offset
    fn lut_load(&mut self, st: &mut State, t: T, some: u64, w: u16) -> R<Option<Val>> {
        let n = w as usize / 8;
        if w != 8 && w != 16 {
            return Ok(None);
        }
        let (o, _) = self.locate(&st.mem, some, n as u64)?;
        let len = o.bytes.len();
        if o.grow || len < n || len > 1024 || o.sym.iter().any(|x| *x != 0) {
            return Ok(None);
        }
        let base = self.ar.konst((some & !OFFM) as u128, 64);
        let off = self.ar.bin(Op::Sub, t, base);
        let last = self.ar.konst((len - n) as u128, 64);
        let inside = self.ar.cmp(Op::Ule, off, last);
        let outside = self.ar.not(inside);
        if self.feasible(&st.p, outside)?.is_some() {
            return Ok(None);
        }
        let mut level: Vec<T> = vec![];
        for i in 0..len.next_power_of_two() {
            let mut k = 0u128;
            for j in (0..n).rev() {
                k = k << 8 | o.bytes.get(i + j).copied().unwrap_or(0) as u128;
            }
            level.push(self.ar.konst(k, w));
        }
        let one = self.ar.konst(1, 1);
        let mut bit = 0;
        while level.len() > 1 {
            let b = self.ar.extract(off, bit, 1);
            let c = self.ar.eq(b, one);
            level = level.chunks(2).map(|p| self.ar.ite(c, p[1], p[0])).collect();
            bit += 1;
        }
        Ok(Some(self.val(level[0])))
    }

    fn account(&mut self, st: &mut State, n: u64) -> R<()> {
        st.live += n;
        if st.live > st.peak {
            st.peak = st.live;
        }
        if st.live > st.limit {
            return Err(Stop::Violation { kind: format!("allocation: {} live bytes exceed the limit of {}", st.live, st.limit), model: None, id: u64::MAX - 1 });
        }
        Ok(())
    }
    /// malloc of a possibly symbolic size
    fn malloc(&mut self, st: &mut State, size: &Val, ip: usize) -> R<u64> {
        match size {
            I(n) => {
                if *n >= 1 << 28 {
                    self.account(st, *n)?;
                    // the system refuses the request
                    if *n >= 1 << 38 {
                        return Ok(0);
                    }
                    let a = self.alloc(&mut st.mem, 0, Kind::Heap)?;
                    self.with_obj(&mut st.mem, a, 0, |o, _| o.grow = true)?;
                    return Ok(a);
                }
                self.account(st, *n)?;
                self.alloc(&mut st.mem, *n as usize, Kind::Heap)
            }
            Val::T(t) => {
                if st.limit < 1 << 60 {
                    let room = st.limit.saturating_sub(st.live);
                    let k = self.ar.konst(room as u128, 64);
                    let c = self.ar.cmp(Op::Ult, k, *t);
                    self.st.asserts += 1;
                    self.st.asserts_solver += 1;
                    if let Some(m) = self.feasible(&st.p, c)? {
                        return Err(Stop::Violation { kind: format!("allocation: a request of input-controlled size can exceed the limit of {} bytes", st.limit), model: Some(m), id: u64::MAX - 1 });
                    }
                }
                let _ = ip;
                let a = self.alloc(&mut st.mem, 0, Kind::Heap)?;
                self.with_obj(&mut st.mem, a, 0, |o, _| o.grow = true)?;
                Ok(a)
            }
            _ => unsup("malloc size"),
        }
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let (o, off) = self.locate(&st.mem, a, 0)?;
        if off != 0 || o.kind != Kind::Heap {
            return Err(self.memfault("free of a non-heap pointer".into()));
        }
        st.live = st.live.saturating_sub(o.bytes.len() as u64);
        let id = ((a >> OFFB) - 1 - self.nsyms as u64) as usize;
        st.mem.objs[id] = None;
        Ok(())
    }

    fn assert(&mut self, st: &mut State, c: T, id: u64) -> R<()> {
        self.st.asserts += 1;
        if self.ar.as_const(c) == Some(1) {
            return Ok(());
        }
        self.st.asserts_solver += 1;
        let nc = self.ar.not(c);
        if let Some(m) = self.feasible(&st.p, nc)? {
            return Err(Stop::Violation { kind: format!("assertion {}", id), model: Some(m), id });
        }
        Ok(())
    }

    /// returns Some(new block) handled / None
    fn call(&mut self, st: &mut State, s: u32, args: Vec<Val>, tys: &[Rc<Type>], ret: &Type, ip: usize) -> R<Option<Val>> {
        let k = self.classify(s);
        let w64 = |v: &Val| -> Val { v.clone() };
        macro_rules! cz {
            ($v:expr, $w:expr) => {{
                let v = w64($v);
                self.concretize(st, &v, $w, ip)?
            }};
        }
        Ok(Some(match k {
            Ck::Nop => I(0),
            Ck::Intr(In::LoadRel) => {
                let b = cz!(&args[0], 64);
                let o = cz!(&args[1], 64);
                let d = self.load_int(&st.mem, b.wrapping_add(o), 32)?;
                let Some(d) = Self::conc(&d) else { return unsup("load.relative") };
                let d = sext(d, 32) as i64;
                let sd = (d + (1 << 13)) >> 14;
                I(b.wrapping_add((sd << OFFB) as u64).wrapping_add((d - (sd << 14)) as u64))
            }
            Ck::Intr(i) => self.intr(i, &args, tys, ret)?,
            Ck::Panic => {
                return Err(Stop::Violation { kind: format!("panic: {}", self.m.syms[s as usize].name), model: None, id: u64::MAX - 2 });
            }
            Ck::Malloc => I(self.malloc(st, &args[0], ip)?),
            Ck::Calloc => {
                let n = self.bin(Op::Mul, 64, &args[0], &args[1])?;
                I(self.malloc(st, &n, ip)?)
            }
            Ck::AlignedAlloc => I(self.malloc(st, &args[1], ip)?),
            Ck::Memalign => {
                let p = cz!(&args[0], 64);
                let a = self.malloc(st, &args[2], ip)?;
                self.store_int(&mut st.mem, p, 64, &I(a))?;
                I(0)
            }
            Ck::Realloc => {
                let p = cz!(&args[0], 64);
                if p == 0 {
                    return Ok(Some(I(self.malloc(st, &args[1], ip)?)));
                }
                let (o, _) = self.locate(&st.mem, p, 0)?;
                let old = o.bytes.len() as u64;
                drop(o);
                let a = self.malloc(st, &args[1], ip)?;
                if a == 0 {
                    return Ok(Some(I(0)));
                }
                let n = match &args[1] {
                    I(n) => old.min(*n),
                    _ => old,
                };
                st.extra += n / 16;
                self.memcpy(&mut st.mem, a, p, n)?;
                self.free(st, p)?;
                I(a)
            }
            Ck::Free => {
                let p = cz!(&args[0], 64);
                self.free(st, p)?;
                I(0)
            }
            Ck::Memcpy => {
                let n = cz!(&args[2], 64);
                let d = cz!(&args[0], 64);
                let sp = cz!(&args[1], 64);
                if n > 1 << 26 {
                    return unsup("huge memcpy");
                }
                st.extra += n / 16;
                self.memcpy(&mut st.mem, d, sp, n)?;
                I(d)
            }
            Ck::Memset => {
                let n = cz!(&args[2], 64);
                let d = cz!(&args[0], 64);
                if n > 1 << 26 {
                    return unsup("huge memset");
                }
                st.extra += n / 16;
                if n > 0 {
                    let (k, t) = match &args[1] {
                        I(x) => (*x as u8, 0),
                        v => {
                            let w = tys[1].bits().unwrap() as u16;
                            let t = self.term(v, w)?;
                            (0, self.ar.extract(t, 0, 8))
                        }
                    };
                    let n = n as usize;
                    self.with_obj(&mut st.mem, d, n as u64, |o, off| {
                        o.bytes[off..off + n].fill(k);
                        if t != 0 && o.sym.is_empty() {
                            o.sym = vec![0; o.bytes.len()];
                        }
                        if !o.sym.is_empty() {
                            o.sym[off..off + n].fill(t);
                        }
                    })?;
                }
                I(d)
            }
            Ck::Bcmp | Ck::Memcmp => {
                let n = cz!(&args[2], 64);
                let a = cz!(&args[0], 64);
                let b = cz!(&args[1], 64);
                let mut r = self.ar.konst(0, 32);
                st.extra += n / 16;
                for i in (0..n).rev() {
                    let x = self.load_int(&st.mem, a + i, 8)?;
                    let y = self.load_int(&st.mem, b + i, 8)?;
                    let (x, y) = (self.term(&x, 8)?, self.term(&y, 8)?);
                    let e = self.ar.eq(x, y);
                    let one = self.ar.konst(1, 32);
                    let ne = if k == Ck::Bcmp {
                        one
                    } else {
                        let l = self.ar.cmp(Op::Ult, x, y);
                        let m1 = self.ar.konst(mask(32), 32);
                        self.ar.ite(l, m1, one)
                    };
                    r = self.ar.ite(e, r, ne);
                }
                self.val(r)
            }
            Ck::Strlen => {
                let p = cz!(&args[0], 64);
                let mut n = 0;
                loop {
                    let v = self.load_int(&st.mem, p + n, 8)?;
                    match Self::conc(&v) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return unsup("strlen of symbolic data"),
                    }
                }
                I(n)
            }
            Ck::Errno => unsup("errno")?,
            Ck::AtExit | Ck::Env => I(0),
            Ck::Random => {
                let (p, n) = (cz!(&args[0], 64), cz!(&args[1], 64));
                for i in 0..n {
                    self.store_int(&mut st.mem, p + i, 8, &I((i * 37 + 11) & 0xFF))?;
                }
                I(n)
            }
            Ck::Clock => {
                let p = cz!(&args[1], 64);
                self.store_int(&mut st.mem, p, 64, &I(0))?;
                self.store_int(&mut st.mem, p + 8, 64, &I(0))?;
                I(0)
            }
            Ck::Write => I(cz!(&args[2], 64)),
            Ck::SymBytes => {
                let p = cz!(&args[0], 64);
                let n = cz!(&args[1], 64) as usize;
                let base = st.p.nsym;
                if base + n > MAXVARS {
                    return unsup("too many symbolic bytes");
                }
                st.p.nsym += n;
                st.p.un.resize(base + n, 0);
                let mut b = st.p.model.b.clone();
                b.resize(base + n, 0);
                st.p.model = self.new_model(b);
                if st.p.nsym > self.st.nsym {
                    self.st.nsym = st.p.nsym;
                }
                for i in 0..n {
                    let t = self.ar.var(base + i);
                    self.store_int(&mut st.mem, p + i as u64, 8, &Val::T(t))?;
                }
                I(0)
            }
            Ck::SymAssume => {
                let w = tys[0].bits().unwrap() as u16;
                let t = self.term(&args[0], w)?;
                let z = self.ar.konst(0, w);
                let e = self.ar.eq(t, z);
                let c = self.ar.not(e);
                if !self.is_true(&st.p, c) {
                    match self.feasible(&st.p, c)? {
                        None => return Err(Stop::Killed),
                        Some(m) => st.p.model = m,
                    }
                }
                self.add(&mut st.p, c);
                I(0)
            }
            Ck::SymDone => return Err(Stop::Done),
            Ck::SymAssert => {
                let w = tys[0].bits().unwrap() as u16;
                let t = self.term(&args[0], w)?;
                let z = self.ar.konst(0, w);
                let e = self.ar.eq(t, z);
                let c = self.ar.not(e);
                let id = cz!(&args[1], 64);
                self.assert(st, c, id)?;
                I(0)
            }
            Ck::SymAssertEq => {
                // (a, b, n words, id)
                let a = cz!(&args[0], 64);
                let b = cz!(&args[1], 64);
                let n = cz!(&args[2], 64);
                let id = cz!(&args[3], 64);
                let mut c = self.ar.konst(1, 1);
                for i in 0..n {
                    let x = self.load_int(&st.mem, a + 8 * i, 64)?;
                    let y = self.load_int(&st.mem, b + 8 * i, 64)?;
                    if let (I(x), I(y)) = (&x, &y) {
                        if x == y {
                            continue;
                        }
                    }
                    let (x, y) = (self.term(&x, 64)?, self.term(&y, 64)?);
                    let e = self.ar.eq(x, y);
                    c = self.ar.and(c, e);
                }
                self.st.max_asserted_words = self.st.max_asserted_words.max(n);
                self.assert(st, c, id)?;
                I(0)
            }
            Ck::SymCover => {
                let id = cz!(&args[0], 64);
                if !st.covers.contains(&id) {
                    Rc::make_mut(&mut st.covers).push(id);
                }
                I(0)
            }
            Ck::SymTrace => {
                let w = tys[0].bits().unwrap() as u16;
                Rc::make_mut(&mut st.trace).push((args[0].clone(), w));
                I(0)
            }
            Ck::SymLimit => {
                let n = cz!(&args[0], 64);
                st.limit = if n == 0 { u64::MAX } else { st.live + n };
                st.peak = st.live;
                I(0)
            }
            Ck::SymWork => {
                let n = cz!(&args[0], 64);
                if n == 0 {
                    self.st.max_work = self.st.max_work.max(st.steps + st.extra - st.work0);
                    Self::overwork(st)?;
                    st.wlimit = u64::MAX;
                } else if n < u64::MAX {
                    st.work0 = st.steps + st.extra;
                    st.wlimit = st.work0 + n;
                }
                I(0)
            }
            Ck::SymConc => {
                let w = tys[0].bits().unwrap() as u16;
                Self::kval(cz!(&args[0], w) as u128, w)
            }
            Ck::SymIsNative => I(0),
            Ck::SymPeak => I(st.peak),
            Ck::SymDepth => I(st.frames.len() as u64),
            Ck::SymArg => {
                let i = cz!(&args[0], 64);
                I(self.args.get(i as usize).copied().unwrap_or(u64::MAX))
            }
            Ck::Normal => return Ok(None),
            Ck::Missing | Ck::Unknown => return unsup(format!("call of external {}", self.m.syms[s as usize].name)),
        }))
    }

    fn overwork(st: &State) -> R<()> {
        if st.steps + st.extra > st.wlimit {
            return Err(Stop::Violation { kind: format!("work: more than {} steps", st.wlimit - st.work0), model: None, id: u64::MAX - 5 });
        }
        Ok(())
    }

    /// Run one state until it ends.
    fn run_state(&mut self, st: &mut State, max_steps: u64) -> R<()> {
        'outer: loop {
            let (f, blk, mut ip) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.blk, fr.ip)
            };
            let block = &f.blocks[blk as usize];
            loop {
                let (inst, _dbg) = &block.insts[ip];
                st.steps += 1;
                if st.steps & 0xffff == 0 {
                    Self::overwork(st)?;
                    if st.steps > max_steps {
                        return Err(Stop::Budget(format!("path longer than {} steps", max_steps)));
                    }
                    if self.deadline.is_some_and(|d| Instant::now() > d) {
                        return Err(Stop::Budget("time".into()));
                    }
                }
                macro_rules! get {
                    ($o:expr, $t:expr) => {{
                        let fr = st.frames.last().unwrap();
                        self.opd(fr, $o, $t)?
                    }};
                }
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        Rc::make_mut(st.frames.last_mut().unwrap()).regs[$d as usize] = v;
                    }};
                }
                macro_rules! cz {
                    ($v:expr, $w:expr) => {{
                        Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip;
                        let v = $v;
                        match v {
                            I(x) => x,
                            v => self.concretize(st, &v, $w, ip)?,
                        }
                    }};
                }
                match inst {
                    Inst::Nop => {}
                    Inst::Bin { op, ty, a, b, dst } => {
                        let (x, y) = (get!(a, ty), get!(b, ty));
                        let o = Self::binop(*op);
                        let r = match ty.bits() {
                            Some(w) => self.bin(o, w as u16, &x, &y)?,
                            None => self.lanes(ty, &[&x, &y], &mut |e, w, l| e.bin(o, w, l[0], l[1]))?,
                        };
                        set!(*dst, r);
                    }
                    Inst::ICmp { p, ty, a, b, dst } => {
                        let (x, y) = (get!(a, ty), get!(b, ty));
                        let r = match ty.bits() {
                            Some(w) => self.icmp(*p, w as u16, &x, &y)?,
                            None => self.lanes(ty, &[&x, &y], &mut |e, w, l| e.icmp(*p, w, l[0], l[1]))?,
                        };
                        set!(*dst, r);
                    }
                    Inst::FCmp { p, ty, a, b, dst } => {
                        let (x, y) = (get!(a, ty), get!(b, ty));
                        let r = match ty.bits() {
                            Some(w) => self.fcmp(*p, w as u16, &x, &y)?,
                            None => self.lanes(ty, &[&x, &y], &mut |e, w, l| e.fcmp(*p, w, l[0], l[1]))?,
                        };
                        set!(*dst, r);
                    }
                    Inst::FNeg { ty, a, dst } => {
                        let x = get!(a, ty);
                        let r = self.lanes(ty, &[&x], &mut |e, w, l| e.bin(Op::Xor, w, l[0], &Self::kval(1 << (w - 1), w)))?;
                        set!(*dst, r);
                    }
                    Inst::FBin { op, ty, a, b, dst } => {
                        let (x, y) = (get!(a, ty), get!(b, ty));
                        let op = *op;
                        let r = self.lanes(ty, &[&x, &y], &mut |_, w, l| {
                            let (Some(x), Some(y)) = (Self::conc(l[0]), Self::conc(l[1])) else { return unsup("floating-point arithmetic on symbolic values") };
                            macro_rules! ar {
                                ($x:expr, $y:expr) => {
                                    match op {
                                        b'+' => $x + $y,
                                        b'-' => $x - $y,
                                        b'*' => $x * $y,
                                        b'/' => $x / $y,
                                        _ => $x % $y,
                                    }
                                };
                            }
                            Ok(Self::kval(if w == 32 { ar!(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u128 } else { ar!(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128 }, w))
                        })?;
                        set!(*dst, r);
                    }
                    Inst::Cast { k, from, to, a, dst } => {
                        let x = get!(a, from);
                        let r = if *k == CastK::Bitcast {
                            self.bitcast(from, to, &x)?
                        } else {
                            match (from.bits(), to.bits()) {
                                (Some(f), Some(t)) => self.cast(*k, f as u16, t as u16, &x)?,
                                _ => {
                                    let tw = to.elem(0).bits().unwrap() as u16;
                                    self.lanes(from, &[&x], &mut |e, w, l| e.cast(*k, w, tw, l[0]))?
                                }
                            }
                        };
                        set!(*dst, r);
                    }
                    Inst::Alloca { size, n, dst } => {
                        let k = match n {
                            Some(o) => cz!(get!(o, &Type::Int(64)), 64),
                            None => 1,
                        };
                        let a = self.alloc(&mut st.mem, (*size * k) as usize, Kind::Stack)?;
                        let id = ((a >> OFFB) - 1 - self.nsyms as u64) as u32;
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        fr.allocas.push(id);
                        fr.regs[*dst as usize] = I(a);
                    }
                    Inst::Load { ty, p, dst } => {
                        let a = get!(p, &Type::Ptr);
                        let r = match a {
                            I(a) => self.load(&st.mem, a, ty)?,
                            Val::T(t) => match self.symbolic_load(st, t, ty)? {
                                Some(v) => v,
                                None => {
                                    let a = cz!(Val::T(t), 64);
                                    self.load(&st.mem, a, ty)?
                                }
                            },
                            _ => return unsup("load address"),
                        };
                        set!(*dst, r);
                    }
                    Inst::Store { ty, v, p } => {
                        let a = cz!(get!(p, &Type::Ptr), 64);
                        let v = get!(v, ty);
                        self.store(&mut st.mem, a, ty, &v)?;
                    }
                    Inst::Gep { p, off, idx, dst } => {
                        let b = get!(p, &Type::Ptr);
                        let mut r = match b {
                            I(x) => I(x.wrapping_add(*off as u64)),
                            v => self.bin(Op::Add, 64, &v, &I(*off as u64))?,
                        };
                        for (o, w, sz) in idx {
                            let i = get!(o, &Type::Int(*w));
                            let i = self.cast(CastK::SExt, *w as u16, 64, &i)?;
                            let k = self.bin(Op::Mul, 64, &i, &I(*sz))?;
                            r = self.bin(Op::Add, 64, &r, &k)?;
                        }
                        set!(*dst, r);
                    }
                    Inst::Select { c, cty, ty, a, b, dst } => {
                        let c = get!(c, cty);
                        let (x, y) = (get!(a, ty), get!(b, ty));
                        let r = if let A(cs) = &c {
                            let (A(xs), A(ys)) = (&x, &y) else { return unsup("vector select") };
                            let et = ty.elem(0);
                            let mut r = vec![];
                            for i in 0..cs.len() {
                                r.push(self.select(&cs[i], &et, xs[i].clone(), ys[i].clone())?);
                            }
                            A(Rc::new(r))
                        } else {
                            self.select(&c, ty, x, y)?
                        };
                        set!(*dst, r);
                    }
                    Inst::ExtractValue { a, ty, idx, dst } => {
                        let x = get!(a, ty);
                        set!(*dst, Self::extract_agg(&x, idx)?);
                    }
                    Inst::InsertValue { a, ty, v, vty, idx, dst } => {
                        let x = get!(a, ty);
                        let v = get!(v, vty);
                        set!(*dst, Self::insert_agg(&x, idx, v)?);
                    }
                    Inst::ExtractElem { a, ty, i, dst } => {
                        let x = get!(a, ty);
                        let i = cz!(get!(i, &Type::Int(64)), 64);
                        set!(*dst, Self::extract_agg(&x, &[i as u32])?);
                    }
                    Inst::InsertElem { a, ty, v, i, dst } => {
                        let x = get!(a, ty);
                        let v = get!(v, &ty.elem(0));
                        let i = cz!(get!(i, &Type::Int(64)), 64);
                        set!(*dst, Self::insert_agg(&x, &[i as u32], v)?);
                    }
                    Inst::Shuffle { a, b, ty, mask, dst } => {
                        let (x, y) = (get!(a, ty), get!(b, ty));
                        let (A(xs), A(ys)) = (&x, &y) else { return unsup("shuffle") };
                        let n = xs.len();
                        let r: Vec<Val> = mask
                            .iter()
                            .map(|m| match m {
                                None => I(0),
                                Some(i) if (*i as usize) < n => xs[*i as usize].clone(),
                                Some(i) => ys[*i as usize - n].clone(),
                            })
                            .collect();
                        set!(*dst, A(Rc::new(r)));
                    }
                    Inst::Freeze { a, dst } => {
                        let x = get!(a, &Type::Int(64));
                        set!(*dst, x);
                    }
                    Inst::Br(t) => {
                        self.jump(st, *t)?;
                        continue 'outer;
                    }
                    Inst::CondBr { c, t, f: fb } => {
                        let c = get!(c, &Type::Int(1));
                        let side = match c {
                            I(x) => x & 1 != 0,
                            Val::T(ct) => {
                                let (side, o) = self.branch(st, ct)?;
                                if let Some(mut o) = o {
                                    self.jump(&mut o, if side { *fb } else { *t })?;
                                    self.work.push(o);
                                }
                                side
                            }
                            _ => return unsup("branch condition"),
                        };
                        self.jump(st, if side { *t } else { *fb })?;
                        continue 'outer;
                    }
                    Inst::Switch { w, v, def, cases } => {
                        let v = get!(v, &Type::Int(*w));
                        let target = match Self::conc(&v) {
                            Some(x) => cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def),
                            None => {
                                let t = self.term(&v, *w as u16)?;
                                let mut conds: Vec<(T, u32)> = vec![];
                                let mut pos: HashMap<u32, usize> = HashMap::new();
                                let mut any = self.ar.konst(0, 1);
                                for (k, b) in cases {
                                    let kk = self.ar.konst(*k, *w as u16);
                                    let e = self.ar.eq(t, kk);
                                    any = self.ar.or(any, e);
                                    match pos.get(b) {
                                        Some(i) => {
                                            let x = conds[*i].0;
                                            conds[*i].0 = self.ar.or(x, e);
                                        }
                                        None => {
                                            pos.insert(*b, conds.len());
                                            conds.push((e, *b));
                                        }
                                    }
                                }
                                let d = self.ar.not(any);
                                match pos.get(def) {
                                    Some(i) => {
                                        let x = conds[*i].0;
                                        conds[*i].0 = self.ar.or(x, d);
                                    }
                                    None => conds.push((d, *def)),
                                }
                                self.multi(st, conds)?
                            }
                        };
                        self.jump(st, target)?;
                        continue 'outer;
                    }
                    Inst::Ret(v) => {
                        let v = match v {
                            Some((ty, o)) => get!(o, ty),
                            None => I(0),
                        };
                        let fr = st.frames.pop().unwrap();
                        for a in &fr.allocas {
                            st.mem.objs[*a as usize] = None;
                        }
                        if st.frames.is_empty() {
                            return Err(Stop::Done);
                        }
                        let (d, to) = (fr.ret_dst, fr.ret_to);
                        drop(fr);
                        if let Some(d) = d {
                            set!(d, v);
                        }
                        match to {
                            Some(b) => self.jump(st, b)?,
                            None => {
                                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                                fr.ip += 1;
                            }
                        }
                        continue 'outer;
                    }
                    Inst::Unreachable => {
                        return Err(Stop::Violation { kind: "unreachable executed".into(), model: None, id: u64::MAX - 2 });
                    }
                    Inst::AtomicRmw { op, ty, p, v, dst } => {
                        let a = cz!(get!(p, &Type::Ptr), 64);
                        let old = self.load(&st.mem, a, ty)?;
                        let v = get!(v, ty);
                        let w = ty.bits().unwrap_or(64) as u16;
                        let n = match op.as_str() {
                            "add" => self.bin(Op::Add, w, &old, &v)?,
                            "sub" => self.bin(Op::Sub, w, &old, &v)?,
                            "and" => self.bin(Op::And, w, &old, &v)?,
                            "or" => self.bin(Op::Or, w, &old, &v)?,
                            "xor" => self.bin(Op::Xor, w, &old, &v)?,
                            "xchg" => v,
                            o => return unsup(format!("atomicrmw {}", o)),
                        };
                        self.store(&mut st.mem, a, ty, &n)?;
                        if let Some(d) = dst {
                            set!(*d, old);
                        }
                    }
                    Inst::CmpXchg { ty, p, c, n, dst } => {
                        let a = cz!(get!(p, &Type::Ptr), 64);
                        let old = self.load(&st.mem, a, ty)?;
                        let c = get!(c, ty);
                        let n = get!(n, ty);
                        let w = ty.bits().unwrap_or(64) as u16;
                        let e = self.icmp(Pred::Eq, w, &old, &c)?;
                        let nv = self.select(&e, ty, n, old.clone())?;
                        self.store(&mut st.mem, a, ty, &nv)?;
                        if let Some(d) = dst {
                            set!(*d, A(Rc::new(vec![old, e])));
                        }
                    }
                    Inst::Call { f: callee, args, ret, dst, normal, .. } => {
                        let s = match callee {
                            Callee::Asm => {
                                // only compiler barriers (black_box) reach this
                                ip += 1;
                                continue;
                            }
                            Callee::Sym(s) => *s,
                            Callee::Ind(o) => {
                                let a = cz!(get!(o, &Type::Ptr), 64);
                                let id = (a >> OFFB).wrapping_sub(1);
                                if a & OFFM != 0 || id >= self.nsyms as u64 {
                                    return Err(self.memfault(format!("call through {:#x}", a)));
                                }
                                id as u32
                            }
                        };
                        let mut av = Vec::with_capacity(args.len());
                        for (t, o) in args {
                            av.push(if **t == Type::Other { I(0) } else { get!(o, t) });
                        }
                        let k = self.classify(s);
                        if k == Ck::Normal {
                            let mut nf = self.new_frame(s, av)?;
                            nf.ret_dst = *dst;
                            nf.ret_to = *normal;
                            Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip;
                            st.frames.push(Rc::new(nf));
                            if st.frames.len() > st.maxframes {
                                st.maxframes = st.frames.len();
                                if st.maxframes > 60_000 {
                                    return Err(Stop::Violation { kind: "stack: more than 60000 frames".into(), model: None, id: u64::MAX - 3 });
                                }
                            }
                            continue 'outer;
                        }
                        if k != Ck::Nop {
                            Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip;
                            let tys: Vec<Rc<Type>> = args.iter().map(|a| a.0.clone()).collect();
                            let r = self.call(st, s, av, &tys, ret, ip)?;
                            if let (Some(d), Some(r)) = (dst, r) {
                                set!(*d, r);
                            }
                        }
                        if let Some(b) = normal {
                            self.jump(st, *b)?;
                            continue 'outer;
                        }
                    }
                    Inst::Unsupported(s) => return unsup(s.clone()),
                }
                ip += 1;
            }
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for fr in st.frames.iter().rev().take(40) {
            let b = &fr.f.blocks[fr.blk as usize];
            let d = b.insts.get(fr.ip).map(|x| x.1).unwrap_or(0);
            if d != 0 {
                for (f, file, line) in self.m.loc_frames(d) {
                    out.push(format!("{} {}:{}", f, file, line));
                }
            } else {
                out.push(fr.f.name.clone());
            }
        }
        out
    }

    fn hash(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for (v, _w) in st.trace.iter() {
            let x = match v {
                I(x) => *x,
                W(x) => **x as u64,
                Val::T(t) => self.ev(&st.p, *t) as u64,
                A(_) => 0,
            };
            for b in x.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }

    /// Explore `entry(args)` completely within the limits.
    pub fn explore(&mut self, entry: &str, args: &[u64], fixed: Option<&[u8]>, lim: &Limits) -> Outcome {
        let start = Instant::now();
        self.args = args.to_vec();
        self.st = Stats::default();
        let (q0, s0, u0, t0) = (self.z.queries, self.z.sat, self.z.unsat, self.z.time);
        self.z.max_time = 0.0;
        self.deadline = Some(start + std::time::Duration::from_secs_f64(lim.secs));
        let mut out = Outcome {
            status: "ok".into(),
            msg: String::new(),
            stats: Stats::default(),
            samples: vec![],
            violations: vec![],
            queries: 0,
            sat: 0,
            unsat: 0,
            ztime: 0.0,
            zmax: 0.0,
            wall: 0.0,
        };
        self.work.clear();
        let fr = self.m.lookup(entry).map_err(Stop::Unsupported).and_then(|id| self.new_frame(id, vec![]));
        match fr {
            Err(e) => {
                out.status = "unsupported".into();
                out.msg = format!("{:?}", e);
            }
            Ok(fr) => {
                let model = self.new_model(vec![]);
                self.work.push(State {
                    frames: vec![Rc::new(fr)],
                    mem: Mem { objs: vec![], gover: Rc::new(HashMap::new()) },
                    p: Path { un: vec![], multi: vec![], mvars: [0; MAXVARS / 64], model, nsym: 0, forks: 0 },
                    steps: 0,
                    live: 0,
                    peak: 0,
                    limit: u64::MAX,
                    extra: 0,
                    work0: 0,
                    wlimit: u64::MAX,
                    maxframes: 1,
                    trace: Rc::new(vec![]),
                    covers: Rc::new(vec![]),
                });
            }
        }
        let mut rng = 0x9e3779b97f4a7c15u64;
        while let Some(mut st) = self.work.pop() {
            if start.elapsed().as_secs_f64() > lim.secs || self.st.paths >= lim.paths {
                out.status = "incomplete".into();
                out.msg = format!("limit reached after {} paths, {} pending", self.st.paths, self.work.len() + 1);
                break;
            }
            let s0 = st.steps;
            let r = self.run_state(&mut st, lim.steps).unwrap_err();
            self.st.steps += st.steps - s0;
            self.st.max_frames = self.st.max_frames.max(st.maxframes);
            self.st.max_peak = self.st.max_peak.max(st.peak);
            match r {
                Stop::Done => {
                    self.st.paths += 1;
                    for c in st.covers.iter() {
                        *self.st.covers.entry(*c).or_default() += 1;
                    }
                    // reservoir sample
                    let k = self.st.paths as usize;
                    let slot = if out.samples.len() < lim.samples {
                        out.samples.push(Sample { bytes: vec![], hash: 0, covers: vec![] });
                        Some(out.samples.len() - 1)
                    } else {
                        rng ^= rng << 13;
                        rng ^= rng >> 7;
                        rng ^= rng << 17;
                        let j = (rng % k as u64) as usize;
                        if j < lim.samples { Some(j) } else { None }
                    };
                    if let Some(j) = slot {
                        let h = self.hash(&st);
                        let mut b = st.p.model.b.clone();
                        b.resize(st.p.nsym, 0);
                        out.samples[j] = Sample { bytes: b, hash: h, covers: st.covers.to_vec() };
                    }
                }
                Stop::Killed => self.st.killed += 1,
                Stop::Violation { kind, model, id } => {
                    self.st.paths += 1;
                    let m = model.unwrap_or(st.p.model.clone());
                    let mut b = m.b.clone();
                    b.resize(st.p.nsym, 0);
                    let stack = self.stack(&st);
                    out.violations.push(Violation { kind, id, bytes: b, stack });
                    out.status = "violation".into();
                    if out.violations.len() as u64 > self.opts.continue_after_violation {
                        out.msg = "stopped at first violation".into();
                        break;
                    }
                }
                Stop::Unsupported(s) => {
                    out.status = "unsupported".into();
                    out.msg = format!("{} at {:?}", s, self.stack(&st).iter().take(6).collect::<Vec<_>>());
                    break;
                }
                Stop::Budget(s) => {
                    out.status = "incomplete".into();
                    // the caller decides natively whether this one ever ends
                    let mut b = st.p.model.b.clone();
                    b.resize(st.p.nsym, 0);
                    let stack = self.stack(&st);
                    out.violations.push(Violation { kind: "budget".into(), id: u64::MAX - 4, bytes: b, stack });
                    out.msg = format!("{} at {:?}", s, self.stack(&st).iter().take(6).collect::<Vec<_>>());
                    break;
                }
            }
        }
        let _ = fixed;
        self.work.clear();
        out.stats = std::mem::take(&mut self.st);
        out.queries = self.z.queries - q0;
        out.sat = self.z.sat - s0;
        out.unsat = self.z.unsat - u0;
        out.ztime = self.z.time - t0;
        out.zmax = self.z.max_time;
        out.wall = start.elapsed().as_secs_f64();
        out
    }
}
