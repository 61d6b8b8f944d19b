//! Parser for textual LLVM IR (the subset rustc emits), lazily per function and per global.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Type {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Type>),
    Vec(u64, Rc<Type>),
    Struct(Vec<Rc<Type>>, bool),
    Other,
}

impl Type {
    pub fn bits(&self) -> Option<u32> {
        match self {
            Type::Int(w) => Some(*w),
            Type::Ptr => Some(64),
            Type::Float => Some(32),
            Type::Double => Some(64),
            _ => None,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Type::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Type::Ptr | Type::Double => 8,
            Type::Float => 4,
            Type::Arr(_, t) => t.align(),
            Type::Vec(..) => self.store_size().next_power_of_two().min(64).max(1),
            Type::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Type::Vec(n, t) => (n * t.bits().unwrap_or(8) as u64).div_ceil(8),
            Type::Int(w) => (*w as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Type::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.div_ceil(self.align()) * self.align()
            }
            Type::Ptr | Type::Double => 8,
            Type::Float => 4,
            Type::Arr(n, t) => n * t.size(),
            Type::Vec(..) => {
                let s = self.store_size();
                s.div_ceil(self.align()) * self.align()
            }
            Type::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Type::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Type::Arr(_, t) => i as u64 * t.size(),
            Type::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset"),
        }
    }
    pub fn elem(&self, i: usize) -> Rc<Type> {
        match self {
            Type::Struct(f, _) => f[i].clone(),
            Type::Arr(_, t) | Type::Vec(_, t) => t.clone(),
            _ => panic!("elem"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Type::Struct(f, _) => f.len(),
            Type::Arr(n, _) | Type::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Type::Struct(..) | Type::Arr(..) | Type::Vec(..))
    }
}

/// A constant
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Global(u32, i64), // symbol id + offset
    Agg(Vec<Const>),
    Bytes(Vec<u8>),
    Zero,
    /// ptrtoint/sub of symbols etc: a - b (+k), truncated to the use width
    Diff(u32, i64, u32, i64),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Rc<Const>),
    /// fast path for small constants
    I(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc, ZExt, SExt, Same, Bitcast, FpExt, FpTrunc,
    /// integer from/to floating point, on concrete values
    FpConv(bool, bool), // to float, signed
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Rc<Type>, a: Opd, b: Opd, dst: u32 },
    ICmp { p: Pred, ty: Rc<Type>, a: Opd, b: Opd, dst: u32 },
    /// p: bit 0 unordered, 1 less, 2 equal, 3 greater
    FCmp { p: u8, ty: Rc<Type>, a: Opd, b: Opd, dst: u32 },
    FNeg { ty: Rc<Type>, a: Opd, dst: u32 },
    /// arithmetic on concrete values: + - * / %
    FBin { op: u8, ty: Rc<Type>, a: Opd, b: Opd, dst: u32 },
    Cast { k: CastK, from: Rc<Type>, to: Rc<Type>, a: Opd, dst: u32 },
    Alloca { size: u64, n: Option<Opd>, dst: u32 },
    Load { ty: Rc<Type>, p: Opd, dst: u32 },
    Store { ty: Rc<Type>, v: Opd, p: Opd },
    Gep { p: Opd, off: i64, idx: Vec<(Opd, u32, u64)>, dst: u32 },
    Select { c: Opd, cty: Rc<Type>, ty: Rc<Type>, a: Opd, b: Opd, dst: u32 },
    ExtractValue { a: Opd, ty: Rc<Type>, idx: Vec<u32>, dst: u32 },
    InsertValue { a: Opd, ty: Rc<Type>, v: Opd, vty: Rc<Type>, idx: Vec<u32>, dst: u32 },
    ExtractElem { a: Opd, ty: Rc<Type>, i: Opd, dst: u32 },
    InsertElem { a: Opd, ty: Rc<Type>, v: Opd, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, ty: Rc<Type>, mask: Vec<Option<u32>>, dst: u32 },
    Call { f: Callee, args: Vec<(Rc<Type>, Opd)>, ret: Rc<Type>, dst: Option<u32>, normal: Option<u32>, dbg: u32 },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Rc<Type>, Opd)>),
    Unreachable,
    Freeze { a: Opd, dst: u32 },
    AtomicRmw { op: String, ty: Rc<Type>, p: Opd, v: Opd, dst: Option<u32> },
    CmpXchg { ty: Rc<Type>, p: Opd, c: Opd, n: Opd, dst: Option<u32> },
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Rc<Type>, Vec<(u32, Opd)>)>,
    pub insts: Vec<(Inst, u32)>, // with !dbg id (0 = none)
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub sub: u32, // DISubprogram metadata id
}

#[derive(Clone, Debug)]
pub enum SymKind {
    Func { start: usize, end: usize },
    Decl,
    Global { ty: Rc<Type>, init: Option<(usize, usize)>, constant: bool },
    Alias(String),
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub kind: SymKind,
}

pub struct Module {
    pub text: String,
    pub syms: Vec<Sym>,
    pub byname: HashMap<String, u32>,
    pub types: HashMap<String, Rc<Type>>,
    pub meta: HashMap<u32, (usize, usize)>,
    funcs: RefCell<HashMap<u32, Rc<Func>>>,
}

struct P<'a> {
    m: &'a Module,
    s: &'a [u8],
    i: usize,
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a [u8]) -> Self {
        P { m, s, i: 0, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.s[self.i.min(self.s.len())..].starts_with(b"/*") {
            self.i += find(&self.s[self.i..], b"*/").map_or(self.s.len() - self.i, |p| p + 2);
            self.ws();
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let e = self.i + b.len();
            if is_id(b[b.len() - 1]) && e < self.s.len() && is_id(self.s[e]) {
                return false;
            }
            self.i = e;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]).into_owned()
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn peek_word(&mut self) -> String {
        let sv = self.i;
        let w = self.word();
        self.i = sv;
        w
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.s.get(self.i) == Some(&b'-') {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|x| x as i128)).map_err(|e| format!("int {:?}: {}", t, e))
    }

    fn ty(&mut self) -> R<Rc<Type>> {
        let c = self.peek();
        let mut t = match c {
            b'i' if self.s.get(self.i + 1).is_some_and(|c| c.is_ascii_digit()) => {
                self.i += 1;
                Rc::new(Type::Int(self.int()? as u32))
            }
            b'[' => {
                self.i += 1;
                let n = self.int()? as u64;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Rc::new(Type::Arr(n, t))
            }
            b'<' if self.s[self.i + 1] == b'{' => {
                self.i += 1;
                let t = self.struct_body(true)?;
                self.expect(">")?;
                t
            }
            b'<' => {
                self.i += 1;
                let n = self.int()? as u64;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect(">")?;
                Rc::new(Type::Vec(n, t))
            }
            b'{' => self.struct_body(false)?,
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().ok_or_else(|| format!("type {}", n))?
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.paren()?;
                        }
                        Rc::new(Type::Ptr)
                    }
                    "void" => Rc::new(Type::Void),
                    "float" => Rc::new(Type::Float),
                    "double" => Rc::new(Type::Double),
                    "metadata" | "label" | "token" | "opaque" | "x86_fp80" | "fp128" | "half" | "bfloat" => Rc::new(Type::Other),
                    _ => return Err(format!("type? {:?} {:?}", w, self.rest())),
                }
            }
        };
        // function type
        if self.peek() == b'(' && self.s[self.i] == b'(' {
            // only when used as callee type; caller decides. Detect "T (" followed by types and then @ or %
            let sv = self.i;
            if self.paren().is_ok() {
                let c = self.peek();
                if c == b'@' || c == b'%' {
                    // swallow function type
                    return Ok(t);
                }
            }
            self.i = sv;
        }
        if false {
            t = t.clone();
        }
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> R<Rc<Type>> {
        self.expect("{")?;
        let mut f = vec![];
        if self.eat("}") {
            return Ok(Rc::new(Type::Struct(f, packed)));
        }
        loop {
            f.push(self.ty()?);
            if self.eat("}") {
                break;
            }
            self.expect(",")?;
        }
        Ok(Rc::new(Type::Struct(f, packed)))
    }
    /// skip a balanced parenthesis group
    fn paren(&mut self) -> R<()> {
        self.ws();
        if self.s.get(self.i) != Some(&b'(') {
            return Err("paren".into());
        }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return Ok(());
            }
        }
        Err("unbalanced".into())
    }

    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        match c {
            b'[' | b'<' | b'{' | b'%' => true,
            b'i' => self.s.get(self.i + 1).is_some_and(|c| c.is_ascii_digit()),
            _ => matches!(self.peek_word().as_str(), "ptr" | "void" | "float" | "double" | "metadata" | "label" | "token"),
        }
    }
    /// skip attributes preceding a type or an operand
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            if self.is_type_start() {
                return Ok(());
            }
            let c = self.peek();
            if c == b'"' {
                self.name();
                if self.eat("=") {
                    self.ws();
                    self.name();
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                return Err(format!("attrs at {:?}", self.rest()));
            }
            if self.s.get(self.i) == Some(&b'(') {
                self.paren()?;
            } else if w == "align" || w == "cc" {
                self.int()?;
            }
        }
    }

    fn reg(&mut self, n: String) -> u32 {
        if let Some(r) = self.regs.get(&n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn block(&mut self, n: String) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(l)
    }
    fn label(&mut self) -> R<u32> {
        self.expect("label")?;
        self.expect("%")?;
        let n = self.name();
        Ok(self.block(n))
    }

    /// operand after skipping operand attributes (noundef etc.)
    fn opd(&mut self, ty: &Type) -> R<Opd> {
        let c = self.peek();
        if c == b'%' {
            self.i += 1;
            let n = self.name();
            return Ok(Opd::Reg(self.reg(n)));
        }
        let k = self.konst(ty)?;
        if let Const::Int(v) = &k {
            if ty.bits().is_some_and(|w| w <= 64) {
                return Ok(Opd::I(*v as u64));
            }
        }
        if let (Const::Zero, Some(w)) = (&k, ty.bits()) {
            if w <= 64 {
                return Ok(Opd::I(0));
            }
        }
        Ok(Opd::K(Rc::new(k)))
    }

    /// decimal, hexadecimal of a double (0x), raw bits (f0x), or [+-](inf|qnan|nan(0x payload)|snan(0x payload))
    fn float(&mut self, single: bool) -> R<Const> {
        let st = self.i;
        while self.i < self.s.len() && (is_id(self.s[self.i]) || matches!(self.s[self.i], b'+' | b'(')) {
            self.i += 1;
            if self.s[self.i - 1] == b'(' {
                while self.s.get(self.i).is_some_and(|c| *c != b')') {
                    self.i += 1;
                }
                self.i += 1;
                break;
            }
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        let hex = |h: &str| u64::from_str_radix(h, 16).map_err(|e| e.to_string());
        if let Some(h) = t.strip_prefix("f0x") {
            return Ok(Const::Int(hex(h)? as u128));
        }
        let u = t.trim_start_matches(['+', '-']);
        let neg = t.starts_with('-') as u64;
        let (inf, q, sign) = if single { (0x7F80_0000, 1 << 22, 31) } else { (0x7FF0 << 48, 1 << 51, 63) };
        let pay = |s: &str| s.strip_suffix(')').and_then(|s| s.strip_prefix("0x")).ok_or_else(|| format!("float {}", t)).and_then(hex);
        let special = if u == "inf" {
            Some(inf)
        } else if u == "qnan" {
            Some(inf | q)
        } else if let Some(p) = u.strip_prefix("nan(") {
            Some(inf | q | pay(p)?)
        } else if let Some(p) = u.strip_prefix("snan(") {
            Some(inf | pay(p)?)
        } else {
            None
        };
        if let Some(b) = special {
            return Ok(Const::Int((b | neg << sign) as u128));
        }
        let d = if let Some(h) = t.strip_prefix("0x") { f64::from_bits(hex(h)?) } else { t.parse::<f64>().map_err(|e| format!("{}: {}", t, e))? };
        Ok(Const::Int(if single { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }))
    }

    fn konst(&mut self, ty: &Type) -> R<Const> {
        let c = self.peek();
        if matches!(ty, Type::Float | Type::Double) && (c == b'+' || c == b'-' || c.is_ascii_digit() || self.s[self.i..].starts_with(b"f0x")) {
            return self.float(*ty == Type::Float);
        }
        match c {
            b'-' | b'0'..=b'9' => {
                let v = self.int()?;
                let w = ty.bits().unwrap_or(128);
                Ok(Const::Int((v as u128) & crate::term::mask(w as u16)))
            }
            b'@' => {
                self.i += 1;
                let n = self.name();
                let s = self.m.lookup(&n)?;
                Ok(Const::Global(s, 0))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        if self.s[self.i + 1] == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                            continue;
                        }
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.i += 3;
                    } else {
                        v.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Ok(Const::Bytes(v))
            }
            b'[' | b'{' => self.agg_const(),
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let r = self.agg_const()?;
                    self.expect(">")?;
                    Ok(r)
                } else {
                    let r = self.list_const(">")?;
                    Ok(r)
                }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" => Ok(Const::Zero),
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "splat" => {
                        self.expect("(")?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        self.expect(")")?;
                        Ok(Const::Agg(vec![k; ty.count()]))
                    }
                    "getelementptr" => {
                        while !self.eat("(") {
                            let w = self.word();
                            if w.is_empty() {
                                return Err("gep const".into());
                            }
                            if w == "inrange" {
                                self.paren()?;
                            }
                        }
                        let t = self.ty()?;
                        self.expect(",")?;
                        let pt = self.ty()?;
                        let base = self.konst(&pt)?;
                        let mut idx = vec![];
                        while self.eat(",") {
                            let it = self.ty()?;
                            match self.konst(&it)? {
                                Const::Int(v) => idx.push(crate::term::sext(v, it.bits().unwrap() as u16) as i64),
                                Const::Zero => idx.push(0),
                                _ => return Err("gep idx".into()),
                            }
                        }
                        self.expect(")")?;
                        let mut off = 0i64;
                        let mut cur = t;
                        for (j, x) in idx.iter().enumerate() {
                            if j == 0 {
                                off += x * cur.size() as i64;
                            } else {
                                off += match &*cur {
                                    Type::Struct(..) => cur.field_offset(*x as usize) as i64,
                                    _ => x * cur.elem(0).size() as i64,
                                };
                                cur = cur.elem(*x as usize);
                            }
                        }
                        match base {
                            Const::Global(s, o) => Ok(Const::Global(s, o + off)),
                            Const::Zero => Ok(Const::Int(off as u64 as u128)),
                            Const::Int(v) => Ok(Const::Int((v as u64).wrapping_add(off as u64) as u128)),
                            _ => Err("gep base".into()),
                        }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        while !self.eat("(") {
                            if self.word().is_empty() {
                                return Err("cast const".into());
                            }
                        }
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        self.expect("to")?;
                        let _ = self.ty()?;
                        self.expect(")")?;
                        Ok(k)
                    }
                    "sub" | "add" => {
                        while !self.eat("(") {
                            if self.word().is_empty() {
                                return Err("sub const".into());
                            }
                        }
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.expect(",")?;
                        let t2 = self.ty()?;
                        let b = self.konst(&t2)?;
                        self.expect(")")?;
                        match (w.as_str(), a, b) {
                            ("sub", Const::Global(s, o), Const::Global(s2, o2)) => Ok(Const::Diff(s, o, s2, o2)),
                            ("add", Const::Global(s, o), Const::Int(k)) => Ok(Const::Global(s, o.wrapping_add(k as i64))),
                            ("sub", Const::Global(s, o), Const::Int(k)) => Ok(Const::Global(s, o.wrapping_sub(k as i64))),
                            (_, a, b) => Err(format!("const {} {:?} {:?}", w, a, b)),
                        }
                    }
                    "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                    _ => Err(format!("const? {:?} at {:?}", w, self.rest())),
                }
            }
        }
    }
    fn agg_const(&mut self) -> R<Const> {
        let c = self.peek();
        self.i += 1;
        self.list_const(if c == b'[' { "]" } else { "}" })
    }
    fn list_const(&mut self, end: &str) -> R<Const> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(Const::Agg(v));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(end) {
                break;
            }
            self.expect(",")?;
        }
        Ok(Const::Agg(v))
    }

    fn ty_opd(&mut self) -> R<(Rc<Type>, Opd)> {
        let t = self.ty()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }

    fn flags(&mut self) {
        loop {
            let w = self.peek_word();
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => {
                    self.word();
                }
                "inrange" => {
                    self.word();
                    let _ = self.paren();
                }
                _ => return,
            }
        }
    }

    fn inst(&mut self, dbg: u32) -> R<Inst> {
        let mut dst = None;
        if self.peek() == b'%' {
            self.i += 1;
            let n = self.name();
            dst = Some(self.reg(n));
            self.expect("=")?;
        }
        let d = || dst.ok_or_else(|| "no dst".to_string());
        let mut op = self.word();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = self.word();
        }
        let bin = match op.as_str() {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = bin {
            self.flags();
            let ty = self.ty()?;
            let a = self.opd(&ty)?;
            self.expect(",")?;
            let b = self.opd(&ty)?;
            return Ok(Inst::Bin { op, ty, a, b, dst: d()? });
        }
        match op.as_str() {
            "icmp" => {
                self.flags();
                let p = match self.word().as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => return Err(format!("pred {}", x)),
                };
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.expect(",")?;
                let b = self.opd(&ty)?;
                Ok(Inst::ICmp { p, ty, a, b, dst: d()? })
            }
            "fcmp" => {
                self.flags();
                let p = match self.word().as_str() {
                    "false" => 0,
                    "uno" => 1,
                    "olt" => 2,
                    "ult" => 3,
                    "oeq" => 4,
                    "ueq" => 5,
                    "ole" => 6,
                    "ule" => 7,
                    "ogt" => 8,
                    "ugt" => 9,
                    "one" => 10,
                    "une" => 11,
                    "oge" => 12,
                    "uge" => 13,
                    "ord" => 14,
                    "true" => 15,
                    x => return Err(format!("pred {}", x)),
                };
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.expect(",")?;
                let b = self.opd(&ty)?;
                Ok(Inst::FCmp { p, ty, a, b, dst: d()? })
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.ty_opd()?;
                Ok(Inst::FNeg { ty, a, dst: d()? })
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.expect(",")?;
                let b = self.opd(&ty)?;
                let o = match op.as_str() {
                    "fadd" => b'+',
                    "fsub" => b'-',
                    "fmul" => b'*',
                    "fdiv" => b'/',
                    _ => b'%',
                };
                Ok(Inst::FBin { op: o, ty, a, b, dst: d()? })
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "fpext" | "fptrunc" | "sitofp" | "uitofp" | "fptosi" | "fptoui" => {
                self.flags();
                let (from, a) = self.ty_opd()?;
                self.expect("to")?;
                let to = self.ty()?;
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "bitcast" => CastK::Bitcast,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    "sitofp" => CastK::FpConv(true, true),
                    "uitofp" => CastK::FpConv(true, false),
                    "fptosi" => CastK::FpConv(false, true),
                    "fptoui" => CastK::FpConv(false, false),
                    _ => {
                        let (f, t) = (from.bits().unwrap_or(64), to.bits().unwrap_or(64));
                        if f == t {
                            CastK::Same
                        } else if f > t {
                            CastK::Trunc
                        } else {
                            CastK::ZExt
                        }
                    }
                };
                Ok(Inst::Cast { k, from, to, a, dst: d()? })
            }
            "alloca" => {
                self.eat("inalloca");
                let t = self.ty()?;
                let mut n = None;
                let sv = self.i;
                if self.eat(",") && self.is_type_start() {
                    let (_, o) = self.ty_opd()?;
                    n = Some(o);
                } else {
                    self.i = sv;
                }
                Ok(Inst::Alloca { size: t.size(), n, dst: d()? })
            }
            "load" => {
                self.flags();
                let ty = self.ty()?;
                self.expect(",")?;
                let (_, p) = self.ty_opd()?;
                Ok(Inst::Load { ty, p, dst: d()? })
            }
            "store" => {
                self.flags();
                let (ty, v) = self.ty_opd()?;
                self.expect(",")?;
                let (_, p) = self.ty_opd()?;
                Ok(Inst::Store { ty, v, p })
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty()?;
                self.expect(",")?;
                let (pty, p) = self.ty_opd()?;
                if pty.is_agg() {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                loop {
                    let sv = self.i;
                    if !self.eat(",") {
                        break;
                    }
                    if !self.is_type_start() {
                        self.i = sv;
                        break;
                    }
                    let (it, o) = self.ty_opd()?;
                    let w = it.bits().ok_or("gep index type")?;
                    if !first {
                        if let Type::Struct(..) = &*cur {
                            let Opd::I(x) = o else { return Err("struct gep".into()) };
                            off += cur.field_offset(x as usize) as i64;
                            cur = cur.elem(x as usize);
                            continue;
                        }
                        cur = cur.elem(0);
                    }
                    first = false;
                    let sz = cur.size();
                    match o {
                        Opd::I(x) => off = off.wrapping_add((crate::term::sext(x as u128, w as u16) as i64).wrapping_mul(sz as i64)),
                        o => idx.push((o, w, sz)),
                    }
                }
                Ok(Inst::Gep { p, off, idx, dst: d()? })
            }
            "select" => {
                self.flags();
                let (cty, c) = self.ty_opd()?;
                self.expect(",")?;
                let (ty, a) = self.ty_opd()?;
                self.expect(",")?;
                let (_, b) = self.ty_opd()?;
                Ok(Inst::Select { c, cty, ty, a, b, dst: d()? })
            }
            "extractvalue" => {
                let (ty, a) = self.ty_opd()?;
                let idx = self.idx_list()?;
                Ok(Inst::ExtractValue { a, ty, idx, dst: d()? })
            }
            "insertvalue" => {
                let (ty, a) = self.ty_opd()?;
                self.expect(",")?;
                let (vty, v) = self.ty_opd()?;
                let idx = self.idx_list()?;
                Ok(Inst::InsertValue { a, ty, v, vty, idx, dst: d()? })
            }
            "extractelement" => {
                let (ty, a) = self.ty_opd()?;
                self.expect(",")?;
                let (_, i) = self.ty_opd()?;
                Ok(Inst::ExtractElem { a, ty, i, dst: d()? })
            }
            "insertelement" => {
                let (ty, a) = self.ty_opd()?;
                self.expect(",")?;
                let (_, v) = self.ty_opd()?;
                self.expect(",")?;
                let (_, i) = self.ty_opd()?;
                Ok(Inst::InsertElem { a, ty, v, i, dst: d()? })
            }
            "shufflevector" => {
                let (ty, a) = self.ty_opd()?;
                self.expect(",")?;
                let (_, b) = self.ty_opd()?;
                self.expect(",")?;
                let mt = self.ty()?;
                let k = self.konst(&mt)?;
                let mask = match k {
                    Const::Zero => vec![Some(0); mt.count()],
                    Const::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Const::Int(i) => Some(*i as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ok(Inst::Shuffle { a, b, ty, mask, dst: d()? })
            }
            "br" => {
                if self.peek_word() == "label" {
                    Ok(Inst::Br(self.label()?))
                } else {
                    let (_, c) = self.ty_opd()?;
                    self.expect(",")?;
                    let t = self.label()?;
                    self.expect(",")?;
                    let f = self.label()?;
                    Ok(Inst::CondBr { c, t, f })
                }
            }
            "switch" => {
                let (ty, v) = self.ty_opd()?;
                self.expect(",")?;
                let def = self.label()?;
                self.expect("[")?;
                let mut cases = vec![];
                while !self.eat("]") {
                    let t = self.ty()?;
                    let k = match self.konst(&t)? {
                        Const::Int(k) => k,
                        Const::Zero => 0,
                        _ => return Err("switch".into()),
                    };
                    self.expect(",")?;
                    cases.push((k, self.label()?));
                }
                Ok(Inst::Switch { w: ty.bits().unwrap(), v, def, cases })
            }
            "ret" => {
                let t = self.ty()?;
                if *t == Type::Void {
                    Ok(Inst::Ret(None))
                } else {
                    let o = self.opd(&t)?;
                    Ok(Inst::Ret(Some((t, o))))
                }
            }
            "unreachable" => Ok(Inst::Unreachable),
            "freeze" => {
                let (_, a) = self.ty_opd()?;
                Ok(Inst::Freeze { a, dst: d()? })
            }
            "fence" => Ok(Inst::Nop),
            "atomicrmw" => {
                self.flags();
                let op = self.word();
                let (_, p) = self.ty_opd()?;
                self.expect(",")?;
                let (ty, v) = self.ty_opd()?;
                Ok(Inst::AtomicRmw { op, ty, p, v, dst })
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.ty_opd()?;
                self.expect(",")?;
                let (ty, c) = self.ty_opd()?;
                self.expect(",")?;
                let (_, n) = self.ty_opd()?;
                Ok(Inst::CmpXchg { ty, p, c, n, dst })
            }
            "call" | "invoke" => {
                self.flags();
                self.skip_attrs()?;
                let ret = self.ty()?;
                let f = match self.peek() {
                    b'@' => {
                        self.i += 1;
                        let n = self.name();
                        Callee::Sym(self.m.lookup(&n)?)
                    }
                    b'%' => {
                        self.i += 1;
                        let n = self.name();
                        Callee::Ind(Opd::Reg(self.reg(n)))
                    }
                    _ if self.peek_word() == "asm" => {
                        Callee::Asm
                    }
                    _ => Callee::Ind(self.opd(&Type::Ptr)?),
                };
                if let Callee::Asm = f {
                    if op == "invoke" {
                        return Err("invoke asm".into());
                    }
                    return Ok(Inst::Call { f, args: vec![], ret, dst, normal: None, dbg });
                }
                self.expect("(")?;
                let mut args = vec![];
                if !self.eat(")") {
                    loop {
                        self.skip_attrs()?;
                        let t = self.ty()?;
                        if *t == Type::Other {
                            // metadata argument: skip balanced to , or )
                            let mut depth = 0;
                            while self.i < self.s.len() {
                                match self.s[self.i] {
                                    b'(' => depth += 1,
                                    b')' if depth == 0 => break,
                                    b')' => depth -= 1,
                                    b',' if depth == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push((t, Opd::I(0)));
                        } else {
                            // operand attributes
                            loop {
                                let c = self.peek();
                                if c == b'%' || c == b'@' || c == b'-' || c == b'+' || self.s[self.i..].starts_with(b"f0x") || c.is_ascii_digit() || c == b'<' || c == b'{' || c == b'[' {
                                    break;
                                }
                                let w = self.peek_word();
                                if matches!(
                                    w.as_str(),
                                    "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "c" | "sub" | "add" | "bitcast" | "trunc" | "dso_local_equivalent" | "none" | "ptrtoaddr"
                                ) {
                                    break;
                                }
                                if w.is_empty() {
                                    if c == b'"' {
                                        self.name();
                                        if self.eat("=") {
                                            self.ws();
                                            self.name();
                                        }
                                        continue;
                                    }
                                    return Err(format!("arg at {:?}", self.rest()));
                                }
                                self.word();
                                if self.s.get(self.i) == Some(&b'(') {
                                    self.paren()?;
                                } else if w == "align" {
                                    self.int()?;
                                }
                            }
                            let o = self.opd(&t)?;
                            args.push((t, o));
                        }
                        if self.eat(")") {
                            break;
                        }
                        self.expect(",")?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    // find "to label"
                    let rest = &self.s[self.i..];
                    let pos = find(rest, b"to label ").ok_or("invoke")?;
                    self.i += pos + 3;
                    normal = Some(self.label()?);
                    // unwind label is registered so that block numbering is complete
                    if self.eat("unwind") {
                        self.label()?;
                    }
                }
                Ok(Inst::Call { f, args, ret, dst, normal, dbg })
            }
            _ => Err(format!("instruction {}", op)),
        }
    }
    fn idx_list(&mut self) -> R<Vec<u32>> {
        let mut v = vec![];
        loop {
            let sv = self.i;
            if self.eat(",") {
                if self.peek().is_ascii_digit() {
                    v.push(self.int()? as u32);
                    continue;
                }
                self.i = sv;
            }
            return Ok(v);
        }
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut m = Module { text: String::new(), syms: vec![], byname: HashMap::new(), types: HashMap::new(), meta: HashMap::new(), funcs: RefCell::new(HashMap::new()) };
        let b = text.as_bytes();
        // pass 1: named types
        for l in text.lines() {
            if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let n = l[1..p].trim_matches('"').to_string();
                    let body = &l[p + 8..];
                    let mut ps = P::new(&m, body.as_bytes());
                    let t = ps.ty()?;
                    m.types.insert(n, t);
                }
            }
        }
        let mut i = 0;
        let mut globals: Vec<(String, usize, usize)> = vec![];
        while i < b.len() {
            let e = memchr(b, i, b'\n');
            match b[i] {
                b'@' => {
                    let eq = i + find(&b[i..e], b" = ").ok_or("global")?;
                    let n = text[i + 1..eq].trim_matches('"').to_string();
                    globals.push((n, eq + 3, e));
                }
                b'd' if text[i..].starts_with("define ") || text[i..].starts_with("declare ") => {
                    let is_def = b[i + 2] == b'f';
                    // the name is the first @ token on the line that is followed by '('
                    let line = &text[i..e];
                    let at = line.find('@').ok_or("define")?;
                    let mut ps = P::new(&m, line.as_bytes());
                    ps.i = at + 1;
                    let n = ps.name();
                    let mut end = e;
                    if is_def {
                        // find "\n}\n"
                        let p = find_from(b, e, b"\n}").ok_or("unterminated function")?;
                        end = p + 2;
                    }
                    let id = m.syms.len() as u32;
                    m.byname.insert(n.clone(), id);
                    m.syms.push(Sym { name: n, kind: if is_def { SymKind::Func { start: i, end } } else { SymKind::Decl } });
                    if is_def {
                        i = end;
                        continue;
                    }
                }
                b'!' if i + 1 < e && b[i + 1].is_ascii_digit() => {
                    let mut j = i + 1;
                    let mut v = 0u32;
                    while b[j].is_ascii_digit() {
                        v = v * 10 + (b[j] - b'0') as u32;
                        j += 1;
                    }
                    m.meta.insert(v, (j + 3, e));
                }
                _ => {}
            }
            i = e + 1;
        }
        for (n, s, e) in globals {
            let line = &text[s..e];
            let kind = if line.contains(" alias ") || line.starts_with("alias ") {
                let at = line.rfind('@').ok_or("alias")?;
                let mut ps = P::new(&m, line.as_bytes());
                ps.i = at + 1;
                SymKind::Alias(ps.name())
            } else {
                let mut ps = P::new(&m, line.as_bytes());
                let mut ext = false;
                let mut constant = false;
                loop {
                    let w = ps.word();
                    match w.as_str() {
                        "external" | "extern_weak" => ext = true,
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "" => return Err(format!("global {}: {}", n, ps.rest())),
                        _ => {
                            if ps.s.get(ps.i) == Some(&b'(') {
                                ps.paren()?;
                            }
                        }
                    }
                }
                let ty = ps.ty()?;
                let st = s + ps.i;
                SymKind::Global { ty, init: if ext { None } else { Some((st, e)) }, constant }
            };
            let id = m.syms.len() as u32;
            m.byname.insert(n.clone(), id);
            m.syms.push(Sym { name: n, kind });
        }
        m.text = text;
        Ok(m)
    }

    pub fn lookup(&self, n: &str) -> R<u32> {
        let id = *self.byname.get(n).ok_or_else(|| format!("symbol {}", n))?;
        if let SymKind::Alias(t) = &self.syms[id as usize].kind {
            return self.lookup(t);
        }
        Ok(id)
    }

    pub fn global_init(&self, id: u32) -> R<Option<Const>> {
        match &self.syms[id as usize].kind {
            SymKind::Global { ty, init: Some((s, e)), .. } => {
                let mut p = P::new(self, &self.text.as_bytes()[*s..*e]);
                Ok(Some(p.konst(ty)?))
            }
            _ => Ok(None),
        }
    }

    pub fn func(&self, id: u32) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(&id) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(id)?);
        self.funcs.borrow_mut().insert(id, f.clone());
        Ok(f)
    }

    fn parse_func(&self, id: u32) -> R<Func> {
        let (start, end) = match self.syms[id as usize].kind {
            SymKind::Func { start, end } => (start, end),
            _ => return Err(format!("{} is not defined", self.syms[id as usize].name)),
        };
        let name = self.syms[id as usize].name.clone();
        let body = &self.text[start..end];
        let mut lines = body.lines();
        let head = lines.next().unwrap();
        let mut p = P::new(self, head.as_bytes());
        let sub = dbg_id(head);
        p.i = head.find('@').unwrap() + 1;
        p.name();
        p.expect("(")?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat(")") {
            loop {
                if p.eat("...") {
                    p.expect(")")?;
                    break;
                }
                p.skip_attrs()?;
                let _t = p.ty()?;
                // attributes until %name or , or )
                loop {
                    let c = p.peek();
                    if c == b'%' {
                        p.i += 1;
                        let n = p.name();
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        let r = p.reg(n);
                        params.push(r);
                        break;
                    }
                    if c == b',' || c == b')' {
                        let r = p.reg(format!("{}", unnamed));
                        unnamed += 1;
                        params.push(r);
                        break;
                    }
                    if c == b'"' {
                        p.name();
                        if p.eat("=") {
                            p.ws();
                            p.name();
                        }
                        continue;
                    }
                    let w = p.word();
                    if w.is_empty() {
                        return Err(format!("param at {:?}", p.rest()));
                    }
                    if p.s.get(p.i) == Some(&b'(') {
                        p.paren()?;
                    } else if w == "align" {
                        p.int()?;
                    }
                }
                if p.eat(")") {
                    break;
                }
                p.expect(",")?;
            }
        }
        let P { regs, nregs, .. } = p;
        // gather logical lines
        let mut blocks_txt: Vec<(String, Vec<(String, u32)>)> = vec![];
        let mut cur: Option<(String, Vec<(String, u32)>)> = None;
        let mut pending: Option<String> = None;
        for l in lines {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            if l == "}" {
                break;
            }
            if let Some(pl) = pending.as_mut() {
                pl.push(' ');
                pl.push_str(t);
                let done = if pl.trim_start().starts_with("switch") { t.starts_with(']') } else { true };
                if done {
                    let x = pending.take().unwrap();
                    let d = dbg_id(&x);
                    cur.as_mut().unwrap().1.push((x, d));
                }
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let c = label_end(t);
                let n = t[..c].trim_matches('"').to_string();
                if let Some(c) = cur.take() {
                    blocks_txt.push(c);
                }
                cur = Some((n, vec![]));
                continue;
            }
            if cur.is_none() {
                cur = Some((format!("{}", unnamed), vec![]));
            }
            if t.starts_with("switch") && !t.contains(']') {
                pending = Some(t.to_string());
                continue;
            }
            let after_eq = match t.find(" = ") {
                Some(p) if t.starts_with('%') => &t[p + 3..],
                _ => t,
            };
            if after_eq.starts_with("invoke ") || (after_eq.starts_with("landingpad")) {
                if after_eq.starts_with("landingpad") {
                    cur.as_mut().unwrap().1.push((t.to_string(), 0));
                    continue;
                }
                pending = Some(t.to_string());
                continue;
            }
            if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                continue;
            }
            let d = dbg_id(t);
            cur.as_mut().unwrap().1.push((t.to_string(), d));
        }
        if let Some(c) = cur.take() {
            blocks_txt.push(c);
        }
        let mut blocks_map = HashMap::new();
        for (i, (n, _)) in blocks_txt.iter().enumerate() {
            blocks_map.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        let nb = blocks_map.len();
        let mut st = (regs, nregs, blocks_map);
        for (_, ls) in &blocks_txt {
            let mut blk = Block::default();
            for (l, d) in ls {
                let mut p = P { m: self, s: l.as_bytes(), i: 0, regs: st.0, nregs: st.1, blocks: st.2 };
                let is_phi = l.starts_with('%') && l.contains(" = phi ");
                if is_phi {
                    let r = (|| -> R<()> {
                        p.expect("%")?;
                        let n = p.name();
                        let dst = p.reg(n);
                        p.expect("=")?;
                        p.expect("phi")?;
                        p.flags();
                        let ty = p.ty()?;
                        let mut inc = vec![];
                        loop {
                            p.expect("[")?;
                            let o = p.opd(&ty)?;
                            p.expect(",")?;
                            p.expect("%")?;
                            let b = p.name();
                            let b = p.block(b);
                            p.expect("]")?;
                            inc.push((b, o));
                            if !p.eat(",") || p.peek() != b'[' {
                                break;
                            }
                        }
                        blk.phis.push((dst, ty, inc));
                        Ok(())
                    })();
                    r.map_err(|e| format!("{}: {} in {:?}", name, e, l))?;
                } else {
                    let ins = match p.inst(*d) {
                        Ok(i) => i,
                        Err(e) => Inst::Unsupported(format!("{} in {}: {}", e, name, &l[..l.len().min(200)])),
                    };
                    blk.insts.push((ins, *d));
                }
                st = (p.regs, p.nregs, p.blocks);
            }
            blocks.push(blk);
        }
        if st.2.len() != nb {
            return Err(format!("{}: undefined blocks", name));
        }
        Ok(Func { name, params, blocks, nregs: st.1, sub })
    }

    // ---- debug info ---------------------------------------------------------------------------
    fn meta_text(&self, id: u32) -> &str {
        match self.meta.get(&id) {
            Some((s, e)) => &self.text[*s..*e],
            None => "",
        }
    }
    fn field<'b>(t: &'b str, k: &str) -> Option<&'b str> {
        let mut from = 0;
        while let Some(p) = t[from..].find(k) {
            let p = from + p;
            let before = t.as_bytes().get(p.wrapping_sub(1)).copied().unwrap_or(b'(');
            if (before == b' ' || before == b'(') && t[p + k.len()..].starts_with(": ") {
                let r = &t[p + k.len() + 2..];
                if let Some(q) = r.strip_prefix('"') {
                    return Some(&q[..q.find('"')?]);
                }
                let e = r.find([',', ')']).unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = p + k.len();
        }
        None
    }
    fn field_ref(t: &str, k: &str) -> Option<u32> {
        Self::field(t, k)?.strip_prefix('!')?.parse().ok()
    }
    /// (function name, file, line) of every frame of an inlined location
    pub fn loc_frames(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut cur = Some(dbg);
        let mut guard = 0;
        while let Some(d) = cur {
            let t = self.meta_text(d);
            let line = Self::field(t, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut scope = Self::field_ref(t, "scope");
            let mut fname = String::new();
            let mut file = String::new();
            while let Some(s) = scope {
                let st = self.meta_text(s);
                if let Some(f) = Self::field_ref(st, "file") {
                    if file.is_empty() {
                        let ft = self.meta_text(f);
                        let n = Self::field(ft, "filename").unwrap_or("");
                        let d = Self::field(ft, "directory").unwrap_or("");
                        file = if n.starts_with('/') || d.is_empty() { n.to_string() } else { format!("{}/{}", d, n) };
                    }
                }
                if st.contains("DISubprogram(") {
                    fname = Self::field(st, "linkageName").or(Self::field(st, "name")).unwrap_or("").to_string();
                    break;
                }
                scope = Self::field_ref(st, "scope");
                guard += 1;
                if guard > 1000 {
                    break;
                }
            }
            out.push((fname, file, line));
            cur = Self::field_ref(t, "inlinedAt");
            guard += 1;
            if guard > 1000 {
                break;
            }
        }
        out
    }
}

fn label_end(t: &str) -> usize {
    if let Some(r) = t.strip_prefix('"') {
        return r.find('"').map(|x| x + 2).unwrap_or(t.len());
    }
    t.find(':').unwrap_or(t.len())
}

fn dbg_id(l: &str) -> u32 {
    match l.rfind("!dbg !") {
        Some(p) => {
            let r = &l[p + 6..];
            let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            r[..e].parse().unwrap_or(0)
        }
        None => 0,
    }
}

fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
fn find_from(b: &[u8], from: usize, n: &[u8]) -> Option<usize> {
    let mut i = from;
    while i + n.len() <= b.len() {
        if b[i] == n[0] && &b[i..i + n.len()] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
