//! Hash-consed bit-vector terms over 8-bit symbolic variables.
//!
//! Every term is a total function of the variables it mentions (division by zero etc. have the SMT-LIB
//! meaning), so evaluating a term under an assignment is always defined.  Terms that depend on a single
//! 8-bit variable are kept in an exact normal form (`Table`, the function's 256 values) once they are boolean
//! or have grown beyond a few nodes: SipHash over one marker byte, lookup tables and chains of comparisons all
//! collapse to it.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Table, // a = var term, b = table id
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat, // a = hi, b = lo
    Extract, // a, b = low bit
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub const MAXVARS: usize = 512;
pub type VarSet = [u64; MAXVARS / 64];

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Info {
    pub size: u32,
    /// index into varsets
    pub vs: u32,
    /// Some(v) when exactly one variable
    pub single: u32, // u32::MAX = none or many
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, T>,
    pub varsets: Vec<VarSet>,
    vsmap: HashMap<VarSet, u32>,
    vscache: HashMap<(u32, u32), u32>,
    pub tables: Vec<Rc<[u64; 256]>>,
    tabmap: HashMap<Rc<[u64; 256]>, u32>,
    // evaluation memo
    ev: Vec<u128>,
    ev_epoch: Vec<u64>,
    epoch: u64,
    ev_model: u64,
    pub vars: Vec<T>,
}

const TAB_SIZE: u32 = 24;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            info: vec![],
            map: HashMap::new(),
            varsets: vec![[0; MAXVARS / 64]],
            vsmap: HashMap::new(),
            vscache: HashMap::new(),
            tables: vec![],
            tabmap: HashMap::new(),
            ev: vec![],
            ev_epoch: vec![],
            epoch: 1,
            ev_model: 0,
            vars: vec![],
        };
        a.vsmap.insert([0; MAXVARS / 64], 0);
        // term 0 is reserved ("no term"); make it a constant
        a.konst(0, 8);
        a
    }

    pub fn konst(&mut self, v: u128, w: u16) -> T {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> T {
        assert!(i < MAXVARS, "too many symbolic bytes");
        while self.vars.len() <= i {
            let n = self.vars.len();
            let t = self.intern(Node { op: Op::Var, w: 8, a: n as u32, b: 0, c: 0, k: 0 });
            self.vars.push(t);
        }
        self.vars[i]
    }

    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn varset(&self, t: T) -> &VarSet {
        &self.varsets[self.info[t as usize].vs as usize]
    }

    fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vscache.get(&k) {
            return r;
        }
        let mut s = self.varsets[a as usize];
        for (x, y) in s.iter_mut().zip(self.varsets[b as usize].iter()) {
            *x |= *y;
        }
        let r = self.vs_intern(s);
        self.vscache.insert(k, r);
        r
    }
    fn vs_intern(&mut self, s: VarSet) -> u32 {
        if let Some(&r) = self.vsmap.get(&s) {
            return r;
        }
        let r = self.varsets.len() as u32;
        self.varsets.push(s);
        self.vsmap.insert(s, r);
        r
    }

    fn intern(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let (size, vs) = match n.op {
            Op::Const => (1, 0),
            Op::Var => {
                let mut s = [0; MAXVARS / 64];
                s[n.a as usize / 64] |= 1 << (n.a % 64);
                (1, self.vs_intern(s))
            }
            Op::Table | Op::Extract | Op::ZExt | Op::SExt => {
                let i = self.info[n.a as usize];
                (i.size.saturating_add(1), i.vs)
            }
            Op::Ite => {
                let (i, j, k) = (self.info[n.a as usize], self.info[n.b as usize], self.info[n.c as usize]);
                let v = self.vs_union(i.vs, j.vs);
                (i.size.saturating_add(j.size).saturating_add(k.size).saturating_add(1), self.vs_union(v, k.vs))
            }
            _ => {
                let (i, j) = (self.info[n.a as usize], self.info[n.b as usize]);
                (i.size.saturating_add(j.size).saturating_add(1), self.vs_union(i.vs, j.vs))
            }
        };
        let single = {
            let s = &self.varsets[vs as usize];
            let cnt: u32 = s.iter().map(|x| x.count_ones()).sum();
            if cnt == 1 {
                let (i, x) = s.iter().enumerate().find(|(_, x)| **x != 0).unwrap();
                (i * 64) as u32 + x.trailing_zeros()
            } else {
                u32::MAX
            }
        };
        // normal form for unary terms
        if single != u32::MAX && n.op != Op::Table && n.op != Op::Var && n.w <= 64 && (n.w == 1 || size > TAB_SIZE) {
            let mut tab = [0u64; 256];
            for b in 0..256usize {
                tab[b] = self.eval_node1(&n, b as u8) as u64;
            }
            let t = self.table(single as usize, tab, n.w);
            self.map.insert(n, t);
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        let size = if n.op == Op::Table { 3 } else { size };
        self.info.push(Info { size, vs, single });
        self.map.insert(n, t);
        t
    }

    pub fn table(&mut self, var: usize, tab: [u64; 256], w: u16) -> T {
        if tab.iter().all(|x| *x == tab[0]) {
            return self.konst(tab[0] as u128, w);
        }
        if w == 8 && tab.iter().enumerate().all(|(i, x)| *x == i as u64) {
            return self.var(var);
        }
        if w > 8 && tab.iter().enumerate().all(|(i, x)| *x == i as u64) {
            let v = self.var(var);
            return self.intern(Node { op: Op::ZExt, w, a: v, b: 0, c: 0, k: 0 });
        }
        let id = match self.tabmap.get(&tab) {
            Some(&i) => i,
            None => {
                let r = Rc::new(tab);
                let i = self.tables.len() as u32;
                self.tables.push(r.clone());
                self.tabmap.insert(r, i);
                i
            }
        };
        let v = self.var(var);
        self.intern(Node { op: Op::Table, w, a: v, b: id, c: 0, k: 0 })
    }

    /// evaluate a unary node for one byte value of its variable (children are small or tables)
    fn eval_node1(&self, n: &Node, b: u8) -> u128 {
        let ev = |t: T| -> u128 { self.eval1(t, b) };
        self.apply(n, &ev)
    }
    pub fn eval1(&self, t: T, b: u8) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => n.k,
            Op::Var => b as u128,
            Op::Table => self.tables[n.b as usize][b as usize] as u128,
            _ => self.eval_node1(n, b),
        }
    }

    fn apply(&self, n: &Node, ev: &dyn Fn(T) -> u128) -> u128 {
        let m = mask(n.w);
        match n.op {
            Op::Const => n.k,
            Op::Var => unreachable!(),
            Op::Table => self.tables[n.b as usize][ev(n.a) as usize] as u128,
            Op::Extract => (ev(n.a) >> n.b) & m,
            Op::ZExt => ev(n.a),
            Op::SExt => (sext(ev(n.a), self.w(n.a)) as u128) & m,
            Op::Ite => {
                if ev(n.a) != 0 {
                    ev(n.b)
                } else {
                    ev(n.c)
                }
            }
            Op::Concat => (ev(n.a) << self.w(n.b)) | ev(n.b),
            _ => fold(n.op, ev(n.a), ev(n.b), self.w(n.a)) & m,
        }
    }

    /// Evaluate under a full assignment. `model_id` identifies the assignment for memoisation.
    pub fn eval(&mut self, t: T, model: &[u8], model_id: u64) -> u128 {
        if self.ev_model != model_id {
            self.ev_model = model_id;
            self.epoch += 1;
        }
        if self.ev.len() < self.nodes.len() {
            self.ev.resize(self.nodes.len(), 0);
            self.ev_epoch.resize(self.nodes.len(), 0);
        }
        self.eval_rec(t, model)
    }
    fn eval_rec(&mut self, t: T, model: &[u8]) -> u128 {
        if self.ev_epoch[t as usize] == self.epoch {
            return self.ev[t as usize];
        }
        let n = self.nodes[t as usize];
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => *model.get(n.a as usize).unwrap_or(&0) as u128,
            Op::Table => {
                let i = self.eval_rec(n.a, model);
                self.tables[n.b as usize][i as usize] as u128
            }
            Op::Extract => (self.eval_rec(n.a, model) >> n.b) & mask(n.w),
            Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let w = self.w(n.a);
                (sext(self.eval_rec(n.a, model), w) as u128) & mask(n.w)
            }
            Op::Ite => {
                if self.eval_rec(n.a, model) != 0 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Concat => {
                let w = self.w(n.b);
                (self.eval_rec(n.a, model) << w) | self.eval_rec(n.b, model)
            }
            _ => {
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                fold(n.op, x, y, self.w(n.a)) & mask(n.w)
            }
        };
        self.ev[t as usize] = r;
        self.ev_epoch[t as usize] = self.epoch;
        r
    }

    // ---- constructors -------------------------------------------------------------------------
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.cmp(Op::Eq, a, b)
    }

    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(fold(op, x, y, w), w);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if commut && (self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let cb = self.as_const(b);
        let m = mask(w);
        match op {
            Op::Add | Op::Or | Op::Xor | Op::Sub | Op::Shl | Op::LShr | Op::AShr if cb == Some(0) => return a,
            Op::And if cb == Some(0) => return b,
            Op::And if cb == Some(m) => return a,
            Op::Or if cb == Some(m) => return b,
            Op::Mul if cb == Some(0) => return b,
            Op::Mul | Op::UDiv if cb == Some(1) => return a,
            Op::URem if cb == Some(1) => return self.konst(0, w),
            _ => {}
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.konst(0, w),
                _ => {}
            }
        }
        if let Some(k) = cb {
            if op == Op::Sub {
                let nk = self.konst(k.wrapping_neg(), w);
                return self.bin(Op::Add, a, nk);
            }
            // (x op c1) op c2
            let na = self.nodes[a as usize];
            if na.op == op && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor) {
                if let Some(k1) = self.as_const(na.b) {
                    let nk = self.konst(fold(op, k1, k, w), w);
                    return self.bin(op, na.a, nk);
                }
            }
            if matches!(op, Op::Shl | Op::LShr | Op::AShr) {
                if k >= w as u128 {
                    if op != Op::AShr {
                        return self.konst(0, w);
                    }
                } else {
                    let k = k as u16;
                    // shifts by constants as concat/extract
                    if op == Op::Shl {
                        let lo = self.extract(a, 0, w - k);
                        let z = self.konst(0, k);
                        return self.concat(lo, z);
                    }
                    if op == Op::LShr {
                        let hi = self.extract(a, k, w - k);
                        return self.zext(hi, w);
                    }
                }
            }
            if matches!(op, Op::UDiv | Op::URem) && k.is_power_of_two() {
                let s = k.trailing_zeros() as u16;
                if op == Op::UDiv {
                    let kk = self.konst(s as u128, w);
                    return self.bin(Op::LShr, a, kk);
                }
                let lo = self.extract(a, 0, s);
                return self.zext(lo, w);
            }
            if op == Op::Mul && k.is_power_of_two() {
                let kk = self.konst(k.trailing_zeros() as u128, w);
                return self.bin(Op::Shl, a, kk);
            }
            if op == Op::And {
                // low mask 2^s-1 -> zext(extract)
                let low = k.trailing_ones() as u16;
                if low < w && k == mask(low) {
                    let lo = self.extract(a, 0, low);
                    return self.zext(lo, w);
                }
                // clear low bits
                let tz = k.trailing_zeros() as u16;
                if tz > 0 && (k >> tz) == mask(w - tz) {
                    let hi = self.extract(a, tz, w - tz);
                    let z = self.konst(0, tz);
                    return self.concat(hi, z);
                }
                // contiguous field
                let len = (k >> tz).trailing_ones() as u16;
                if k == mask(len) << tz {
                    let f = self.extract(a, tz, len);
                    let z = self.konst(0, tz);
                    let c = self.concat(f, z);
                    return self.zext(c, w);
                }
            }
        }
        if op == Op::Or || op == Op::Xor || op == Op::Add {
            // disjoint pieces: zext(lo) | concat(hi, 0)
            if let Some(t) = self.try_disjoint(a, b, w) {
                return t;
            }
        }
        if w == 1 {
            // keep booleans in and/or/xor form
            match op {
                Op::Add | Op::Sub => return self.bin(Op::Xor, a, b),
                Op::Mul => return self.bin(Op::And, a, b),
                _ => {}
            }
            if op == Op::Xor && cb == Some(1) {
                let na = self.nodes[a as usize];
                if na.op == Op::Xor && self.as_const(na.b) == Some(1) {
                    return na.a;
                }
            }
        }
        // x op ite(c, k1, k2) is left alone; unary normal form takes care of most
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }

    /// number of known-zero low bits / high bits
    fn zeros(&self, t: T) -> (u16, u16) {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => {
                let lo = (n.k.trailing_zeros() as u16).min(n.w);
                let hi = (n.k.leading_zeros() as u16).saturating_sub(128 - n.w).min(n.w);
                (lo, hi)
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                let (lo, hi) = self.zeros(n.a);
                (lo, hi + (n.w - iw))
            }
            Op::Concat => {
                let (lo1, hi1) = self.zeros(n.a);
                let (lo2, hi2) = self.zeros(n.b);
                let (wa, wb) = (self.w(n.a), self.w(n.b));
                (if lo2 == wb { wb + lo1 } else { lo2 }, if hi1 == wa { wa + hi2 } else { hi1 })
            }
            Op::And => {
                let (l1, h1) = self.zeros(n.a);
                let (l2, h2) = self.zeros(n.b);
                (l1.max(l2), h1.max(h2))
            }
            Op::Or | Op::Xor => {
                let (l1, h1) = self.zeros(n.a);
                let (l2, h2) = self.zeros(n.b);
                (l1.min(l2), h1.min(h2))
            }
            _ => (0, 0),
        }
    }

    /// bits known to be set
    fn ones(&self, t: T, fuel: &mut u32) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => n.k,
            Op::Or if *fuel > 0 => {
                *fuel -= 1;
                self.ones(n.a, fuel) | self.ones(n.b, fuel)
            }
            Op::ZExt => self.ones(n.a, fuel),
            Op::Concat => (self.ones(n.a, fuel) << self.w(n.b)) | self.ones(n.b, fuel),
            Op::Table => self.tables[n.b as usize].iter().fold(u64::MAX, |x, y| x & y) as u128 & mask(n.w),
            _ => 0,
        }
    }

    fn try_disjoint(&mut self, a: T, b: T, w: u16) -> Option<T> {
        let (la, ha) = self.zeros(a);
        let (lb, hb) = self.zeros(b);
        let (lo, hi, cut) = if ha >= w - lb && lb > 0 {
            (a, b, lb)
        } else if hb >= w - la && la > 0 {
            (b, a, la)
        } else {
            return None;
        };
        if cut >= w {
            return None;
        }
        let l = self.extract(lo, 0, cut);
        let h = self.extract(hi, cut, w - cut);
        Some(self.concat(h, l))
    }

    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if wh == 0 {
            return lo;
        }
        if wl == 0 {
            return hi;
        }
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst((x << wl) | y, w);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl as u32 {
            return self.extract(nl.a, nl.b as u16, w);
        }
        // lo is a whole term, hi an extract of it is impossible; handle right-nested concats:
        // concat(hi, concat(a, b)) with hi,a adjacent extracts
        if nl.op == Op::Concat {
            let na = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.b == na.b + na.w as u32 {
                let m = self.extract(na.a, na.b as u16, wh + na.w);
                return self.concat(m, nl.b);
            }
            if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(nl.a)) {
                let k = self.konst((x << na.w) | y, wh + na.w);
                return self.concat(k, nl.b);
            }
        }
        // left nested -> right nested
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt {
            // concat(zext(x), lo) = zext(concat(x, lo))
            let r = self.concat(nh.a, lo);
            return self.zext(r, w);
        }
        // same single variable tables merge through the unary normal form in intern()
        self.intern(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn extract(&mut self, a: T, low: u16, w: u16) -> T {
        let n = self.nodes[a as usize];
        debug_assert!(low + w <= n.w, "extract {} {} of {}", low, w, n.w);
        if w == 0 {
            return self.konst(0, 0);
        }
        if low == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k >> low, w),
            Op::Extract => return self.extract(n.a, n.b as u16 + low, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if low >= wl {
                    return self.extract(n.a, low - wl, w);
                }
                if low + w <= wl {
                    return self.extract(n.b, low, w);
                }
                let l = self.extract(n.b, low, wl - low);
                let h = self.extract(n.a, 0, w - (wl - low));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if low >= iw {
                    return self.konst(0, w);
                }
                if low + w <= iw {
                    return self.extract(n.a, low, w);
                }
                let l = self.extract(n.a, low, iw - low);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if low + w <= iw {
                    return self.extract(n.a, low, w);
                }
                if low < iw {
                    let l = self.extract(n.a, low, iw - low);
                    return self.sext(l, w);
                }
            }
            Op::Table => {
                let tab = self.tables[n.b as usize].clone();
                let v = self.nodes[n.a as usize].a as usize;
                let mut r = [0u64; 256];
                for i in 0..256 {
                    r[i] = (tab[i] >> low) & mask(w) as u64;
                }
                return self.table(v, r, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, low, w);
                let y = self.extract(n.b, low, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() || w >= 8 {
                    let x = self.extract(n.b, low, w);
                    let y = self.extract(n.c, low, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if low == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: low as u32, c: 0, k: 0 })
    }

    pub fn zext(&mut self, a: T, w: u16) -> T {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => return self.konst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Table if w <= 64 => {
                let tab = *self.tables[n.b as usize];
                let v = self.nodes[n.a as usize].a as usize;
                return self.table(v, tab, w);
            }
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: T, w: u16) -> T {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(sext(n.k, n.w) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Table if w <= 64 => {
                let tab = *self.tables[n.b as usize];
                let v = self.nodes[n.a as usize].a as usize;
                let mut r = [0u64; 256];
                for i in 0..256 {
                    r[i] = (sext(tab[i] as u128, n.w) as u128 & mask(w)) as u64;
                }
                return self.table(v, r, w);
            }
            _ => {}
        }
        if n.w == 1 {
            let x = self.konst(mask(w), w);
            let y = self.konst(0, w);
            return self.ite(a, x, y);
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && nc.w == 1 && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn cmp(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst(fold(op, x, y, w), 1);
        }
        if a == b {
            return self.konst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
        }
        if op == Op::Eq && (self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        if op == Op::Eq && w == 1 {
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if let Some(k) = self.as_const(b) {
            match (op, na.op) {
                (Op::Eq, Op::ZExt) => {
                    let iw = self.w(na.a);
                    if k > mask(iw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.eq(na.a, kk);
                }
                (Op::Eq, Op::Or) if self.ones(a, &mut 2000) & !k != 0 => return self.konst(0, 1),
                (Op::Eq, Op::Concat) => {
                    let (wa, wb) = (self.w(na.a), self.w(na.b));
                    let kh = self.konst(k >> wb, wa);
                    let kl = self.konst(k, wb);
                    let h = self.eq(na.a, kh);
                    if self.as_const(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(na.b, kl);
                    return self.and(h, l);
                }
                (Op::Eq, Op::Ite) => {
                    let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                (Op::Eq, Op::Add) | (Op::Eq, Op::Xor) => {
                    if let Some(k1) = self.as_const(na.b) {
                        let kk = if na.op == Op::Add { k.wrapping_sub(k1) } else { k ^ k1 };
                        let kk = self.konst(kk, w);
                        return self.eq(na.a, kk);
                    }
                }
                (Op::Ult | Op::Ule, Op::ZExt) => {
                    let iw = self.w(na.a);
                    if k > mask(iw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.cmp(op, na.a, kk);
                }
                (Op::Slt | Op::Sle, Op::ZExt) => {
                    // a is non-negative
                    if sext(k, w) < 0 {
                        return self.konst(0, 1);
                    }
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                _ => {}
            }
            match op {
                Op::Ult if k == 0 => return self.konst(0, 1),
                Op::Ult if k == 1 => {
                    let z = self.konst(0, w);
                    return self.eq(a, z);
                }
                Op::Ule if k == mask(w) => return self.konst(1, 1),
                Op::Ule if k == 0 => return self.eq(a, b),
                Op::Ule => {
                    let kk = self.konst(k + 1, w);
                    return self.cmp(Op::Ult, a, kk);
                }
                Op::Ult if na.op == Op::Concat => {
                    // a < 2^s * m  <=> hi < m when low part zero in the constant
                    let wl = self.w(na.b);
                    if k & mask(wl) == 0 {
                        let kk = self.konst(k >> wl, w - wl);
                        return self.cmp(Op::Ult, na.a, kk);
                    }
                }
                _ => {}
            }
        }
        if let Some(k) = self.as_const(a) {
            match (op, nb.op) {
                (Op::Ult | Op::Ule, Op::ZExt) => {
                    let iw = self.w(nb.a);
                    if k > mask(iw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.cmp(op, kk, nb.a);
                }
                (Op::Slt | Op::Sle, Op::ZExt) => {
                    if sext(k, w) < 0 {
                        return self.konst(1, 1);
                    }
                    return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                _ => {}
            }
            match op {
                // k < b  <=> !(b <= k) <=> !(b < k+1)
                Op::Ult => {
                    let x = self.cmp(Op::Ule, b, a);
                    return self.not(x);
                }
                Op::Ule => {
                    let x = self.cmp(Op::Ult, b, a);
                    return self.not(x);
                }
                _ => {}
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let o = match op {
                Op::Slt => Op::Ult,
                Op::Sle => Op::Ule,
                o => o,
            };
            return self.cmp(o, na.a, nb.a);
        }
        if op == Op::Eq && na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.eq(na.a, nb.a);
            let l = self.eq(na.b, nb.b);
            return self.and(h, l);
        }
        self.intern(Node { op, w: 1, a, b, c: 0, k: 0 })
    }

    /// Human readable rendering (for diagnostics).
    pub fn show(&self, t: T, depth: usize) -> String {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("b{}", n.a),
            Op::Table => {
                let tab = &self.tables[n.b as usize];
                if n.w == 1 {
                    let mut s = String::new();
                    let mut i = 0;
                    while i < 256 {
                        if tab[i] != 0 {
                            let st = i;
                            while i < 256 && tab[i] != 0 {
                                i += 1;
                            }
                            s += &format!("{}{:x}-{:x}", if s.is_empty() { "" } else { "," }, st, i - 1);
                        } else {
                            i += 1;
                        }
                    }
                    format!("(b{} in {{{}}})", self.nodes[n.a as usize].a, s)
                } else {
                    format!("tab{}[b{}]", n.b, self.nodes[n.a as usize].a)
                }
            }
            _ if depth == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub fn fold(op: Op, x: u128, y: u128, w: u16) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            (sext(x, w) >> s) as u128
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    }) & m
}
