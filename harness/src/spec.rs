//! Reference decoder: the binary grammar of WebAssembly 3.0 over a byte slice, written
//! independently of the decoder under test. It yields the same tokens as `ser`.
use crate::ops::{K, shape};
use crate::ser::*;
use crate::tok::*;

pub struct Spec<'a> {
    b: &'a [u8],
    pub pos: u64,
    sec_end: u64,
    code_end: u64,
    ctx: Out,
    /// Some(tokens) once decoding has failed
    pub err: Option<Out>,
    data_index_seen: bool,
    code_data_index: bool,
    pub types: Out,
    pub imports: Out,
    pub funcs: Out,
    pub nfuncs: u64,
    pub tables: Out,
    pub mems: Out,
    pub tags: Out,
    pub globals: Out,
    pub exports: Out,
    pub start: Option<u64>,
    pub elems: Out,
    pub data_count: Option<u64>,
    pub ndatas: u64,
    pub datas: Out,
    pub locals: Out,
    pub bodies: Out,
    pub headers: Out,
    pub kinds: Out,
    pub customs: Out,
    /// positions at which a section may end: after the preamble and after each section
    pub boundaries: Vec<u64>,
}
type R<T> = Result<T, ()>;
const FAR: u64 = 1 << 40;

fn rank(id: u8) -> u64 {
    match id {
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4,
        5 => 5,
        13 => 6,
        6 => 7,
        7 => 8,
        8 => 9,
        9 => 10,
        12 => 11,
        10 => 12,
        _ => 13,
    }
}

impl<'a> Spec<'a> {
    pub fn new(b: &'a [u8]) -> Spec<'a> {
        Spec {
            b,
            pos: 0,
            sec_end: FAR,
            code_end: FAR,
            ctx: vec![],
            err: None,
            data_index_seen: false,
            code_data_index: false,
            types: vec![],
            imports: vec![],
            funcs: vec![],
            nfuncs: 0,
            tables: vec![],
            mems: vec![],
            tags: vec![],
            globals: vec![],
            exports: vec![],
            start: None,
            elems: vec![],
            data_count: None,
            ndatas: 0,
            datas: vec![],
            locals: vec![],
            bodies: vec![],
            headers: vec![],
            kinds: vec![],
            customs: vec![],
            boundaries: vec![],
        }
    }
    fn fail<T>(&mut self, leaf: &[u64]) -> R<T> {
        if self.err.is_none() {
            let mut e = std::mem::take(&mut self.ctx);
            e.extend_from_slice(leaf);
            self.err = Some(e);
        }
        Err(())
    }
    /// Runs `f` with `c` added to the position reported for failures.
    fn at<T>(&mut self, c: &[u64], f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let n = self.ctx.len();
        self.ctx.extend_from_slice(c);
        let r = f(self)?;
        self.ctx.truncate(n);
        Ok(r)
    }
    fn more(&self) -> bool {
        self.pos < self.b.len() as u64 && self.pos < self.sec_end && self.pos < self.code_end
    }
    fn byte(&mut self) -> R<u8> {
        if self.more() {
            if let Some(x) = self.b.get(self.pos as usize) {
                self.pos += 1;
                return Ok(*x);
            }
        }
        self.fail(&[IO, K_EOF])
    }
    fn uleb(&mut self, bits: u32, large: u64, long: u64) -> R<u64> {
        let n = bits.div_ceil(7);
        let mut v = 0u64;
        let mut i = 0;
        loop {
            let b = self.byte()?;
            let last = i == n - 1;
            if b & 0x80 == 0 {
                if last && (b as u64) >> (bits - 7 * i) != 0 {
                    return self.fail(&[large]);
                }
                return Ok(v | (b as u64) << (7 * i));
            }
            if last {
                return self.fail(&[long]);
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            i += 1;
        }
    }
    fn sleb(&mut self, bits: u32, large: u64, long: u64) -> R<u64> {
        let n = bits.div_ceil(7);
        let mut v = 0u64;
        let mut i = 0;
        loop {
            let b = self.byte()?;
            let last = i == n - 1;
            if b & 0x80 == 0 {
                // the 7 payload bits, sign extended
                let s = (((b << 1) as i8) >> 1) as i64;
                if last {
                    let hi = s >> (bits - 7 * i - 1);
                    if hi != 0 && hi != -1 {
                        return self.fail(&[large]);
                    }
                }
                return Ok(v | (s << (7 * i)) as u64);
            }
            if last {
                return self.fail(&[long]);
            }
            v |= ((b & 0x7f) as u64) << (7 * i);
            i += 1;
        }
    }
    fn u32(&mut self) -> R<u64> {
        self.uleb(32, U32_LARGE, U32_LONG)
    }
    fn u64(&mut self) -> R<u64> {
        self.uleb(64, U64_LARGE, U64_LONG)
    }
    fn s33(&mut self) -> R<u64> {
        self.sleb(33, S33_SIGN, S33_LONG)
    }
    fn idx(&mut self, k: u64) -> R<u64> {
        self.at(&[IDX, k], |p| p.u32())
    }
    fn list(&mut self, o: &mut Out, mut f: impl FnMut(&mut Self, &mut Out) -> R<()>) -> R<()> {
        let n = self.at(&[LEN], |p| p.u32())?;
        let slot = o.len();
        o.push(0);
        let mut i = 0;
        while i < n {
            self.at(&[POS, i], |p| f(p, o))?;
            i += 1;
        }
        if let Some(s) = o.get_mut(slot) {
            *s = i;
        }
        Ok(())
    }
    fn bytevec(&mut self, o: &mut Out) -> R<()> {
        let n = self.at(&[LEN], |p| p.u32())?;
        let slot = o.len();
        o.push(0);
        let mut i = 0;
        while i < n {
            let b = self.at(&[NAMEBYTES], |p| p.byte())?;
            o.push(b as u64);
            i += 1;
        }
        if let Some(s) = o.get_mut(slot) {
            *s = i;
        }
        Ok(())
    }
    fn name(&mut self, o: &mut Out) -> R<()> {
        let s = o.len() + 1;
        self.bytevec(o)?;
        match utf8(o.get(s..).unwrap_or(&[])) {
            None => Ok(()),
            Some(k) => self.fail(&[UTF8, k]),
        }
    }
    // ------------------------------------------------------------ types
    fn heaptype(&mut self) -> R<u64> {
        let p0 = self.pos;
        let b = self.byte()?;
        if (0x69..=0x74).contains(&b) {
            return Ok(b as u64);
        }
        self.pos = p0;
        self.typeindex()
    }
    /// A type index encoded as a non-negative s33.
    fn typeindex(&mut self) -> R<u64> {
        let x = self.s33()?;
        if (x as i64) < 0 {
            return self.fail(&[NEG, x]);
        }
        Ok(1 << 40 | x)
    }
    fn reftype(&mut self, o: &mut Out) -> R<()> {
        let b = self.byte()?;
        match b {
            0x63 => {
                o.push(T_REF_NULL);
                let h = self.heaptype()?;
                o.push(h);
            }
            0x64 => {
                o.push(T_REF);
                let h = self.heaptype()?;
                o.push(h);
            }
            0x69..=0x74 => {
                o.push(T_REF_NULL);
                o.push(b as u64);
            }
            _ => return self.fail(&[BAD_ABS, b as u64]),
        }
        Ok(())
    }
    fn valtype(&mut self, o: &mut Out) -> R<()> {
        let p0 = self.pos;
        let b = self.byte()?;
        if (0x7B..=0x7F).contains(&b) {
            o.push(b as u64);
            return Ok(());
        }
        self.pos = p0;
        self.reftype(o)
    }
    fn mutability(&mut self, o: &mut Out) -> R<()> {
        let b = self.byte()?;
        if b > 1 {
            return self.fail(&[BAD_MUT, b as u64]);
        }
        o.push(b as u64);
        Ok(())
    }
    fn fieldtype(&mut self, o: &mut Out) -> R<()> {
        let p0 = self.pos;
        let b = self.byte()?;
        if b == 0x77 || b == 0x78 {
            o.push(b as u64);
        } else {
            self.pos = p0;
            self.at(&[STORAGE, b as u64], |p| p.valtype(o))?;
        }
        self.mutability(o)
    }
    fn comptype(&mut self, o: &mut Out) -> R<()> {
        let b = self.byte()?;
        match b {
            0x5E => {
                o.push(0x5E);
                self.fieldtype(o)
            }
            0x5F => {
                o.push(0x5F);
                self.at(&[STRUCT], |p| p.list(o, |p, o| p.fieldtype(o)))
            }
            0x60 => {
                o.push(0x60);
                self.at(&[PARAMS], |p| p.list(o, |p, o| p.valtype(o)))?;
                self.at(&[RESULTS], |p| p.list(o, |p, o| p.valtype(o)))
            }
            _ => self.fail(&[BAD_COMP, b as u64]),
        }
    }
    fn subtype(&mut self, o: &mut Out) -> R<()> {
        let p0 = self.pos;
        let b = self.byte()?;
        if b == 0x4F || b == 0x50 {
            o.push(b as u64);
            self.at(&[SUPER], |p| {
                p.list(o, |p, o| {
                    let x = p.idx(X_TY)?;
                    o.push(x);
                    Ok(())
                })
            })?;
        } else {
            self.pos = p0;
            o.push(0x4F);
            o.push(0);
        }
        self.comptype(o)
    }
    fn rectype(&mut self, o: &mut Out) -> R<()> {
        let p0 = self.pos;
        let b = self.byte()?;
        if b == 0x4E {
            self.at(&[REC], |p| p.list(o, |p, o| p.subtype(o)))
        } else {
            self.pos = p0;
            o.push(1);
            self.subtype(o)
        }
    }
    fn limits(&mut self, o: &mut Out) -> R<()> {
        let f = self.byte()?;
        let has_max = match f {
            0 => {
                o.push(0x7F);
                false
            }
            1 => {
                o.push(0x7F);
                true
            }
            4 => {
                o.push(0x7E);
                false
            }
            5 => {
                o.push(0x7E);
                true
            }
            _ => return self.fail(&[BAD_LIM, f as u64]),
        };
        let n = self.at(&[MIN], |p| p.u64())?;
        o.push(n);
        if has_max {
            o.push(1);
            let n = self.at(&[MAX], |p| p.u64())?;
            o.push(n);
        } else {
            o.push(0);
        }
        Ok(())
    }
    fn tabletype(&mut self, o: &mut Out) -> R<()> {
        self.reftype(o)?;
        self.limits(o)
    }
    fn globaltype(&mut self, o: &mut Out) -> R<()> {
        self.valtype(o)?;
        self.mutability(o)
    }
    fn tagtype(&mut self, o: &mut Out) -> R<()> {
        let b = self.byte()?;
        if b != 0 {
            return self.fail(&[BAD_TAG, b as u64]);
        }
        let x = self.idx(X_TY)?;
        o.push(x);
        Ok(())
    }
    fn externtype(&mut self, o: &mut Out) -> R<()> {
        let b = self.byte()?;
        match b {
            0 => {
                o.push(0);
                let x = self.idx(X_TY)?;
                o.push(x);
                Ok(())
            }
            1 => {
                o.push(1);
                self.tabletype(o)
            }
            2 => {
                o.push(2);
                self.limits(o)
            }
            3 => {
                o.push(3);
                self.globaltype(o)
            }
            4 => {
                o.push(4);
                self.tagtype(o)
            }
            _ => self.fail(&[BAD_EXT, b as u64]),
        }
    }
    // ------------------------------------------------------------ instructions
    fn blocktype(&mut self, o: &mut Out) -> R<()> {
        let p0 = self.pos;
        let b = self.byte()?;
        match b {
            0x40 => {
                o.push(0x40);
                Ok(())
            }
            0x7B..=0x7F | 0x63 | 0x64 | 0x69..=0x74 => {
                self.pos = p0;
                self.valtype(o)
            }
            _ => {
                self.pos = p0;
                let x = self.typeindex()?;
                o.push(x);
                Ok(())
            }
        }
    }
    fn memarg(&mut self, o: &mut Out) -> R<()> {
        let n = self.at(&[ALIGN], |p| p.u32())?;
        if n >= 128 {
            return self.fail(&[BAD_MEMARG, n]);
        }
        if n >= 64 {
            o.push(n - 64);
            let m = self.idx(X_ME)?;
            o.push(m);
        } else {
            o.push(n);
            o.push(0);
        }
        let x = self.at(&[OFF64], |p| p.u64())?;
        o.push(x);
        Ok(())
    }
    fn raw(&mut self, n: u32, o: &mut Out) -> R<()> {
        let mut i = 0;
        while i < n {
            let b = self.byte()?;
            o.push(b as u64);
            i += 1;
        }
        Ok(())
    }
    fn le(&mut self, n: u32) -> R<u64> {
        let mut v = 0u64;
        let mut i = 0;
        while i < n {
            let b = self.byte()?;
            v |= (b as u64) << (8 * i);
            i += 1;
        }
        Ok(v)
    }
    fn plain(&mut self, op: u64, o: &mut Out) -> R<bool> {
        let Some(kinds) = shape(op) else { return Ok(false) };
        o.push(op);
        for k in kinds {
            let x = match k {
                K::Ty => self.idx(X_TY)?,
                K::Fn => self.idx(X_FN)?,
                K::Tb => self.idx(X_TB)?,
                K::Me => self.idx(X_ME)?,
                K::Gl => self.idx(X_GL)?,
                K::El => self.idx(X_EL)?,
                K::Da => self.idx(X_DA)?,
                K::Lo => self.idx(X_LO)?,
                K::La => self.idx(X_LA)?,
                K::Tg => self.idx(X_TG)?,
                K::Fd => self.at(&[FIELD], |p| p.u32())?,
                K::Fx => self.at(&[FIXLEN], |p| p.u32())?,
                K::Ln => self.byte()? as u64,
                K::Ma => {
                    self.memarg(o)?;
                    continue;
                }
            };
            if *k == K::Da {
                self.data_index_seen = true;
            }
            o.push(x);
        }
        Ok(true)
    }
    fn labels(&mut self, o: &mut Out) -> R<()> {
        self.list(o, |p, o| {
            let x = p.idx(X_LA)?;
            o.push(x);
            Ok(())
        })
    }
    fn instr(&mut self, op: u8, o: &mut Out) -> R<()> {
        match op {
            0x02 | 0x03 => {
                o.push(op as u64);
                self.blocktype(o)?;
                self.seq(false, o)?;
            }
            0x04 => {
                o.push(0x04);
                self.blocktype(o)?;
                if self.seq(true, o)? {
                    self.seq(false, o)?;
                }
            }
            0x1F => {
                o.push(0x1F);
                self.blocktype(o)?;
                self.at(&[CATCH], |p| {
                    p.list(o, |p, o| {
                        let b = p.byte()?;
                        if b > 3 {
                            return p.fail(&[BAD_CATCH, b as u64]);
                        }
                        o.push(b as u64);
                        if b < 2 {
                            let x = p.idx(X_TG)?;
                            o.push(x);
                        }
                        let l = p.idx(X_LA)?;
                        o.push(l);
                        Ok(())
                    })
                })?;
                self.seq(false, o)?;
            }
            0x0E => {
                o.push(0x0E);
                self.labels(o)?;
                let l = self.idx(X_LA)?;
                o.push(l);
            }
            0x1B => o.push(0x1B),
            0x1C => {
                o.push(0x1C);
                self.list(o, |p, o| p.valtype(o))?;
            }
            0x41 => {
                o.push(0x41);
                let v = self.sleb(32, I32_LARGE, I32_LONG)?;
                o.push(v);
            }
            0x42 => {
                o.push(0x42);
                let v = self.sleb(64, I64_SIGN, I64_LONG)?;
                o.push(v);
            }
            0x43 => {
                o.push(0x43);
                let v = self.le(4)?;
                o.push(v);
            }
            0x44 => {
                o.push(0x44);
                let v = self.le(8)?;
                o.push(v);
            }
            0xD0 => {
                o.push(0xD0);
                let h = self.heaptype()?;
                o.push(h);
            }
            0xFB => {
                let sub = self.at(&[SUBOP], |p| p.u32())?;
                match sub {
                    20..=23 => {
                        o.push(0xFB << 32 | (sub & !1));
                        o.push(if sub & 1 == 1 { T_REF_NULL } else { T_REF });
                        let h = self.heaptype()?;
                        o.push(h);
                    }
                    24 | 25 => {
                        o.push(0xFB << 32 | sub);
                        let f = self.byte()?;
                        if f > 3 {
                            return self.fail(&[BAD_CAST, f as u64]);
                        }
                        let l = self.idx(X_LA)?;
                        o.push(l);
                        o.push(if f & 1 != 0 { T_REF_NULL } else { T_REF });
                        let h = self.heaptype()?;
                        o.push(h);
                        o.push(if f & 2 != 0 { T_REF_NULL } else { T_REF });
                        let h = self.heaptype()?;
                        o.push(h);
                    }
                    _ => {
                        if !self.plain(0xFB << 32 | sub, o)? {
                            return self.fail(&[BAD_FB, sub]);
                        }
                    }
                }
            }
            0xFC => {
                let sub = self.at(&[SUBOP], |p| p.u32())?;
                if !self.plain(0xFC << 32 | sub, o)? {
                    return self.fail(&[BAD_FC, sub]);
                }
            }
            0xFD => {
                let sub = self.at(&[SUBOP], |p| p.u32())?;
                if sub == 12 || sub == 13 {
                    o.push(0xFD << 32 | sub);
                    self.raw(16, o)?;
                } else if !self.plain(0xFD << 32 | sub, o)? {
                    return self.fail(&[BAD_FD, sub]);
                }
            }
            _ => {
                if !self.plain(op as u64, o)? {
                    return self.fail(&[BAD_OP, op as u64]);
                }
            }
        }
        Ok(())
    }
    /// Instructions up to `end`; true if they ended at an (allowed) `else` instead.
    fn seq(&mut self, else_allowed: bool, o: &mut Out) -> R<bool> {
        loop {
            let op = self.byte()?;
            if op == 0x0B {
                o.push(END);
                return Ok(false);
            }
            if op == 0x05 {
                if !else_allowed {
                    return self.fail(&[ELSE_]);
                }
                o.push(ELSE);
                return Ok(true);
            }
            self.instr(op, o)?;
        }
    }
    fn expr(&mut self, o: &mut Out) -> R<()> {
        self.seq(false, o)?;
        Ok(())
    }
    // ------------------------------------------------------------ section entries
    fn table(&mut self, o: &mut Out) -> R<()> {
        let p0 = self.pos;
        let b = self.byte()?;
        if b == 0x40 {
            let z = self.byte()?;
            if z != 0 {
                return self.fail(&[BAD_TBL, z as u64]);
            }
            self.tabletype(o)?;
            return self.expr(o);
        }
        self.pos = p0;
        let at = o.len() + 1;
        self.tabletype(o)?;
        let ht = o.get(at).copied().unwrap_or(0);
        o.push(0xD0);
        o.push(ht);
        o.push(END);
        Ok(())
    }
    fn funcs_as_exprs(&mut self, o: &mut Out) -> R<()> {
        self.at(&[FUNCS], |p| {
            p.list(o, |p, o| {
                let f = p.idx(X_FN)?;
                o.push(0xD2);
                o.push(f);
                o.push(END);
                Ok(())
            })
        })
    }
    fn exprs(&mut self, o: &mut Out) -> R<()> {
        self.at(&[INIT], |p| p.list(o, |p, o| p.expr(o)))
    }
    fn elemkind(&mut self, o: &mut Out) -> R<()> {
        let b = self.byte()?;
        if b != 0 {
            return self.fail(&[BAD_EK, b as u64]);
        }
        o.push(T_REF_NULL);
        o.push(0x70);
        Ok(())
    }
    fn elem(&mut self, o: &mut Out) -> R<()> {
        let flag = self.at(&[EL_FLAG], |p| p.u32())?;
        if flag > 7 {
            return self.fail(&[BAD_EL, flag]);
        }
        // bit 0: passive or declarative; bit 1: explicit table index / declarative; bit 2: expressions
        if flag & 1 == 0 {
            o.push(0);
            if flag & 2 != 0 {
                let t = self.idx(X_TB)?;
                o.push(t);
            } else {
                o.push(0);
            }
            self.at(&[OFFSET], |p| p.expr(o))?;
        } else {
            o.push(if flag & 2 != 0 { 3 } else { 1 });
        }
        let implicit = flag & 3 == 0;
        if flag & 4 == 0 {
            if implicit {
                o.push(T_REF);
                o.push(0x70);
            } else {
                self.elemkind(o)?;
            }
            self.funcs_as_exprs(o)
        } else {
            if implicit {
                o.push(T_REF_NULL);
                o.push(0x70);
            } else {
                self.reftype(o)?;
            }
            self.exprs(o)
        }
    }
    fn data(&mut self, o: &mut Out) -> R<()> {
        let flag = self.at(&[D_FLAG], |p| p.u32())?;
        if flag > 2 {
            return self.fail(&[BAD_D, flag]);
        }
        if flag == 1 {
            o.push(1);
        } else {
            o.push(0);
            if flag == 2 {
                let m = self.idx(X_ME)?;
                o.push(m);
            } else {
                o.push(0);
            }
            self.at(&[OFFSET], |p| p.expr(o))?;
        }
        self.bytevec(o)
    }
    fn code(&mut self, lo: &mut Out, bo: &mut Out) -> R<()> {
        let size = self.at(&[SIZE], |p| p.u32())?;
        let start = self.pos;
        self.code_end = start + size;
        let mut groups: Vec<(u64, usize, usize)> = vec![];
        let mut types: Out = vec![];
        let mut total = 0u64;
        let max = u32::MAX as u64;
        let mut dummy: Out = vec![];
        self.at(&[LOCALS], |p| {
            p.list(&mut dummy, |p, _| {
                let n = p.u32()?;
                total += n;
                if total > max {
                    return p.fail(&[MANY, max, total]);
                }
                let s = types.len();
                p.valtype(&mut types)?;
                groups.push((n, s, types.len()));
                Ok(())
            })
        })?;
        self.at(&[BODY], |p| p.expr(bo))?;
        if self.pos < start + size {
            let used = self.pos - start;
            return self.fail(&[ESM, size, size - used, used]);
        }
        // only an entry that is right in every other way has its locals written out
        let slot = lo.len();
        lo.push(0);
        let mut c = 0;
        for (n, s, e) in &groups {
            let mut i = 0;
            while i < *n {
                lo.extend_from_slice(types.get(*s..*e).unwrap_or(&[]));
                i += 1;
                c += 1;
            }
        }
        if let Some(x) = lo.get_mut(slot) {
            *x = c;
        }
        self.code_end = FAR;
        Ok(())
    }
    // ------------------------------------------------------------ module
    fn section(&mut self, id: u8) -> R<()> {
        match id {
            0 => {
                let mut o = std::mem::take(&mut self.customs);
                self.name(&mut o)?;
                let slot = o.len();
                o.push(0);
                let mut n = 0;
                while self.more() {
                    let b = self.byte()?;
                    o.push(b as u64);
                    n += 1;
                }
                if let Some(s) = o.get_mut(slot) {
                    *s = n;
                }
                self.customs = o;
            }
            1 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| p.rectype(o))?;
                self.types = o;
            }
            2 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| {
                    p.at(&[MODNAME], |p| p.name(o))?;
                    p.at(&[ITEMNAME], |p| p.name(o))?;
                    p.externtype(o)
                })?;
                self.imports = o;
            }
            3 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| {
                    let x = p.idx(X_TY)?;
                    o.push(x);
                    Ok(())
                })?;
                self.nfuncs = o.len() as u64 - 1;
                self.funcs = o;
            }
            4 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| p.table(o))?;
                self.tables = o;
            }
            5 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| p.limits(o))?;
                self.mems = o;
            }
            6 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| {
                    p.globaltype(o)?;
                    p.expr(o)
                })?;
                self.globals = o;
            }
            7 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| {
                    p.name(o)?;
                    let k = p.byte()?;
                    if k > 4 {
                        return p.fail(&[BAD_EXP, k as u64]);
                    }
                    let i = p.at(&[EXPIDX], |p| p.u32())?;
                    o.push(k as u64);
                    o.push(i);
                    Ok(())
                })?;
                self.exports = o;
            }
            8 => {
                let x = self.idx(X_FN)?;
                self.start = Some(x);
            }
            9 => {
                let mut o = vec![];
                self.list(&mut o, |p, o| p.elem(o))?;
                self.elems = o;
            }
            10 => {
                let mut lo = vec![];
                let mut bo = vec![];
                self.data_index_seen = false;
                let mut n = 0;
                self.list(&mut vec![], |p, _| {
                    n += 1;
                    p.code(&mut lo, &mut bo)
                })?;
                if n != self.nfuncs {
                    self.ctx.clear();
                    return self.fail(&[CFM, n, self.nfuncs]);
                }
                self.code_data_index = self.data_index_seen;
                self.locals = lo;
                self.bodies = bo;
            }
            11 => {
                let mut o = vec![];
                let mut n = 0;
                self.list(&mut o, |p, o| {
                    n += 1;
                    p.data(o)
                })?;
                self.ndatas = n;
                if let Some(c) = self.data_count {
                    if c != n {
                        self.ctx.clear();
                        return self.fail(&[DCM, n, c]);
                    }
                }
                self.datas = o;
            }
            12 => {
                let n = self.u32()?;
                self.data_count = Some(n);
            }
            _ => {
                let mut o = vec![];
                self.list(&mut o, |p, o| p.tagtype(o))?;
                self.tags = o;
            }
        }
        Ok(())
    }
    pub fn module(&mut self) -> R<()> {
        if self.b.len() < 8 {
            return self.fail(&[PRE, IO, K_EOF]);
        }
        let mut got = [0u64; 9];
        got[0] = PREBAD;
        let mut ok = true;
        let mut i = 0;
        for w in [0u8, 0x61, 0x73, 0x6D, 1, 0, 0, 0] {
            let b = self.byte()?;
            ok &= b == w;
            i += 1;
            if let Some(g) = got.get_mut(i) {
                *g = b as u64;
            }
        }
        if !ok {
            return self.fail(&got);
        }
        self.boundaries.push(self.pos);
        let mut prev = 0u64;
        let mut prev_id = 0u8;
        let mut code_seen = false;
        while self.more() {
            let id = self.byte()?;
            if id > 13 {
                return self.fail(&[HDR_BAD, id as u64]);
            }
            let size = self.at(&[HDR_SIZE], |p| p.u32())?;
            if id != 0 {
                let r = rank(id);
                if r < prev {
                    return self.fail(&[OOO, id as u64, prev_id as u64]);
                }
                if r == prev {
                    return self.fail(&[DUP, id as u64]);
                }
                prev = r;
                prev_id = id;
            }
            let start = self.pos;
            self.sec_end = start + size;
            self.at(&[SEC, id as u64], |p| p.section(id))?;
            if self.pos < start + size {
                let used = self.pos - start;
                return self.fail(&[SSM, id as u64, size, used]);
            }
            self.sec_end = FAR;
            self.boundaries.push(self.pos);
            code_seen |= id == 10;
            self.headers.push(id as u64);
            self.headers.push(size);
            if id != 0 {
                self.kinds.push(id as u64);
            }
        }
        if !code_seen && self.nfuncs != 0 {
            return self.fail(&[CFM, 0, self.nfuncs]);
        }
        if let Some(c) = self.data_count {
            if c != self.ndatas {
                return self.fail(&[DCM, self.ndatas, c]);
            }
        } else if self.code_data_index {
            return self.fail(&[DIW]);
        }
        Ok(())
    }
    pub fn tokens(&self, mask: u64, o: &mut Out) {
        fn list(o: &mut Out, v: &Out) {
            if v.is_empty() {
                o.push(0);
            } else {
                o.extend_from_slice(v);
            }
        }
        if mask & M_VERSION != 0 {
            o.extend_from_slice(&[P_VERSION, 1, 0, 0, 0]);
        }
        if mask & M_KINDS != 0 {
            o.push(P_KINDS);
            o.extend_from_slice(&self.kinds);
        }
        if mask & M_HEADERS != 0 {
            o.push(P_HEADERS);
            o.extend_from_slice(&self.headers);
        }
        if mask & M_CUSTOM != 0 {
            o.push(P_CUSTOM);
            o.extend_from_slice(&self.customs);
        }
        for (m, p, v) in [(M_TYPES, P_TYPES, &self.types), (M_IMPORTS, P_IMPORTS, &self.imports), (M_FUNCS, P_FUNCS, &self.funcs), (M_TABLES, P_TABLES, &self.tables), (M_MEMS, P_MEMS, &self.mems), (M_TAGS, P_TAGS, &self.tags), (M_GLOBALS, P_GLOBALS, &self.globals), (M_EXPORTS, P_EXPORTS, &self.exports)] {
            if mask & m != 0 {
                o.push(p);
                list(o, v);
            }
        }
        if mask & M_START != 0 {
            o.push(P_START);
            if let Some(s) = self.start {
                o.push(s);
            }
        }
        if mask & M_ELEMS != 0 {
            o.push(P_ELEMS);
            list(o, &self.elems);
        }
        if mask & M_DATACOUNT != 0 {
            o.push(P_DATACOUNT);
            if let Some(s) = self.data_count {
                o.push(s);
            }
        }
        if mask & M_LOCALS != 0 {
            o.push(P_LOCALS);
            o.push(self.nfuncs);
            o.extend_from_slice(&self.locals);
        }
        if mask & M_BODIES != 0 {
            o.push(P_BODIES);
            o.push(self.nfuncs);
            o.extend_from_slice(&self.bodies);
        }
        if mask & M_DATAS != 0 {
            o.push(P_DATAS);
            list(o, &self.datas);
        }
        o.push(P_END);
    }
}

/// None if well-formed UTF-8, else the offset of the first ill-formed sequence (values are bytes).
pub fn utf8(b: &[u64]) -> Option<u64> {
    let mut i = 0usize;
    while let Some(&x) = b.get(i) {
        let (n, lo, hi) = match x {
            0..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return Some(i as u64),
        };
        let mut k = 1;
        while k <= n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            match b.get(i + k) {
                Some(&c) if c >= l && c <= h => {}
                _ => return Some(i as u64),
            }
            k += 1;
        }
        i += 1 + n;
    }
    None
}
