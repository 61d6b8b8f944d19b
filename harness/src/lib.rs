//! Harnesses over wadec's public API. Each entry point builds an input from a template of literal
//! and symbolic bytes, decodes it with the real decoder and asserts a property of the outcome.
pub mod ops;
pub mod ser;
pub mod spec;
pub mod sym;
pub mod tok;
use ser::Ser;
use std::error::Error;
use std::fmt::Write as _;
use std::io::{self, Read};
use sym::*;
use tok::*;
use wadec::Module;
use wadec::decode::DecodeModuleError;

// Assertion identifiers
pub const A_EQ: u64 = 1; // real result = reference result
pub const A_CHUNK: u64 = 2; // result independent of reader chunking
pub const A_FAIL_OK: u64 = 3; // a failing reader must give an error
pub const A_FAIL_ROOT: u64 = 4; // ... whose innermost cause is the reader's error
pub const A_FAIL_AGAIN: u64 = 5; // ... and the reader must not be read again
pub const A_CUSTOM: u64 = 6; // custom sections change nothing else
pub const A_RENDER_LEN: u64 = 7; // error chain too long / empty message
pub const A_RENDER_HEX: u64 = 8; // offending byte not shown
pub const A_FAIL_CHAIN: u64 = 11; // the reader's error is not what the chain of causes ends with
pub const A_PREFIX: u64 = 9; // prefix accepted although not at a section boundary
pub const A_PREFIX_EQ: u64 = 10; // accepted prefix does not hold exactly its sections
pub const A_STATE: u64 = 12; // the result depends on what was decoded before
pub const A_NESTED: u64 = 13; // the result depends on a decoding in progress
pub const A_HINT_WRONG: u64 = 14; // a byte named as expected is rejected in the same way
pub const A_HINT_MISSING: u64 = 15; // an acceptable byte is not among those named
pub const A_SELF_EQ: u64 = 16; // decoding the same bytes twice gives modules that differ
pub const A_MODULE_EQ: u64 = 17; // modules compare equal although their content differs, or the other way round
pub const A_WHERE_SECTION: u64 = 18; // the messages do not name the section
pub const A_WHERE_POSITION: u64 = 19; // ... or not the positions
pub const A_WHERE_WHAT: u64 = 24; // ... or not what was found
pub const C_OK: u64 = 1;
pub const C_ERR: u64 = 2;

/// Appends the template items from argument `i` on (up to a terminator or the end) to `out`.
/// Returns the index after the terminator.
pub fn build(mut i: u64, out: &mut Vec<u8>) -> u64 {
    loop {
        let a = arg(i);
        i += 1;
        match a >> 56 {
            0 => out.push(a as u8),
            1 => {
                let b = byte();
                let n = (a >> 48) as u8;
                let r = |k: u32| -> bool { (b >= (a >> (16 * k)) as u8) & (b <= (a >> (16 * k + 8)) as u8) };
                let mut ok = r(0);
                if n > 1 {
                    ok |= r(1);
                }
                if n > 2 {
                    ok |= r(2);
                }
                assume(ok);
                out.push(b);
            }
            2 => {
                let mut n = a & 0xFFFF_FFFF;
                while n > 0 {
                    out.push(byte());
                    n -= 1;
                }
            }
            // literal run: up to 6 bytes, count in the second byte
            3 => {
                let mut n = (a >> 48) & 0xFF;
                let mut v = a;
                while n > 0 {
                    out.push(v as u8);
                    v >>= 8;
                    n -= 1;
                }
            }
            // a literal pattern of one or two bytes (bytes 4 and 5), repeated (count in the low half)
            4 => {
                let two = (a >> 48) & 0xFF == 2;
                let mut n = a & 0xFFFF_FFFF;
                while n > 0 {
                    out.push((a >> 32) as u8);
                    if two {
                        out.push((a >> 40) as u8);
                    }
                    n -= 1;
                }
            }
            // a literal pattern of up to six bytes, repeated as often as the next argument says
            5 => {
                let mut k = (a >> 48) & 0xFF;
                let n = arg(i) * k;
                i += 1;
                let start = out.len();
                out.reserve(n as usize);
                let mut v = a;
                while k > 0 && n > 0 {
                    out.push(v as u8);
                    v >>= 8;
                    k -= 1;
                }
                loop {
                    let have = out.len() - start;
                    let left = n as usize - have;
                    if left == 0 {
                        break;
                    }
                    out.extend_from_within(start..start + if left < have { left } else { have });
                }
            }
            _ => return i,
        }
    }
}

type Res = Result<Module, DecodeModuleError>;
fn result_tokens(r: &Res, mask: u64, o: &mut Vec<u64>) {
    match r {
        Ok(m) => {
            o.push(R_OK);
            ser::module(m, mask, o);
        }
        Err(e) => {
            o.push(R_ERR);
            if mask & M_ERR != 0 {
                e.ser(o);
            }
        }
    }
}
fn spec_tokens(b: &[u8], mask: u64, o: &mut Vec<u64>) {
    let mut s = spec::Spec::new(b);
    match s.module() {
        Ok(()) => {
            o.push(R_OK);
            s.tokens(mask, o);
        }
        Err(()) => {
            o.push(R_ERR);
            if mask & M_ERR != 0 {
                if let Some(e) = &s.err {
                    o.extend_from_slice(e);
                }
            }
        }
    }
}
fn note(r: &Res, o: &[u64]) {
    cover(if r.is_ok() { C_OK } else { C_ERR });
    for t in o {
        trace(*t);
    }
}
fn new_tokens() -> Vec<u64> {
    Vec::with_capacity(64)
}

/// args: mask, template
/// The decoder agrees with the reference decoder on acceptance and on everything in `mask`.
#[unsafe(no_mangle)]
pub extern "C" fn h_tpl() {
    let mask = arg(0);
    let mut b = Vec::new();
    build(1, &mut b);
    let r = wadec::decode_module(&b[..]);
    let mut a = new_tokens();
    result_tokens(&r, mask, &mut a);
    note(&r, &a);
    drop(r);
    let mut e = new_tokens();
    spec_tokens(&b, mask, &mut e);
    check_eq(&a, &e, A_EQ);
}

/// args: template. Decoding (and dropping the result) neither panics nor faults.
#[unsafe(no_mangle)]
pub extern "C" fn h_nopanic() {
    let mut b = Vec::new();
    build(0, &mut b);
    let r = wadec::decode_module(&b[..]);
    note(&r, &[r.is_ok() as u64]);
    drop(r);
}

/// args: bytes allowed per input byte, fixed allowance, template
#[unsafe(no_mangle)]
pub extern "C" fn h_alloc() {
    let (per, fix) = (arg(0), arg(1));
    let mut b = Vec::new();
    build(2, &mut b);
    alloc_limit(per * b.len() as u64 + fix);
    let r = wadec::decode_module(&b[..]);
    alloc_limit(0);
    note(&r, &[r.is_ok() as u64]);
}

/// args: mask, lowest and highest prefix length, template
/// Every prefix decodes exactly as the reference says, and an accepted prefix ends at a boundary.
#[unsafe(no_mangle)]
pub extern "C" fn h_trunc() {
    let (mask, lo, hi) = (arg(0), arg(1), arg(2));
    let mut b = Vec::new();
    build(3, &mut b);
    let c = byte() as u64;
    let mut k = lo;
    while k < hi && c != k {
        k += 1;
    }
    let Some(p) = b.get(..k as usize) else { return };
    let r = wadec::decode_module(p);
    let mut a = new_tokens();
    result_tokens(&r, mask, &mut a);
    note(&r, &a);
    // the boundaries of the whole input, whether or not all of it is a module
    let mut s = spec::Spec::new(&b);
    let _ = s.module();
    let at_boundary = s.boundaries.iter().any(|x| *x == k);
    check(!r.is_ok() | at_boundary, A_PREFIX);
    let mut e = new_tokens();
    spec_tokens(p, mask, &mut e);
    check_eq(&a, &e, A_PREFIX_EQ);
}

/// Delivers `b` in pieces. Reads number skip..skip+plan are chosen by symbolic bytes: 0 = interrupted,
/// n = at most n bytes. Of the others, mode bit 0 makes single-byte reads, bit 1 interrupts every
/// other read, bit 2 delivers at most 3 bytes.
struct Chunked<'a> {
    b: &'a [u8],
    pos: usize,
    skip: u64,
    plan: u64,
    mode: u64,
    odd: bool,
}
impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let rest = self.b.get(self.pos..).unwrap_or(&[]);
        let mut n = buf.len().min(rest.len());
        if self.skip == 0 && self.plan > 0 {
            if !buf.is_empty() {
                self.plan -= 1;
                let c = byte();
                if c == 0 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                n = sym::concretize((c as u64).min(n as u64)) as usize;
            }
        } else {
            if self.skip > 0 {
                self.skip -= 1;
            }
            if self.mode & 2 != 0 {
                self.odd = !self.odd;
                if self.odd {
                    return Err(io::ErrorKind::Interrupted.into());
                }
            }
            if self.mode & 1 != 0 {
                n = n.min(1);
            }
            if self.mode & 4 != 0 {
                n = n.min(3);
            }
        }
        if let (Some(d), Some(s)) = (buf.get_mut(..n), rest.get(..n)) {
            d.copy_from_slice(s);
        }
        self.pos += n;
        Ok(n)
    }
}
/// args: mask, reads to skip, reads to control symbolically, mode of the others, template
#[unsafe(no_mangle)]
pub extern "C" fn h_chunk() {
    let (mask, skip, plan, mode) = (arg(0), arg(1), arg(2), arg(3));
    let mut b = Vec::new();
    build(4, &mut b);
    let r = wadec::decode_module(&b[..]);
    let mut a = new_tokens();
    result_tokens(&r, mask, &mut a);
    note(&r, &a);
    let mut rd = Chunked { b: &b, pos: 0, skip, plan, mode, odd: false };
    let r = wadec::decode_module(&mut rd);
    let mut e = new_tokens();
    result_tokens(&r, mask, &mut e);
    check_eq(&a, &e, A_CHUNK);
}

#[derive(Debug)]
pub struct Marker;
impl std::fmt::Display for Marker {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("marker")
    }
}
impl Error for Marker {}
/// Every kind of I/O error there is, by number, from NotFound to Other (std's private last kind left out).
pub fn io_kind(n: u8) -> io::ErrorKind {
    const { assert!(size_of::<io::ErrorKind>() == 1 && io::ErrorKind::NotFound as u8 == 0 && io::ErrorKind::Other as u8 >= 40) };
    if n > io::ErrorKind::Other as u8 {
        return io::ErrorKind::Other;
    }
    // Safety: the kinds are numbered without gaps
    unsafe { std::mem::transmute::<u8, io::ErrorKind>(n) }
}
/// One of them, other than Interrupted (which asks for another attempt); any of those numbered from `lo` to `hi`.
fn some_kind(lo: u64, hi: u64) -> io::ErrorKind {
    let n = byte();
    assume((n as u64 >= lo) & (n as u64 <= hi) & (n <= io::ErrorKind::Other as u8) & (n != io::ErrorKind::Interrupted as u8));
    io_kind(n)
}
/// Delivers `b[..fail_at]`, `step` bytes at a time, then fails.
struct Failing<'a> {
    b: &'a [u8],
    pos: usize,
    step: usize,
    kind: io::ErrorKind,
    marked: bool,
    failures: u64,
    again: u64,
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.failures > 0 {
            self.again += 1;
        }
        let rest = self.b.get(self.pos..).unwrap_or(&[]);
        let n = buf.len().min(rest.len()).min(self.step);
        if rest.is_empty() && !buf.is_empty() {
            self.failures += 1;
            return Err(if self.marked { io::Error::new(self.kind, Marker) } else { self.kind.into() });
        }
        if let (Some(d), Some(s)) = (buf.get_mut(..n), rest.get(..n)) {
            d.copy_from_slice(s);
        }
        self.pos += n;
        Ok(n)
    }
}
fn contains(s: &[u8], t: &[u8]) -> bool {
    let mut i = 0;
    while i + t.len() <= s.len() {
        if s.get(i..i + t.len()) == Some(t) {
            return true;
        }
        i += 1;
    }
    false
}
/// args: lowest and highest failing offset, step, first kind, last kind, marked (bit 0: with a payload of
/// our own; bit 1: also look at the displayed chain), template
#[unsafe(no_mangle)]
pub extern "C" fn h_fail() {
    let (lo, hi, step, k0, k1, marked) = (arg(0), arg(1), arg(2), arg(3), arg(4), arg(5) & 1);
    let chain = arg(5) & 2 != 0;
    let mut b = Vec::new();
    build(6, &mut b);
    let c = byte() as u64;
    let mut k = lo;
    while k < hi && c != k {
        k += 1;
    }
    let kind = some_kind(k0, k1);
    let Some(p) = b.get(..k as usize) else { return };
    let mut rd = Failing { b: p, pos: 0, step: step as usize, kind, marked: marked != 0, failures: 0, again: 0 };
    let r = wadec::decode_module(&mut rd);
    let mut a = new_tokens();
    result_tokens(&r, M_ERR, &mut a);
    note(&r, &a);
    // a decoder may reject what it has read before it reaches the failure; nothing is then claimed
    if rd.failures > 0 {
        cover(10);
        check(r.is_err(), A_FAIL_OK);
        let want = ser::io_code(kind, marked != 0);
        let n = a.len();
        check(n > 2 && a.get(n - 2) == Some(&IO) && a.get(n - 1) == Some(&want), A_FAIL_ROOT);
        check(rd.again == 0, A_FAIL_AGAIN);
        if chain {
            let mut want = String::new();
            let own = if marked != 0 { io::Error::new(kind, Marker) } else { kind.into() };
            let _ = write!(want, "{}", own);
            let mut last = String::new();
            let mut cur: Option<&dyn Error> = r.as_ref().err().map(|e| e as &dyn Error);
            let mut links = 0;
            while let Some(e) = cur {
                last.clear();
                let _ = write!(last, "{}", e);
                cur = e.source();
                links += 1;
                if links > 32 {
                    break;
                }
            }
            check(links <= 32 && contains(last.as_bytes(), want.as_bytes()), A_FAIL_CHAIN);
        }
    } else {
        check(r.is_err(), A_FAIL_OK);
    }
}

/// args: mask, payload template, 0xFF.. terminator, prefix template, terminator, suffix template
/// prefix ++ suffix and prefix ++ payload ++ suffix decode to the same thing under `mask`.
#[unsafe(no_mangle)]
pub extern "C" fn h_custom() {
    let mask = arg(0);
    let mut pay = Vec::new();
    let mut pre = Vec::new();
    let mut suf = Vec::new();
    let i = build(1, &mut pay);
    let i = build(i, &mut pre);
    build(i, &mut suf);
    let mut x = pre.clone();
    x.extend_from_slice(&suf);
    let r = wadec::decode_module(&x[..]);
    let mut a = new_tokens();
    result_tokens(&r, mask, &mut a);
    note(&r, &a);
    let mut y = pre;
    y.extend_from_slice(&pay);
    y.extend_from_slice(&suf);
    let r = wadec::decode_module(&y[..]);
    let mut e = new_tokens();
    result_tokens(&r, mask, &mut e);
    check_eq(&a, &e, A_CUSTOM);
}

fn hexdigit(n: u64) -> u8 {
    let n = (n & 15) as u8;
    if n < 10 { b'0' + n } else { b'A' + (n - 10) }
}
fn contains_hex(s: &[u8], v: u64) -> bool {
    let (h, l) = (hexdigit(v >> 4), hexdigit(v));
    let mut i = 0;
    let mut found = false;
    while let (Some(&a), Some(&b), Some(&c), Some(&d)) = (s.get(i), s.get(i + 1), s.get(i + 2), s.get(i + 3)) {
        // no branches: any of them may be symbolic
        found |= (a == b'0') & (b == b'x') & (c == h) & (d == l);
        i += 1;
    }
    found
}
/// args: debug, template. The error and everything in its chain render; offending bytes are shown.
#[unsafe(no_mangle)]
pub extern "C" fn h_render() {
    let debug = arg(0);
    let mut b = Vec::new();
    build(1, &mut b);
    let r = wadec::decode_module(&b[..]);
    note(&r, &[r.is_ok() as u64]);
    let Err(err) = r else { return };
    let mut s = spec::Spec::new(&b);
    let _ = s.module();
    let mut want = None;
    if let Some(e) = &s.err {
        let n = e.len();
        if n >= 2 {
            if let (Some(&t), Some(&v)) = (e.get(n - 2), e.get(n - 1)) {
                if matches!(t, HDR_BAD | BAD_COMP | BAD_MUT | BAD_ABS | BAD_LIM | BAD_EXT | BAD_TAG | BAD_EXP | BAD_TBL | BAD_EK | BAD_OP | BAD_CATCH | BAD_CAST) {
                    want = Some(v);
                }
            }
        }
    }
    let mut found = want.is_none();
    let mut text = String::new();
    let mut cur: Option<&dyn Error> = Some(&err);
    let mut links = 0;
    while let Some(e) = cur {
        text.clear();
        let _ = if debug != 0 { write!(text, "{:?}", e) } else { write!(text, "{}", e) };
        check(!text.is_empty(), A_RENDER_LEN);
        if let (Some(v), false) = (want, debug != 0) {
            found |= contains_hex(text.as_bytes(), v);
        }
        cur = e.source();
        links += 1;
        check(links <= 32, A_RENDER_LEN);
        if links > 32 {
            return;
        }
    }
    trace(links);
    if debug == 0 {
        check(found, A_RENDER_HEX);
    }
}

/// (the command line harness replaces its own)
pub fn real_stdout() -> impl std::io::Write {
    std::io::stdout()
}

/// Decodes `other` when the byte at `at` is read.
struct Nesting<'a> {
    b: &'a [u8],
    pos: usize,
    at: usize,
    other: &'a [u8],
    ok: bool,
}
impl Read for Nesting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let rest = self.b.get(self.pos..).unwrap_or(&[]);
        let n = buf.len().min(rest.len());
        if let (Some(d), Some(s)) = (buf.get_mut(..n), rest.get(..n)) {
            d.copy_from_slice(s);
        }
        if self.pos <= self.at && self.at < self.pos + n {
            self.ok = wadec::decode_module(self.other).is_ok();
        }
        self.pos += n;
        Ok(n)
    }
}
/// args: mask, offset at which the other is decoded (u64::MAX: before), other template, terminator, template
/// What is decoded before, or in the middle, changes nothing.
#[unsafe(no_mangle)]
pub extern "C" fn h_twice() {
    let (mask, at) = (arg(0), arg(1));
    let mut other = Vec::new();
    let mut b = Vec::new();
    let i = build(2, &mut other);
    build(i, &mut b);
    let r = wadec::decode_module(&b[..]);
    let mut a = new_tokens();
    result_tokens(&r, mask, &mut a);
    note(&r, &a);
    drop(r);
    let mut e = new_tokens();
    if at == u64::MAX {
        let o = wadec::decode_module(&other[..]);
        let r = wadec::decode_module(&b[..]);
        trace(o.is_ok() as u64);
        result_tokens(&r, mask, &mut e);
        check_eq(&a, &e, A_STATE);
    } else {
        let mut rd = Nesting { b: &b, pos: 0, at: at as usize, other: &other, ok: false };
        let r = wadec::decode_module(&mut rd);
        trace(rd.ok as u64);
        result_tokens(&r, mask, &mut e);
        check_eq(&a, &e, A_NESTED);
    }
}

/// args: mask, how often the other is decoded, other template, terminator, template
/// What is decoded many times before changes nothing.
#[unsafe(no_mangle)]
pub extern "C" fn h_many() {
    let (mask, n) = (arg(0), arg(1));
    let mut other = Vec::new();
    let mut b = Vec::new();
    let i = build(2, &mut other);
    build(i, &mut b);
    let r = wadec::decode_module(&b[..]);
    let mut a = new_tokens();
    result_tokens(&r, mask, &mut a);
    note(&r, &a);
    drop(r);
    let mut k = 0;
    while k < n {
        let o = wadec::decode_module(&other[..]);
        trace(o.is_ok() as u64);
        k += 1;
    }
    let r = wadec::decode_module(&b[..]);
    let mut e = new_tokens();
    result_tokens(&r, mask, &mut e);
    check_eq(&a, &e, A_STATE);
}

/// args: position of a byte, template. What an error says was expected there is what would have been accepted.
#[unsafe(no_mangle)]
pub extern "C" fn h_hint() {
    let p = arg(0) as usize;
    let mut b = Vec::new();
    build(1, &mut b);
    let r = wadec::decode_module(&b[..]);
    let mut a = new_tokens();
    result_tokens(&r, M_ERR, &mut a);
    note(&r, &a);
    let Err(err) = r else { return };
    let mut s = spec::Spec::new(&b);
    let _ = s.module();
    // the reference places the offending byte here
    let (Some(&tag), Some(&x)) = (a.get(a.len().wrapping_sub(2)), b.get(p)) else { return };
    if s.pos as usize != p + 1 || !matches!(tag, HDR_BAD | BAD_COMP | BAD_MUT | BAD_ABS | BAD_LIM | BAD_EXT | BAD_TAG | BAD_EXP | BAD_TBL | BAD_EK | BAD_CATCH | BAD_CAST) {
        return;
    }
    cover(11);
    let mut text = Text::default();
    let mut cur: Option<&dyn Error> = Some(&err);
    let mut links = 0;
    while let Some(e) = cur {
        if links > 32 {
            break;
        }
        let _ = write!(text, "{}", e);
        text.put(b" ");
        cur = e.source();
        links += 1;
    }
    drop(err);
    let y = byte();
    assume(y != x);
    let named = contains_hex(&text.0, y as u64);
    if let Some(q) = b.get_mut(p) {
        *q = y;
    }
    let r = wadec::decode_module(&b[..]);
    let mut e = new_tokens();
    result_tokens(&r, M_ERR, &mut e);
    let mut same = a.len() == e.len() && e.last() == Some(&(y as u64));
    if same {
        let mut d = 0;
        for (u, v) in a.iter().zip(&e).take(a.len() - 1) {
            d |= u ^ v;
        }
        same = d == 0;
    }
    if same {
        check(!named, A_HINT_WRONG);
    } else if !matches!(tag, BAD_COMP | BAD_ABS) {
        // (other encodings may begin where those two are looked for)
        check(named, A_HINT_MISSING);
    }
}

fn no_floats(b: &[u8]) -> bool {
    let mut ok = true;
    for x in b {
        ok &= (*x != 0x43) & (*x != 0x44);
    }
    ok
}
/// args: template. Modules are equal exactly when everything in them is (floating-point constants, which
/// follow their own equality, aside).
#[unsafe(no_mangle)]
pub extern "C" fn h_eq() {
    let mut b = Vec::new();
    let mut c = Vec::new();
    build(0, &mut b);
    build(0, &mut c);
    let r = wadec::decode_module(&b[..]);
    let mut a = new_tokens();
    result_tokens(&r, u64::MAX, &mut a);
    note(&r, &a);
    let Ok(m) = r else { return };
    if !no_floats(&b) {
        return;
    }
    let Ok(again) = wadec::decode_module(&b[..]) else { return check(false, A_SELF_EQ) };
    check(m == again, A_SELF_EQ);
    let Ok(n) = wadec::decode_module(&c[..]) else { return };
    if !no_floats(&c) {
        return;
    }
    let mut e = new_tokens();
    e.push(R_OK);
    ser::module(&n, u64::MAX, &mut e);
    let mut same = a.len() == e.len();
    if same {
        let mut d = 0;
        for (u, v) in a.iter().zip(&e) {
            d |= u ^ v;
        }
        same = d == 0;
    }
    cover(if same { 12 } else { 13 });
    check((m == n) == same, A_MODULE_EQ);
}

/// The runs of decimal digits in a text: where each begins and ends.
fn numbers(s: &[u8]) -> Vec<(usize, usize)> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let mut j = i;
        while let Some(c) = s.get(j) {
            if !c.is_ascii_digit() {
                break;
            }
            j += 1;
        }
        if j > i {
            o.push((i, j));
        }
        i = j + 1;
    }
    o
}
/// (no branch on the contents: some of it may be symbolic)
fn same_text(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for (x, y) in a.iter().zip(b) {
        d |= x ^ y;
    }
    d == 0
}
fn has(s: &[u8], t: &[u8]) -> bool {
    let mut f = false;
    let mut i = 0;
    while i + t.len() <= s.len() {
        if let Some(w) = s.get(i..i + t.len()) {
            f |= same_text(w, t);
        }
        i += 1;
    }
    f
}
fn shows_number(s: &[u8], v: &[u8]) -> bool {
    let mut f = false;
    for (i, j) in numbers(s) {
        f |= same_text(s.get(i..j).unwrap_or(&[]), v);
    }
    f
}
/// (written with the width it has in the decoder, so that equal numbers are equal terms)
fn dec(v: u64) -> Vec<u8> {
    if v <= u32::MAX as u64 { Text::of(format_args!("{}", v as u32)) } else { Text::of(format_args!("{v}")) }
}
/// first `a`, later `b`
fn shows_numbers(s: &[u8], a: &[u8], b: &[u8]) -> bool {
    let (mut f, mut seen) = (false, false);
    for (i, j) in numbers(s) {
        let n = s.get(i..j).unwrap_or(&[]);
        f |= seen & same_text(n, b);
        seen |= same_text(n, a);
    }
    f
}
/// some way in which a value may be written
fn shows_value(links: &[Vec<u8>], v: u64, byte: bool) -> bool {
    let mut f = false;
    let mut way = 0;
    while way < 5 {
        let (b, w) = (v as u8, v as u32);
        let t = match (way, byte) {
            (0, true) => Text::of(format_args!("{b:#04X}")),
            (0, false) => Text::of(format_args!("{w:#04X}")),
            (1, true) => Text::of(format_args!("{b}")),
            (1, false) => Text::of(format_args!("{w}")),
            (2, true) => Text::of(format_args!("{b:#X}")),
            (2, false) => Text::of(format_args!("{w:#X}")),
            (3, true) => Text::of(format_args!("{b:#04x}")),
            (3, false) => Text::of(format_args!("{w:#04x}")),
            (_, true) => Text::of(format_args!("{b:#x}")),
            (_, false) => Text::of(format_args!("{w:#x}")),
        };
        for l in links {
            f |= if way == 1 { shows_number(l, &t) } else { has(l, &t) };
        }
        if f {
            return true;
        }
        way += 1;
    }
    f
}
const KIND_NAMES: [&[u8]; 14] = [b"custom", b"type", b"import", b"function", b"table", b"memory", b"global", b"export", b"start", b"element", b"code", b"data", b"data", b"tag"];
/// where the name of a section kind ends in `s`, upper case and spaces aside, searched from `from` on
fn kind_in(s: &[u8], id: u64, from: usize) -> Option<usize> {
    let name = KIND_NAMES.get(id as usize)?;
    let mut i = from;
    while i < s.len() {
        let (mut j, mut k) = (i, 0);
        while let (Some(c), Some(n)) = (s.get(j), name.get(k)) {
            if k > 0 && (*c == b' ' || *c == b'_') {
                j += 1;
                continue;
            }
            if c.to_ascii_lowercase() != *n {
                break;
            }
            j += 1;
            k += 1;
        }
        if k == name.len() {
            // "data" is the data section, with a "count" behind it in the text the data count section
            if id != 11 && id != 12 {
                return Some(j);
            }
            let count = |x: &[u8]| x.get(..5).is_some_and(|x| x.eq_ignore_ascii_case(b"count"));
            let rest = s.get(j..).unwrap_or(&[]).trim_ascii_start();
            if id == 11 && !count(rest) {
                return Some(j);
            }
            let mut k = 0;
            while k < rest.len() {
                if id == 12 && rest.get(k..).is_some_and(count) {
                    return Some(s.len() - rest.len() + k + 5);
                }
                k += 1;
            }
        }
        i += 1;
    }
    None
}
/// args: template. The displayed chain of a rejection names the section, then each position, then what was found.
#[unsafe(no_mangle)]
pub extern "C" fn h_where() {
    let mut b = Vec::new();
    build(0, &mut b);
    let r = wadec::decode_module(&b[..]);
    note(&r, &[r.is_ok() as u64]);
    let Err(err) = r else { return };
    // (whether the error itself says what is wrong is another matter)
    let mut e = new_tokens();
    err.ser(&mut e);
    let mut links = Vec::new();
    let mut cur: Option<&dyn Error> = Some(&err);
    while let Some(x) = cur {
        links.push(Text::of(format_args!("{x}")));
        cur = x.source();
        if links.len() > 32 {
            break;
        }
    }
    let mut at = 0; // links up to here have been accounted for
    let mut i = 0;
    while let (Some(&t), v) = (e.get(i), e.get(i + 1).copied().unwrap_or(0)) {
        i += 1;
        let w = e.get(i + 1).copied().unwrap_or(0);
        match t {
            SEC => {
                i += 1;
                while links.get(at).is_some_and(|l| kind_in(l, v, 0).is_none()) {
                    at += 1;
                }
                check(at < links.len(), A_WHERE_SECTION);
            }
            POS => {
                i += 1;
                let n = Text::of(format_args!("{v}"));
                while links.get(at).is_some_and(|l| !shows_number(l, &n)) {
                    at += 1;
                }
                check(at < links.len(), A_WHERE_POSITION);
                at += 1;
            }
            SSM => {
                let got = e.get(i + 2).copied().unwrap_or(0);
                let (w, got) = (dec(w), dec(got));
                let mut f = false;
                for l in &links {
                    f |= kind_in(l, v, 0).is_some() && shows_numbers(l, &w, &got);
                }
                return check(f, A_WHERE_WHAT);
            }
            ESM => {
                let used = e.get(i + 2).copied().unwrap_or(0);
                let (v, used) = (dec(v), dec(used));
                let mut f = false;
                for l in &links {
                    f |= shows_numbers(l, &v, &used);
                }
                return check(f, A_WHERE_WHAT);
            }
            MANY => {
                let (v, w) = (Text::of(format_args!("{v}")), Text::of(format_args!("{w}")));
                let mut f = false;
                for l in &links {
                    f |= shows_numbers(l, &v, &w);
                }
                return check(f, A_WHERE_WHAT);
            }
            OOO => return check(links.iter().any(|l| kind_in(l, v, 0).is_some_and(|k| kind_in(l, w, k).is_some())), A_WHERE_WHAT),
            DUP => return check(links.iter().any(|l| kind_in(l, v, 0).is_some()), A_WHERE_WHAT),
            NEG => {
                let n = Text::of(format_args!("{}", v as i64));
                let mut f = false;
                for l in &links {
                    f |= has(l, &n);
                }
                return check(f, A_WHERE_WHAT);
            }
            PREBAD => {
                let mut f = true;
                for x in e.get(i..).unwrap_or(&[]) {
                    f &= shows_value(&links, *x, true);
                }
                return check(f, A_WHERE_WHAT);
            }
            HDR_BAD | BAD_COMP | BAD_MUT | BAD_ABS | BAD_LIM | BAD_EXT | BAD_TAG | BAD_EXP | BAD_TBL | BAD_EK | BAD_OP | BAD_CATCH | BAD_CAST => {
                return check(shows_value(links.get(at..).unwrap_or(&[]), v, true), A_WHERE_WHAT);
            }
            BAD_EL | BAD_D | BAD_FB | BAD_FC | BAD_FD | BAD_MEMARG => return check(shows_value(links.get(at..).unwrap_or(&[]), v, false), A_WHERE_WHAT),
            _ => {}
        }
    }
}

/// args: steps allowed per input byte, fixed allowance, template. The work done is in proportion to the input.
#[unsafe(no_mangle)]
pub extern "C" fn h_work() {
    let (per, fix) = (arg(0), arg(1));
    let mut b = Vec::new();
    build(2, &mut b);
    // natively the fastest of several attempts counts
    let mut left = if is_native() { 5 } else { 1 };
    let mut ok = false;
    while left > 0 {
        work_limit(per * b.len() as u64 + fix);
        let r = wadec::decode_module(&b[..]);
        ok = r.is_ok();
        drop(r);
        work_limit(0);
        left -= 1;
    }
    work_limit(u64::MAX);
    cover(if ok { C_OK } else { C_ERR });
    trace(ok as u64);
}

pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_tpl", h_tpl),
    ("h_nopanic", h_nopanic),
    ("h_alloc", h_alloc),
    ("h_trunc", h_trunc),
    ("h_chunk", h_chunk),
    ("h_fail", h_fail),
    ("h_custom", h_custom),
    ("h_render", h_render),
    ("h_twice", h_twice),
    ("h_many", h_many),
    ("h_hint", h_hint),
    ("h_eq", h_eq),
    ("h_where", h_where),
    ("h_work", h_work),
];
