//! What the command line program sees of the outside: its arguments, its input, its two output
//! streams and its exit status.
use harness::sym::Text;
use std::cell::UnsafeCell;
use std::fmt;
use std::io::{self, BufRead, Read};

unsafe extern "C-unwind" {
    fn sym_done() -> !;
}

pub const OPEN: u64 = 1; // the input cannot be opened
pub const READ: u64 = 2; // reading it fails after `at` bytes

pub struct World {
    pub input: Vec<u8>,
    pub fail: u64,
    pub at: usize,
    pub kind: io::ErrorKind,
    pub verbose: bool,
    pub out: Text,
    pub err: Text,
    pub finish: fn(i32),
}
struct Global(UnsafeCell<Option<World>>);
unsafe impl Sync for Global {}
static W: Global = Global(UnsafeCell::new(None));

/// There is one thread and no two borrows overlap.
pub fn get() -> &'static mut World {
    match unsafe { &mut *W.0.get() } {
        Some(w) => w,
        None => unreachable!(),
    }
}
pub fn set(w: World) {
    unsafe { *W.0.get() = Some(w) }
}
pub fn take() -> Option<World> {
    unsafe { (*W.0.get()).take() }
}

/// The process ends: what the world has seen is judged, and nothing runs afterwards.
pub fn exit(code: i32) -> ! {
    let f = get().finish;
    f(code);
    unsafe { sym_done() }
}

pub struct Put(pub bool);
impl Put {
    pub fn bytes(&mut self, b: &[u8]) {
        let w = get();
        if self.0 { w.err.put(b) } else { w.out.put(b) }
    }
}
impl fmt::Write for Put {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}
pub fn put(err: bool, a: fmt::Arguments<'_>) {
    let _ = fmt::Write::write_fmt(&mut Put(err), a);
}

/// The program's input, as a file that may fail.
pub struct Input {
    b: Vec<u8>,
    pos: usize,
    fail: Option<io::ErrorKind>,
}
impl Input {
    pub fn open(w: &World) -> io::Result<Input> {
        if w.fail == OPEN {
            return Err(w.kind.into());
        }
        let mut b = Vec::new();
        b.extend_from_slice(&w.input);
        if w.fail == READ {
            b.truncate(w.at);
        }
        Ok(Input { b, pos: 0, fail: if w.fail == READ { Some(w.kind) } else { None } })
    }
}
impl Read for Input {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let rest = self.b.get(self.pos..).unwrap_or(&[]);
        let n = buf.len().min(rest.len());
        if n == 0 && !buf.is_empty() {
            if let Some(k) = self.fail {
                return Err(k.into());
            }
        }
        if let (Some(d), Some(s)) = (buf.get_mut(..n), rest.get(..n)) {
            d.copy_from_slice(s);
        }
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Input {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let rest = self.b.get(self.pos..).unwrap_or(&[]);
        if rest.is_empty() {
            if let Some(k) = self.fail {
                return Err(k.into());
            }
        }
        Ok(rest)
    }
    fn consume(&mut self, n: usize) {
        self.pos = (self.pos + n).min(self.b.len());
    }
}
