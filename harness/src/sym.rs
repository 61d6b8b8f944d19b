//! Interface to the symbolic executor (or, natively, to the replay driver).
unsafe extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(x: bool);
    fn sym_assert(x: bool, id: u64);
    fn sym_assert_eq(a: *const u64, b: *const u64, n: usize, id: u64);
    fn sym_cover(id: u64);
    fn sym_trace(v: u64);
    fn sym_alloc_limit(n: u64);
    fn sym_work_limit(n: u64);
    fn sym_concretize(x: u64) -> u64;
    fn sym_is_native() -> u64;
    fn sym_peak() -> u64;
    fn sym_depth() -> u64;
    fn sym_arg(i: u64) -> u64;
}
/// Fills `b` with arbitrary (symbolic) bytes.
pub fn bytes(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    bytes(&mut b);
    b[0]
}
pub fn assume(x: bool) {
    unsafe { sym_assume(x) }
}
pub fn check(x: bool, id: u64) {
    unsafe { sym_assert(x, id) }
}
/// Asserts that two token streams are equal, word by word, and equally long.
pub fn check_eq(a: &[u64], b: &[u64], id: u64) {
    check(a.len() == b.len(), id);
    if a.len() == b.len() {
        unsafe { sym_assert_eq(a.as_ptr(), b.as_ptr(), a.len(), id) }
    }
}
pub fn cover(id: u64) {
    unsafe { sym_cover(id) }
}
pub fn trace(v: u64) {
    unsafe { sym_trace(v) }
}
pub fn alloc_limit(n: u64) {
    unsafe { sym_alloc_limit(n) }
}
/// From here on at most `n` steps (machine instructions, roughly); 0: until here; u64::MAX: that was all.
pub fn work_limit(n: u64) {
    unsafe { sym_work_limit(n) }
}
pub fn concretize(x: u64) -> u64 {
    unsafe { sym_concretize(x) }
}
pub fn is_native() -> bool {
    unsafe { sym_is_native() != 0 }
}
pub fn peak() -> u64 {
    unsafe { sym_peak() }
}
pub fn depth() -> u64 {
    unsafe { sym_depth() }
}
/// The i-th argument of the job; u64::MAX beyond the last.
pub fn arg(i: u64) -> u64 {
    unsafe { sym_arg(i) }
}

/// Collects text. How long a piece is and where it lies may depend on the input (a name looked up in
/// a table): each possibility is taken up separately.
#[derive(Default)]
pub struct Text(pub Vec<u8>);
impl Text {
    pub fn put(&mut self, b: &[u8]) {
        let n = concretize(b.len() as u64) as usize;
        let p = concretize(b.as_ptr() as u64) as *const u8;
        let b = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } };
        self.0.extend_from_slice(b);
    }
    pub fn of(a: std::fmt::Arguments<'_>) -> Vec<u8> {
        let mut t = Text(Vec::new());
        let _ = std::fmt::Write::write_fmt(&mut t, a);
        t.0
    }
}
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.put(s.as_bytes());
        Ok(())
    }
}
