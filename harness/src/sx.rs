//! Interface to the engine; natively implemented by the replay binary.
extern "C" {
    fn sx_sym(w: u32) -> u64;
    fn sx_bytes(p: *mut u8, n: usize);
    fn sx_concrete(v: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, p: *const u8, n: usize);
    fn sx_note(k: u64, v: u64);
    fn sx_cover(k: u32);
    fn sx_expect(n: u32);
    fn sx_panic_at(p: *const u8, n: usize, line: u32);
    fn sx_tmpdir(p: *mut u8) -> usize;
    fn sx_fs_fault(n: u64, kind: u64, arg: u64);
    fn sx_param(k: u32) -> u64;
    fn sx_live_heap() -> u64;
    fn sx_open_fds() -> u64;
    fn sx_maps() -> u64;
    fn sx_fs_ops() -> u64;
    fn sx_fs_count() -> u64;
}
/// Unconstrained value of `w` bits.
#[inline]
pub fn sym(w: u32) -> u64 {
    unsafe { sx_sym(w) }
}
/// Unconstrained value below `n`.
#[inline]
pub fn below(n: u64) -> u64 {
    let v = sym(if n <= 256 { 8 } else { 64 });
    assume(v < n);
    v
}
/// Value below `n`, one path per value.
#[inline]
pub fn choose(n: u64) -> usize {
    let v = below(n);
    concrete(v) as usize
}
#[inline]
pub fn concrete(v: u64) -> u64 {
    unsafe { sx_concrete(v) }
}
#[inline]
pub fn fill(b: &mut [u8]) {
    unsafe { sx_bytes(b.as_mut_ptr(), b.len()) }
}
#[inline]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline]
pub fn check(c: bool, m: &'static str) {
    unsafe { sx_assert(c, m.as_ptr(), m.len()) }
}
#[inline]
pub fn note(k: u64, v: u64) {
    unsafe { sx_note(k, v) }
}
#[inline]
pub fn cover(k: u32) {
    unsafe { sx_cover(k) }
}
pub fn tmpdir() -> std::path::PathBuf {
    let mut b = [0u8; 256];
    let n = unsafe { sx_tmpdir(b.as_mut_ptr()) };
    std::path::PathBuf::from(std::str::from_utf8(&b[..n]).unwrap())
}
pub const EIO: u64 = 0;
pub const SHORT: u64 = 1;
pub const CRASH: u64 = 2;
/// Looking a path up counts as an operation, too.
pub const STATS: u64 = 16;
pub const EINTR: u64 = 3;
pub const ENOSPC: u64 = 4;
/// Writes take no more than that many bytes from now on.
pub const SLOW: u64 = 5;
/// Make the n-th file system operation from now on fail (0: none).
pub fn fs_fault(n: u64, kind: u64, arg: u64) {
    unsafe { sx_fs_fault(n, kind, arg) }
}
/// Parameter of the run; 0 when not given.
pub fn param(k: u32) -> u64 {
    unsafe { sx_param(k) }
}
/// Live heap blocks, open descriptors, mappings.
pub fn resources() -> (u64, u64, u64) {
    unsafe { (sx_live_heap(), sx_open_fds(), sx_maps()) }
}
pub fn fs_ops() -> u64 {
    unsafe { sx_fs_ops() }
}
/// Directories and files below the scratch directory.
pub fn fs_count() -> (u64, u64) {
    let n = unsafe { sx_fs_count() };
    (n >> 32, n & 0xffff_ffff)
}
/// Call first in every harness; `n`: how many cover points must be reached.
pub fn begin(n: u32) {
    unsafe { sx_expect(n) }
    std::panic::set_hook(Box::new(|i| {
        let (f, l) = match i.location() {
            Some(l) => (l.file(), l.line()),
            None => ("?", 0),
        };
        unsafe { sx_panic_at(f.as_ptr(), f.len(), l) }
    }));
}
/// Outcome of `f`: None when it panicked.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
