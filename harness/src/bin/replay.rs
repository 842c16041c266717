//! Runs harness entries natively on recorded inputs (see ../../../lib/run.py).
//!
//! `replay JOBS SCRATCH`: one job per line,
//! `ID ENTRY:PARAM.. INPUT,INPUT.. KEY=VALUE,..`, `-` for an empty list.
//! Prints `ID ok`, `ID diverged WHY`, `ID assert MESSAGE` or `ID panic WHERE`.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

#[derive(Default)]
struct Ctx {
    params: Vec<u64>,
    inputs: Vec<u64>,
    at: usize,
    notes: Vec<(u64, u64)>,
    id: String,
    diverged: Option<String>,
    panic_at: String,
    dir: String,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
fn ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    let live = LIVE.load(Relaxed);
    let r = CTX.with(|c| f(&mut c.borrow_mut()));
    LIVE.store(live, Relaxed);
    r
}

// ---- allocation accounting -------------------------------------------------
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

// ---- harness interface -----------------------------------------------------
fn input(w: u32) -> u64 {
    ctx(|c| {
        let v = c.inputs.get(c.at).copied();
        c.at += 1;
        let v = v.unwrap_or_else(|| {
            if c.diverged.is_none() {
                c.diverged = Some("more inputs than recorded".into());
            }
            0
        });
        if w >= 64 { v } else { v & ((1 << w) - 1) }
    })
}
#[no_mangle]
unsafe extern "C" fn sx_sym(w: u32) -> u64 {
    input(w)
}
#[no_mangle]
unsafe extern "C" fn sx_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = input(8) as u8;
    }
}
#[no_mangle]
unsafe extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sx_assume(c: bool) {
    if !c {
        end("diverged", "assumption does not hold")
    }
}
#[no_mangle]
unsafe extern "C" fn sx_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        end("assert", &String::from_utf8_lossy(std::slice::from_raw_parts(p, n)))
    }
}
/// What follows a failed check has no meaning and may not end.
fn end(what: &str, why: &str) -> ! {
    use std::io::Write;
    println!("{} {} {}", ctx(|x| x.id.clone()), what, why);
    let _ = std::io::stdout().flush();
    unsafe { _exit(0) }
}
#[no_mangle]
unsafe extern "C" fn sx_note(k: u64, v: u64) {
    ctx(|x| x.notes.push((k, v)))
}
#[no_mangle]
unsafe extern "C" fn sx_cover(_: u32) {}
#[no_mangle]
unsafe extern "C" fn sx_expect(_: u32) {}
#[no_mangle]
unsafe extern "C" fn sx_panic_at(p: *const u8, n: usize, line: u32) {
    ctx(|x| {
        let f = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
        x.panic_at = format!("{}:{}", f, line)
    })
}
#[no_mangle]
unsafe extern "C" fn sx_param(k: u32) -> u64 {
    ctx(|x| x.params.get(k as usize).copied().unwrap_or(0))
}
#[no_mangle]
unsafe extern "C" fn sx_tmpdir(p: *mut u8) -> usize {
    ctx(|x| {
        std::ptr::copy(x.dir.as_ptr(), p, x.dir.len());
        x.dir.len()
    })
}
#[no_mangle]
unsafe extern "C" fn sx_live_heap() -> u64 {
    LIVE.load(Relaxed) as u64
}
#[no_mangle]
unsafe extern "C" fn sx_open_fds() -> u64 {
    FDS.iter().filter(|f| f.load(Relaxed) != 0).count() as u64
}
#[no_mangle]
unsafe extern "C" fn sx_maps() -> u64 {
    MAPS.load(Relaxed) as u64
}
#[no_mangle]
unsafe extern "C" fn sx_fs_fault(n: u64, kind: u64, arg: u64) {
    FAULT.store(n as i64, Relaxed);
    KIND.store((kind & 15) as i64, Relaxed);
    STATS.store((kind & 16) as i64, Relaxed);
    ARG.store(arg as i64, Relaxed);
    OPS.store(0, Relaxed);
    CRASHED.store(0, Relaxed);
}
#[no_mangle]
unsafe extern "C" fn sx_fs_ops() -> u64 {
    OPS.load(Relaxed) as u64
}
fn count(d: &std::path::Path) -> u64 {
    let mut n = 0;
    for e in std::fs::read_dir(d).unwrap() {
        let e = e.unwrap();
        n += if e.file_type().unwrap().is_dir() {
            (1 << 32) + count(&e.path())
        } else {
            1
        };
    }
    n
}
#[no_mangle]
unsafe extern "C" fn sx_fs_count() -> u64 {
    let live = LIVE.load(Relaxed);
    let n = count(ctx(|x| x.dir.clone()).as_ref());
    LIVE.store(live, Relaxed);
    n
}

// ---- faults on the scratch directory ---------------------------------------
static FAULT: AtomicI64 = AtomicI64::new(0);
static KIND: AtomicI64 = AtomicI64::new(0);
static STATS: AtomicI64 = AtomicI64::new(0);
static ARG: AtomicI64 = AtomicI64::new(0);
static OPS: AtomicI64 = AtomicI64::new(0);
static CRASHED: AtomicI64 = AtomicI64::new(0);
static MAPS: AtomicI64 = AtomicI64::new(0);
// 0: not ours, 1: a file of the scratch directory, 2: a stand-in after a crash
static FDS: [AtomicUsize; 1024] = [const { AtomicUsize::new(0) }; 1024];
static PREFIX: RootPrefix = RootPrefix(std::cell::UnsafeCell::new(([0; 256], 0)));
struct RootPrefix(std::cell::UnsafeCell<([u8; 256], usize)>);
unsafe impl Sync for RootPrefix {}

unsafe fn ours(p: *const c_char) -> bool {
    let (b, n) = &*PREFIX.0.get();
    *n > 0 && CStr::from_ptr(p).to_bytes().starts_with(&b[..*n])
}
/// A job is running and may not change files elsewhere.
unsafe fn confined() -> bool {
    (*PREFIX.0.get()).1 > 0
}
fn tracked(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < 1024 && FDS[fd as usize].load(Relaxed) != 0
}
enum Gate {
    Go(usize),
    Skip,
    Fail(c_int),
}
fn gate(write: bool, n: usize) -> Gate {
    if CRASHED.load(Relaxed) != 0 {
        return Gate::Skip;
    }
    OPS.fetch_add(1, Relaxed);
    if FAULT.load(Relaxed) == 0 {
        return Gate::Go(n);
    }
    if FAULT.fetch_sub(1, Relaxed) != 1 {
        return Gate::Go(n);
    }
    let arg = ARG.load(Relaxed) as usize;
    match KIND.load(Relaxed) {
        1 if write => Gate::Go(n.min(arg)),
        1 => Gate::Go(n),
        2 => {
            CRASHED.store(1, Relaxed);
            if write && arg > 0 && n > 0 { Gate::Go(n.min(arg)) } else { Gate::Skip }
        }
        3 => Gate::Fail(4),
        4 => {
            FAULT.store(1, Relaxed);
            Gate::Fail(28)
        }
        5 => {
            FAULT.store(1, Relaxed);
            Gate::Go(if write { n.min(arg) } else { n })
        }
        _ => Gate::Fail(5),
    }
}
extern "C" {
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
    fn _exit(code: c_int) -> !;
}
unsafe fn fail(e: c_int) -> isize {
    *__errno_location() = e;
    -1
}
macro_rules! real {
    ($name:literal, $($t:ty),* => $r:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = dlsym(-1isize as *mut c_void, $name.as_ptr()) as usize;
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}
unsafe fn open_any(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let f = real!(c"open64", *const c_char, c_int, u32 => c_int);
    if !ours(path) {
        if confined() && flags & 0x643 != 0 {
            return fail(13) as c_int;
        }
        return f(path, flags, mode);
    }
    match gate(false, 0) {
        Gate::Fail(e) => fail(e) as c_int,
        Gate::Skip if flags & 0x240 != 0 => {
            let fd = f(c"/dev/null".as_ptr(), 2 | 0x80000, 0);
            FDS[fd as usize].store(2, Relaxed);
            fd
        }
        _ => {
            let fd = f(path, flags, mode);
            if fd >= 0 {
                FDS[fd as usize].store(1, Relaxed);
            }
            fd
        }
    }
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_any(path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_any(path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < 1024 {
        FDS[fd as usize].store(0, Relaxed);
    }
    real!(c"close", c_int => c_int)(fd)
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    let f = real!(c"write", c_int, *const c_void, usize => isize);
    if !tracked(fd) {
        return f(fd, p, n);
    }
    match gate(true, n) {
        Gate::Fail(e) => fail(e),
        Gate::Skip => n as isize,
        Gate::Go(0) => 0,
        Gate::Go(k) => {
            let r = f(fd, p, k);
            if CRASHED.load(Relaxed) != 0 { n as isize } else { r }
        }
    }
}
#[no_mangle]
unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: usize, o: i64) -> isize {
    let f = real!(c"pwrite64", c_int, *const c_void, usize, i64 => isize);
    if !tracked(fd) {
        return f(fd, p, n, o);
    }
    match gate(true, n) {
        Gate::Fail(e) => fail(e),
        Gate::Skip => n as isize,
        Gate::Go(0) => 0,
        Gate::Go(k) => {
            let r = f(fd, p, k, o);
            if CRASHED.load(Relaxed) != 0 { n as isize } else { r }
        }
    }
}
#[repr(C)]
struct IoVec {
    p: *const c_void,
    n: usize,
}
#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, cnt: c_int) -> isize {
    if !tracked(fd) {
        return real!(c"writev", c_int, *const IoVec, c_int => isize)(fd, v, cnt);
    }
    let f = real!(c"write", c_int, *const c_void, usize => isize);
    let v = std::slice::from_raw_parts(v, cnt as usize);
    let full: usize = v.iter().map(|x| x.n).sum();
    let mut left = match gate(true, full) {
        Gate::Fail(e) => return fail(e),
        Gate::Skip => return full as isize,
        Gate::Go(k) => k,
    };
    let mut done = 0;
    for x in v {
        let k = x.n.min(left);
        if k > 0 {
            let r = f(fd, x.p, k);
            if r < 0 {
                return r;
            }
            left -= r as usize;
            done += r;
        }
    }
    if CRASHED.load(Relaxed) != 0 { full as isize } else { done }
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    if tracked(fd) {
        if let Gate::Fail(e) = gate(false, n) {
            return fail(e);
        }
    }
    real!(c"read", c_int, *mut c_void, usize => isize)(fd, p, n)
}
#[no_mangle]
unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    if tracked(fd) {
        if let Gate::Fail(e) = gate(false, 0) {
            return fail(e) as i64;
        }
    }
    real!(c"lseek64", c_int, i64, c_int => i64)(fd, o, w)
}
#[no_mangle]
unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if tracked(fd) {
        match gate(false, 0) {
            Gate::Fail(e) => return fail(e) as c_int,
            Gate::Skip => return 0,
            _ => {}
        }
    }
    real!(c"ftruncate64", c_int, i64 => c_int)(fd, n)
}
#[no_mangle]
unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if tracked(fd) {
        if let Gate::Fail(e) = gate(false, 0) {
            return fail(e) as c_int;
        }
        return 0;
    }
    real!(c"fsync", c_int => c_int)(fd)
}
#[no_mangle]
unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int {
    if tracked(fd) {
        if let Gate::Fail(e) = gate(false, 0) {
            return fail(e) as c_int;
        }
    }
    real!(c"fstat64", c_int, *mut c_void => c_int)(fd, b)
}
/// Unavailable in the model; std falls back to `stat`.
#[no_mangle]
unsafe extern "C" fn statx(_: c_int, _: *const c_char, _: c_int, _: u32, _: *mut c_void) -> c_int {
    fail(38) as c_int
}
macro_rules! path_op {
    ($name:ident, $c:literal $(, $a:ident: $t:ty)*) => {
        #[no_mangle]
        unsafe extern "C" fn $name(p: *const c_char $(, $a: $t)*) -> c_int {
            if ours(p) {
                match gate(false, 0) {
                    Gate::Fail(e) => return fail(e) as c_int,
                    Gate::Skip => return 0,
                    _ => {}
                }
            }
            if confined() && !ours(p) {
                return fail(13) as c_int;
            }
            real!($c, *const c_char $(, $t)* => c_int)(p $(, $a)*)
        }
    };
}
macro_rules! stat_op {
    ($name:ident, $c:literal) => {
        #[no_mangle]
        unsafe extern "C" fn $name(p: *const c_char, b: *mut c_void) -> c_int {
            if STATS.load(Relaxed) != 0 && ours(p) {
                if let Gate::Fail(e) = gate(false, 0) {
                    return fail(e) as c_int;
                }
            }
            real!($c, *const c_char, *mut c_void => c_int)(p, b)
        }
    };
}
stat_op!(stat64, c"stat64");
stat_op!(lstat64, c"lstat64");
path_op!(mkdir, c"mkdir", m: u32);
path_op!(unlink, c"unlink");
path_op!(rename, c"rename", q: *const c_char);
unsafe fn mmap_any(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    let t = tracked(fd) && n > 0;
    if t {
        if let Gate::Fail(e) = gate(false, 0) {
            return fail(e) as *mut c_void;
        }
    }
    let r = real!(c"mmap64", *mut c_void, usize, c_int, c_int, c_int, i64 => *mut c_void)(a, n, p, f, fd, o);
    if t && r as isize != -1 {
        MAPS.fetch_add(1, Relaxed);
        let mut i = 0;
        while i < 4096 && MAPPED[i].load(Relaxed) != 0 {
            i += 1;
        }
        if i < 4096 {
            MAPPED[i].store(r as usize, Relaxed);
        }
    }
    r
}
static MAPPED: [AtomicUsize; 4096] = [const { AtomicUsize::new(0) }; 4096];
#[no_mangle]
unsafe extern "C" fn mmap64(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    mmap_any(a, n, p, f, fd, o)
}
#[no_mangle]
unsafe extern "C" fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    mmap_any(a, n, p, f, fd, o)
}
#[no_mangle]
unsafe extern "C" fn munmap(a: *mut c_void, n: usize) -> c_int {
    for m in MAPPED.iter() {
        if a as usize != 0 && m.load(Relaxed) == a as usize {
            m.store(0, Relaxed);
            MAPS.fetch_sub(1, Relaxed);
        }
    }
    real!(c"munmap", *mut c_void, usize => c_int)(a, n)
}

// ---- driver ----------------------------------------------------------------
fn list(s: &str) -> Vec<&str> {
    if s == "-" { vec![] } else { s.split(',').collect() }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let jobs = std::fs::read_to_string(&a[1]).unwrap();
    for (n, line) in jobs.lines().enumerate() {
        let f: Vec<&str> = line.split(' ').collect();
        let mut spec = f[1].split(':');
        let name = spec.next().unwrap();
        let entry = match fdh::TABLE.iter().find(|t| t.0 == name) {
            Some(t) => t.1,
            None => {
                println!("{} diverged no such entry", f[0]);
                continue;
            }
        };
        let dir = format!("{}/{}", a[2], n);
        std::fs::create_dir_all(&dir).unwrap();
        let want: Vec<(u64, u64)> = list(f[3])
            .iter()
            .map(|x| {
                let (k, v) = x.split_once('=').unwrap();
                (k.parse().unwrap(), v.parse().unwrap())
            })
            .collect();
        let c = Ctx {
            params: spec.map(|p| p.parse().unwrap()).collect(),
            inputs: list(f[2]).iter().map(|x| x.parse().unwrap()).collect(),
            dir: dir.clone(),
            id: f[0].into(),
            ..Ctx::default()
        };
        let total = c.inputs.len();
        CTX.with(|x| *x.borrow_mut() = c);
        unsafe {
            let p = &mut *PREFIX.0.get();
            p.0[..dir.len()].copy_from_slice(dir.as_bytes());
            p.1 = dir.len();
            sx_fs_fault(0, 0, 0);
        }
        LIVE.store(0, Relaxed);
        println!("{} start", f[0]);
        let r = std::panic::catch_unwind(entry);
        unsafe {
            sx_fs_fault(0, 0, 0);
            (*PREFIX.0.get()).1 = 0;
        }
        let _ = std::panic::take_hook();
        std::panic::set_hook(Box::new(|_| {}));
        let c = CTX.with(|x| std::mem::take(&mut *x.borrow_mut()));
        if r.is_err() {
            println!("{} panic {}", f[0], c.panic_at);
        } else if let Some(m) = c.diverged {
            println!("{} diverged {}", f[0], m);
        } else if c.at != total {
            println!("{} diverged {} of {} inputs used", f[0], c.at, total);
        } else if c.notes != want {
            let i = c.notes.iter().zip(&want).position(|(x, y)| x != y);
            println!("{} diverged notes {:?} {:?} {:?}", f[0], i, c.notes.get(i.unwrap_or(0)), want.get(i.unwrap_or(0)));
        } else {
            println!("{} ok", f[0]);
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}
