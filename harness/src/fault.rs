//! C13: failing storage. C14: crashes. C19: writers that are not closed.
use crate::ext::*;
use crate::rec::*;
use crate::res::M17;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;

/// What a writer is told to store, and what it accepted.
pub struct Plan {
    /// Values of all fields of all records.
    recs: Vec<Vec<u64>>,
    bytes: Vec<u8>,
    archive: Option<crate::arch::Content>,
    /// The records of each item of a multivector.
    shape: Vec<Vec<usize>>,
    schema: &'static str,
}
/// The name of the resource.
fn name() -> &'static str {
    if param(0) == 7 {
        "res_index"
    } else {
        "res"
    }
}
/// The records whose append was reported as successful.
#[derive(Default)]
pub struct Done {
    recs: Vec<usize>,
    items: Vec<Vec<usize>>,
    /// Whether the process is dead and only thinks it continues.
    ghost: bool,
}
/// Values of a record as they read back.
fn values<T: Rec>() -> Vec<u64> {
    let mut b = StructBuf::<T>::new();
    {
        let mut m = b.get_mut();
        for k in 0..T::FIELDS.len() {
            T::set(&mut m, k, sym(64));
        }
    }
    let m = b.get_mut();
    (0..T::FIELDS.len()).map(|k| T::get_mut(&m, k)).collect()
}
fn put<T: Rec>(m: &mut <T as Struct<'_>>::ItemMut, v: &[u64]) {
    for k in 0..T::FIELDS.len() {
        T::set(m, k, v[k]);
    }
}
fn same<T: Rec>(r: &<T as Struct<'_>>::Item, v: &[u64]) -> bool {
    (0..T::FIELDS.len()).all(|k| T::get(r, k) == v[k])
}

/// The scenario named by param(0): what is written and how.
pub fn plan() -> Plan {
    let mut p = Plan { recs: vec![], bytes: vec![], archive: None, shape: vec![], schema: "schema" };
    match param(0) {
        0 | 7 => {
            p.bytes = vec![0; [0, 1, 9][choose(3)]];
            fill(&mut p.bytes);
        }
        8 => {
            p.bytes = vec![5; [70000, 65536][choose(2)]];
            for i in [0, 4095, 32768, 65535] {
                p.bytes[i] = sym(8) as u8;
            }
        }
        1 => p.recs = (0..choose(3)).map(|_| values::<B3>()).collect(),
        2 => p.recs = (0..3).map(|_| values::<M17>()).collect(),
        3 => p.recs = (0..3).map(|_| values::<B3>()).collect(),
        4 => p.recs = (0..2).map(|_| values::<M40>()).collect(),
        6 => p.archive = Some(crate::arch::content(1)),
        _ => p.recs = (0..3).map(|_| values::<B3>()).collect(),
    }
    let shape: &[&[usize]] = match param(0) {
        3 => &SMALL,
        4 => &LARGE,
        5 => &SPARSE,
        _ => &[],
    };
    p.shape = shape.iter().map(|i| i.to_vec()).collect();
    p
}
/// Another number of records, or other items of the same records.
fn vary(p: &mut Plan) {
    match param(0) {
        2 => p.recs.truncate([3, 1][choose(2)]),
        3 => match choose(3) {
            0 => (),
            1 => p.shape = vec![vec![], vec![2], vec![0, 1]],
            _ => p.shape = vec![vec![0], vec![], vec![1], vec![], vec![2]],
        },
        4 if choose(2) == 1 => p.shape = vec![vec![], vec![0], vec![], vec![1]],
        5 if choose(2) == 1 => p.shape = vec![vec![], vec![0, 1, 2]],
        _ => (),
    }
}
/// Runs `$e`; a failure ends the function unless the writer carries on.
macro_rules! step {
    ($ok:ident, $carry:expr, $e:expr) => {
        match $e {
            Ok(v) => Some(v),
            Err(_) => {
                $ok = false;
                if !$carry {
                    return false;
                }
                None
            }
        }
    };
}
fn run_vector<T: Rec>(s: &Storage, p: &Plan, carry: bool, done: &mut Done) -> bool {
    let mut ok = true;
    if let Some(mut v) = step!(ok, carry, create_external_vector::<T>(&**s, name(), p.schema)) {
        for (i, r) in p.recs.iter().enumerate() {
            if let Some(mut m) = step!(ok, carry, v.grow()) {
                put::<T>(&mut m, r);
                done.recs.push(i);
            }
        }
        let view = step!(ok, carry, v.close());
        if let (Some(view), false) = (view, done.ghost) {
            check(view.len() == done.recs.len(), "records in the returned array");
            for (k, i) in done.recs.iter().enumerate() {
                check(same::<T>(&view.at(k), &p.recs[*i]), "record in the returned array");
            }
        }
    }
    ok
}
fn run_multi<I: for<'a> IndexStruct<'a>>(
    s: &Storage, p: &Plan, carry: bool, done: &mut Done,
) -> bool {
    let mut ok = true;
    if let Some(mut v) = step!(ok, carry, create_multi_vector::<I, Large>(&**s, "res", p.schema)) {
        for item in &p.shape {
            if let Some(mut b) = step!(ok, carry, v.grow()) {
                for i in item {
                    if p.recs[*i].len() == 2 {
                        put::<M40>(&mut b.add_m40(), &p.recs[*i]);
                    } else {
                        put::<B3>(&mut b.add_b3(), &p.recs[*i]);
                    }
                }
                done.items.push(item.clone());
            }
        }
        let view = step!(ok, carry, v.close());
        if let (Some(view), false) = (view, done.ghost) {
            multi_is(&view, p, &done.items);
        }
    }
    ok
}
fn multi_is<I: for<'a> IndexStruct<'a>>(v: &MultiArrayView<I, Large>, p: &Plan, items: &[Vec<usize>]) {
    check(multi_eq(v, p, items), "items");
}
fn multi_eq<I: for<'a> IndexStruct<'a>>(v: &MultiArrayView<I, Large>, p: &Plan, items: &[Vec<usize>]) -> bool {
    if v.len() != items.len() {
        return false;
    }
    for (k, item) in items.iter().enumerate() {
        let mut it = v.at(k);
        for i in item {
            let ok = match it.next() {
                Some(RefLarge::B3(x)) => p.recs[*i].len() != 2 && same::<B3>(&x, &p.recs[*i]),
                Some(RefLarge::M40(x)) => p.recs[*i].len() == 2 && same::<M40>(&x, &p.recs[*i]),
                _ => false,
            };
            if !ok {
                return false;
            }
        }
        if it.next().is_some() {
            return false;
        }
    }
    true
}
const SMALL: [&[usize]; 3] = [&[0, 1], &[], &[2]];
const LARGE: [&[usize]; 3] = [&[0], &[], &[1]];
const SPARSE: [&[usize]; 3] = [&[0], &[], &[1, 2]];

/// The part before anything can fail.
pub fn write(s: &Storage, p: &Plan, carry: bool, done: &mut Done) -> bool {
    match param(0) {
        0 | 7 | 8 => s.write(name(), p.schema, &p.bytes).is_ok(),
        1 => run_vector::<B3>(s, p, carry, done),
        2 => run_vector::<M17>(s, p, carry, done),
        3 => run_multi::<Idx16>(s, p, carry, done),
        4 => run_multi::<Idx40>(s, p, carry, done),
        6 => crate::arch::run(s, p.archive.as_ref().unwrap(), carry),
        _ => run_multi::<IdxM17>(s, p, carry, done),
    }
}
/// All records of the plan as accepted.
fn all(p: &Plan) -> Done {
    Done {
        recs: (0..p.recs.len()).collect(),
        items: p.shape.clone(),
        ghost: false,
    }
}
fn vector_eq<T: Rec>(b: &[u8], p: &Plan, done: &Done) -> bool {
    let v: ArrayView<T> = ArrayView::new(b);
    b.len() == done.recs.len() * T::SIZE_IN_BYTES
        && done.recs.iter().enumerate().all(|(k, i)| same::<T>(&v.at(k), &p.recs[*i]))
}
fn index_eq<I: for<'a> IndexStruct<'a>>(i: &[u8], done: &Done) -> bool {
    i.len() / I::SIZE_IN_BYTES == done.items.len() + 1
}
fn data_eq(d: &[u8], p: &Plan, done: &Done) -> bool {
    let size = |i: &usize| 1 + if p.recs[*i].len() == 2 { M40::SIZE_IN_BYTES } else { B3::SIZE_IN_BYTES };
    d.len() == done.items.iter().flatten().map(size).sum::<usize>()
}
fn multi_content<I: for<'a> IndexStruct<'a>>(s: &Storage, p: &Plan, done: &Done) -> Option<bool> {
    let i = s.read("res_index", &format!("index({})", p.schema));
    let d = s.read("res", p.schema);
    match (i, d) {
        (Ok(i), Ok(d)) => Some(
            index_eq::<I>(i, done)
                && data_eq(d, p, done)
                && multi_eq(&MultiArrayView::<I, Large>::new(ArrayView::new(i), d), p, &done.items),
        ),
        // one part alone is no use, but not wrong
        (Ok(i), _) if !index_eq::<I>(i, done) => Some(false),
        (_, Ok(d)) if !data_eq(d, p, done) => Some(false),
        _ => None,
    }
}
/// Whether the resource is what was accepted, if it opens.
fn content(s: &Storage, p: &Plan, done: &Done) -> Option<bool> {
    match param(0) {
        0 | 7 | 8 => s.read(name(), p.schema).ok().map(|b| *b == p.bytes[..]),
        1 => s.read("res", p.schema).ok().map(|b| vector_eq::<B3>(b, p, done)),
        2 => s.read("res", p.schema).ok().map(|b| vector_eq::<M17>(b, p, done)),
        3 => multi_content::<Idx16>(s, p, done),
        4 => multi_content::<Idx40>(s, p, done),
        6 => Some(true).filter(|_| crate::arch::opens(s, p.archive.as_ref().unwrap())),
        _ => multi_content::<IdxM17>(s, p, done),
    }
}
/// Whether the resource opens; checks that it then is what was accepted.
pub fn opens(s: &Storage, p: &Plan, done: &Done) -> bool {
    let c = content(s, p, done);
    check(c != Some(false), "a resource that opens is what was accepted");
    c.is_some()
}
pub fn files(name: &str) -> Storage {
    FileResourceStorage::new(tmpdir().join(name))
}
/// The number of operations without faults.
fn count(p: &Plan) -> u64 {
    fs_fault(0, 0, 0);
    let mut done = Done::default();
    let s = files("clean");
    check(write(&s, p, false, &mut done), "writing succeeds");
    let n = fs_ops();
    check(n >= 5, "operations are seen");
    check(opens(&s, p, &all(p)), "the resource opens");
    n
}

// ---- C13 --------------------------------------------------------------------
const SHORTS: [u64; 6] = [0, 8, 1, 2, 7, 100];
/// One operation on the files fails.
#[no_mangle]
pub fn c13_files() {
    begin(3);
    let p = plan();
    let n = count(&p);
    let at = choose(n) as u64 + 1;
    let carry = choose(2) == 1;
    // fewer kinds where much data is written
    let few = [2, 4, 5].contains(&param(0)) && param(1) == 0;
    let (kind, arg) = match choose(if few { 4 } else { 5 }) {
        0 => (EIO, 0),
        1 => (ENOSPC, 0),
        2 => (SHORT, SHORTS[choose(if few { 2 } else { 6 })]),
        3 if few => (SLOW, 0),
        3 if param(0) == 8 => (SLOW, [0, 40000][choose(2)]),
        3 => (SLOW, [0, 1, 7][choose(3)]),
        _ => (EINTR, 0),
    };
    let mut done = Done::default();
    fs_fault(at, kind, arg);
    let ok = {
        let s = files("data");
        write(&s, &p, carry, &mut done)
    };
    fs_fault(0, 0, 0);
    let s = files("data");
    let opened = opens(&s, &p, &done);
    if ok {
        check(opened, "what was reported as written opens");
        cover(0);
    } else {
        cover(1);
        if !opened {
            cover(2);
        }
    }
    note(1, ok as u64);
    note(2, opened as u64);
}

/// One operation fails while an earlier version is replaced.
#[no_mangle]
pub fn c13_replace() {
    begin(3);
    replace(|n| {
        let few = [2, 4, 5].contains(&param(0));
        match choose(if few { 2 } else { 3 }) {
            0 => fs_fault(n, EIO, 0),
            1 => fs_fault(n, SHORT, SHORTS[choose(if few { 2 } else { 6 })]),
            _ => fs_fault(n, EINTR, 0),
        }
    });
}
fn replace(fault: impl FnOnce(u64)) {
    let mut old = plan();
    vary(&mut old);
    // the earlier version may be of another kind
    let few = [2, 4, 5].contains(&param(0));
    old.schema = ["schema", "earlier schema", "", "schemb"][choose(if few { 2 } else { 4 })];
    let p = plan();
    let other = old.schema != p.schema;
    let n = count(&p);
    let accepted = all(&old);
    check(write(&files("data"), &old, false, &mut Done::default()), "writing succeeds");
    fault(choose(n) as u64 + 1);
    let crash = param(1) > 0;
    let mut done = Done { ghost: crash, ..Done::default() };
    let ok = {
        let s = files("data");
        // what a dead process thinks does not matter
        catch(|| write(&s, &p, crash, &mut done)).unwrap_or_else(|| {
            check(crash, "no panic");
            false
        })
    };
    fs_fault(0, 0, 0);
    if crash {
        done = all(&p);
    }
    let s = files("data");
    let c = content(&s, &p, &done);
    if other {
        let o = content(&s, &old, &accepted);
        check(o != Some(false), "with the earlier schema only the earlier version opens");
        check(o.is_none() || !ok || crash, "the earlier version was replaced");
        check(c != Some(false), "with the new schema only the new version opens");
    }
    if ok && !crash {
        check(c == Some(true), "what was reported as written opens");
        cover(0);
    } else if c.is_none() {
        cover(1);
    } else if c == Some(true) {
        cover(if crash { 0 } else { 2 });
    } else {
        check(content(&s, &old, &accepted) != Some(false), "a resource that opens is the earlier or the new version");
        cover(2);
    }
}

/// Files in memory with streams that fail.
struct Disk {
    files: RefCell<BTreeMap<String, Vec<u8>>>,
    /// For each operation from now on: nothing, or how it fails.
    faults: RefCell<Vec<(u64, u64)>>,
    ops: Cell<u64>,
}
#[derive(Clone, Copy)]
enum How {
    Fine,
    Short(usize),
    Fails(io::ErrorKind),
}
const KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Interrupted,
    io::ErrorKind::NotFound,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
];
impl Disk {
    fn next(&self) -> How {
        self.ops.set(self.ops.get() + 1);
        for (at, how) in self.faults.borrow().iter() {
            if *at == self.ops.get() {
                return match *how {
                    0 => How::Fails(io::ErrorKind::Other),
                    k @ 1..=3 => How::Short([8, 0, 1][k as usize - 1]),
                    k => How::Fails(KINDS[k as usize - 4]),
                };
            }
        }
        How::Fine
    }
}
struct Flaky {
    disk: Rc<Disk>,
    /// What was read; never removed.
    read: RefCell<Vec<Box<[u8]>>>,
}
struct FlakyStream {
    disk: Rc<Disk>,
    name: String,
    at: usize,
}
impl io::Write for FlakyStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = match self.disk.next() {
            How::Fails(k) => return Err(k.into()),
            How::Short(n) => n.min(b.len()),
            How::Fine => b.len(),
        };
        let mut files = self.disk.files.borrow_mut();
        let f = files.get_mut(&self.name).unwrap();
        if f.len() < self.at + n {
            f.resize(self.at + n, 0);
        }
        f[self.at..self.at + n].copy_from_slice(&b[..n]);
        self.at += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.disk.next() {
            How::Fails(k) => Err(k.into()),
            _ => Ok(()),
        }
    }
}
impl io::Seek for FlakyStream {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        if let How::Fails(k) = self.disk.next() {
            return Err(k.into());
        }
        let n = self.disk.files.borrow()[&self.name].len() as i64;
        self.at = match p {
            io::SeekFrom::Start(n) => n as usize,
            io::SeekFrom::Current(d) => (self.at as i64 + d) as usize,
            io::SeekFrom::End(d) => (n + d) as usize,
        };
        Ok(self.at as u64)
    }
}
impl Stream for FlakyStream {}
impl ResourceStorage for Flaky {
    fn subdir(&self, _: &str) -> Rc<dyn ResourceStorage> {
        unreachable!()
    }
    fn exists(&self, n: &str) -> bool {
        self.disk.files.borrow().contains_key(n)
    }
    fn read_resource(&self, n: &str) -> Result<&[u8], io::Error> {
        if let How::Fails(k) = self.disk.next() {
            return Err(k.into());
        }
        match self.disk.files.borrow().get(n) {
            Some(b) => {
                let b: Box<[u8]> = b[..].into();
                let (p, n) = (b.as_ptr(), b.len());
                self.read.borrow_mut().push(b);
                Ok(unsafe { std::slice::from_raw_parts(p, n) })
            }
            None => Err(io::ErrorKind::NotFound.into()),
        }
    }
    fn create_output_stream(&self, n: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        if let How::Fails(k) = self.disk.next() {
            return Err(k.into());
        }
        self.disk.files.borrow_mut().insert(n.into(), vec![]);
        Ok(Rc::new(RefCell::new(FlakyStream { disk: self.disk.clone(), name: n.into(), at: 0 })))
    }
}
/// Up to param(1) operations of another kind of storage fail.
#[no_mangle]
pub fn c13_streams() {
    begin(3);
    let p = plan();
    let disk = Rc::new(Disk { files: Default::default(), faults: Default::default(), ops: Cell::new(0) });
    let flaky = |d: &Rc<Disk>| -> Storage { Rc::new(Flaky { disk: d.clone(), read: Default::default() }) };
    let mut done = Done::default();
    check(write(&flaky(&disk), &p, false, &mut done), "writing succeeds");
    let n = disk.ops.get();
    disk.files.borrow_mut().clear();
    disk.ops.set(0);
    let mut at = 0;
    for _ in 0..param(1) {
        // a retry may need more operations than were counted
        at += choose(n + 2 - at) as u64;
        let how = choose(param(2)) as u64;
        disk.faults.borrow_mut().push((at + 1, how));
        at += 1;
    }
    let carry = choose(2) == 1;
    let mut done = Done::default();
    let ok = write(&flaky(&disk), &p, carry, &mut done);
    disk.faults.borrow_mut().clear();
    let opened = opens(&flaky(&disk), &p, &done);
    if ok {
        check(opened, "what was reported as written opens");
        cover(0);
    } else {
        cover(1);
        if !opened {
            cover(2);
        }
    }
    note(1, ok as u64);
    note(2, opened as u64);
}
/// An operation fails while a resource is opened.
#[no_mangle]
pub fn c13_open() {
    begin(2);
    let p = plan();
    count(&p);
    fs_fault(0, 0, 0);
    check(opens(&files("clean"), &p, &all(&p)), "the resource opens");
    let n = fs_ops();
    let s = files("clean");
    fs_fault(choose(n + 1) as u64 + 1, [EIO, ENOSPC, EINTR][choose(3)], 0);
    let first = opens(&s, &p, &all(&p));
    fs_fault(0, 0, 0);
    cover(first as u32);
    check(opens(&s, &p, &all(&p)), "the resource opens after the failure");
    // absent parts are reported as such
    match s.read("absent", "schema") {
        Err(ResourceStorageError::Io(e, n)) => {
            check(e.kind() == io::ErrorKind::NotFound && n == "absent", "a missing resource")
        }
        _ => check(false, "a missing resource"),
    }
}

/// An operation fails, of which looking a path up is one, too.
#[no_mangle]
pub fn c13_stats() {
    begin(3);
    let p = plan();
    fs_fault(0, STATS, 0);
    check(write(&files("clean"), &p, false, &mut Done::default()), "writing succeeds");
    let writing = fs_ops();
    fs_fault(0, STATS, 0);
    check(opens(&files("clean"), &p, &all(&p)), "the resource opens");
    let opening = fs_ops();
    fs_fault(0, 0, 0);
    let kind = [EIO, EINTR][choose(2)] | STATS;
    if choose(2) == 0 {
        fs_fault(choose(opening + 1) as u64 + 1, kind, 0);
        let s = files("clean");
        let first = opens(&s, &p, &all(&p));
        fs_fault(0, 0, 0);
        cover(first as u32);
        check(opens(&s, &p, &all(&p)), "the resource opens after the failure");
        return;
    }
    let mut done = Done::default();
    fs_fault(choose(writing) as u64 + 1, kind, 0);
    let ok = write(&files("data"), &p, false, &mut done);
    fs_fault(0, 0, 0);
    let opened = opens(&files("data"), &p, &done);
    check(opened || !ok, "what was reported as written opens");
    cover(2);
}

// ---- C14 --------------------------------------------------------------------
const CUTS: [u64; 16] = [0, 1, 2, 40000, 4, 5, 6, 7, 8, 9, 16, 24, 17000000, 33999992, 34000000, 41943045];
/// The process dies at an operation on the files.
#[no_mangle]
pub fn c14_files() {
    begin(2);
    let p = plan();
    let n = count(&p);
    let at = choose(n) as u64 + 1;
    let cut = CUTS[choose(param(1))];
    fs_fault(at, CRASH, cut);
    crate::arch::GHOST.store(true, std::sync::atomic::Ordering::Relaxed);
    // what it thinks afterwards does not matter
    let _ = catch(|| {
        let s = files("data");
        write(&s, &p, true, &mut Done { ghost: true, ..Done::default() })
    });
    fs_fault(0, 0, 0);
    crate::arch::GHOST.store(false, std::sync::atomic::Ordering::Relaxed);
    let opened = opens(&files("data"), &p, &all(&p));
    note(2, opened as u64);
    cover(opened as u32);
}

/// The process dies while an earlier version is replaced.
#[no_mangle]
pub fn c14_replace() {
    begin(3);
    replace(|n| fs_fault(n, CRASH, CUTS[choose(param(1))]));
}

// ---- C19 --------------------------------------------------------------------
/// What happens to an open writer.
fn fate<W>(w: W, close: impl FnOnce(W)) {
    match choose(4) {
        0 => {
            check(catch(move || close(w)).is_some(), "closing does not panic");
            cover(0);
        }
        1 => {
            check(catch(move || drop(w)).is_none(), "dropping an open writer panics");
            cover(1);
        }
        2 => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _w = w;
                std::panic::panic_any(4711u64);
            }));
            check(
                matches!(r, Err(ref e) if e.downcast_ref::<u64>() == Some(&4711)),
                "the panic that dropped the writer continues",
            );
            cover(2);
        }
        _ => {
            // closed, and dropped while panicking
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                close(w);
                std::panic::panic_any(4712u64);
            }));
            check(
                matches!(r, Err(ref e) if e.downcast_ref::<u64>() == Some(&4712)),
                "the panic after closing continues",
            );
            cover(3);
        }
    }
}
fn fate_vector<T: Rec>(s: &Storage, n: usize) {
    let mut v = create_external_vector::<T>(&**s, "res", "schema").unwrap();
    for _ in 0..n {
        v.grow().unwrap();
        check(v.is_open(), "a growing vector is open");
    }
    check(v.len() == n, "number of records");
    fate(v, |v| {
        check(v.close().unwrap().len() == n, "number of records");
    });
}
fn fate_multi<I: for<'a> IndexStruct<'a>>(s: &Storage, n: usize) {
    let mut v = create_multi_vector::<I, Large>(&**s, "res", "schema").unwrap();
    for i in 0..n {
        let mut b = v.grow().unwrap();
        if i % 2 == 0 {
            b.add_b3();
        }
        if param(2) == 1 {
            b.add_m40();
        }
    }
    fate(v, |v| {
        check(v.close().unwrap().len() == n, "number of items");
    });
}
#[no_mangle]
pub fn c19_drop() {
    begin(4);
    let s = storage(param(1) as usize);
    match param(0) {
        0 => fate_vector::<B3>(&s, choose(4)),
        1 => fate_vector::<M17>(&s, choose(4)),
        2 => fate_multi::<Idx16>(&s, choose(4)),
        3 => fate_multi::<IdxM17>(&s, choose(4)),
        _ => {
            let stream = s.create_output_stream("res").unwrap();
            s.create_output_stream("res.schema").unwrap();
            let mut h = ResourceHandle::try_new(&*s, "res".into(), "".into(), stream).unwrap();
            let mut n = 0;
            for _ in 0..choose(3) {
                let b = [1, 2, 3];
                let k = choose(4);
                h.write(&b[..k]).unwrap();
                n += k;
            }
            fate(h, |mut h| {
                check(h.close().unwrap().len() == n, "number of bytes");
            });
        }
    }
}
/// A handle that was closed, and every use of it afterwards.
#[no_mangle]
pub fn c19_closed() {
    begin(2);
    let s = storage(param(0) as usize);
    let stream = s.create_output_stream("res").unwrap();
    std::io::Write::write_all(&mut *s.create_output_stream("res.schema").unwrap().borrow_mut(), b"text").unwrap();
    let mut h = ResourceHandle::try_new(&*s, "res".into(), "text".into(), stream).unwrap();
    check(h.is_open() && h.name() == "res", "a new handle is open");
    let mut data = vec![];
    for _ in 0..choose(3) {
        let mut b = vec![0; choose(4)];
        fill(&mut b);
        h.write(&b).unwrap();
        data.extend_from_slice(&b);
        check(h.is_open(), "the handle is open");
    }
    let view = h.close().unwrap();
    check(*view == data[..], "data of the closed handle");
    check(!h.is_open(), "the handle is closed");
    for _ in 0..2 {
        match choose(3) {
            0 => {
                let mut b = vec![0; choose(4)];
                fill(&mut b);
                check(h.write(&b).is_err(), "a closed handle refuses to write");
                cover(0);
            }
            1 => {
                check(h.close().is_err(), "a closed handle refuses to close");
                cover(1);
            }
            _ => {
                let c = h.clone();
                check(!c.is_open(), "a clone of a closed handle is closed");
                check(catch(move || drop(c)).is_some(), "dropping a closed handle");
            }
        }
        check(!h.is_open(), "the handle stays closed");
    }
    let quiet = catch(move || drop(h)).is_some();
    check(quiet, "dropping a closed handle");
    check(*view == data[..], "data of the closed handle");
    let s2 = later(param(0) as usize, s.clone());
    check(*s2.read("res", "text").unwrap() == data[..], "stored data");
}
