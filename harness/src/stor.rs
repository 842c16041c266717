//! C15: memory storage. C16: file storage. C21: lifetime of what is read.
use crate::ext::*;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Seek, Write};
use std::rc::Rc;

type Out = Rc<RefCell<dyn Stream>>;

/// A tree of storages over the same resources: each with its path.
fn handles(kind: usize) -> Vec<(&'static str, Storage)> {
    let root = storage(kind);
    let d = root.subdir("d");
    let again = root.subdir("d");
    let e = d.subdir("e");
    let direct = root.subdir("d/e");
    vec![("", root), ("d/", d), ("d/", again), ("d/e/", e), ("d/e/", direct)]
}
const NAMES: [&str; 3] = ["x", "e/x", "d/x"];
/// Names like those that are written.
const NEVER: [&str; 7] = ["y", "xx", "x.schema", "x/x", "d", "e", "d/e"];
/// Every name of every storage.
fn agree(kind: usize, h: &[(&str, Storage)], model: &BTreeMap<String, Vec<u8>>) {
    for (k, (path, s)) in h.iter().enumerate() {
        for n in NEVER.iter().filter(|_| k == 0) {
            let prefix = format!("{}{}/", path, n);
            let dir = kind == 1 && model.keys().any(|k| k.starts_with(&prefix));
            check(dir || !s.exists(n), "a name that was never written does not exist");
            match s.read_resource(n) {
                Err(e) => check(dir || e.kind() == io::ErrorKind::NotFound, "error for a missing resource"),
                Ok(_) => check(false, "a resource that was never written is not found"),
            }
        }
        for n in NAMES {
            let known = model.get(&format!("{}{}", path, n));
            check(s.exists(n) == known.is_some(), "existence");
            match (s.read_resource(n), known) {
                (Ok(b), Some(k)) => check(*b == k[..], "bytes of a resource"),
                (Err(e), None) => {
                    check(e.kind() == io::ErrorKind::NotFound, "error for a missing resource")
                }
                (Ok(_), None) => check(false, "a resource that was never written is not found"),
                (Err(_), Some(_)) => check(false, "a written resource is found"),
            }
        }
    }
}
/// The files themselves.
fn on_disk(model: &BTreeMap<String, Vec<u8>>, others: u64, dirs: &BTreeSet<String>) {
    let d = tmpdir().join("data");
    for (n, b) in model {
        match std::fs::read(d.join(n)) {
            Ok(f) => check(f == *b, "bytes of a file"),
            Err(_) => check(false, "a written resource is a file"),
        }
    }
    let (nd, nf) = fs_count();
    check(nf == model.len() as u64 + others, "no other file");
    check(nd == dirs.len() as u64, "no other directory");
}
/// Every sequence of param(1) operations on the first param(2) storages and
/// param(3) names, of which the first is of kind param(4) (0, 1: any other).
#[no_mangle]
pub fn c15_history() {
    begin(if param(4) == 0 || param(1) > 2 { 4 } else { 3 });
    let kind = param(0) as usize;
    let h = handles(kind);
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut read: Vec<String> = vec![];
    let mut dirs = BTreeSet::new();
    let mut open: Vec<(String, Out)> = vec![];
    let others = if kind == 1 {
        std::fs::write(tmpdir().join("x"), b"other").unwrap();
        1
    } else {
        0
    };
    for t in 0..param(1) {
        let (path, s) = &h[choose(param(2))];
        let n = NAMES[[0, 2, 1][choose(param(3))]];
        let full = format!("{}{}", path, n);
        let op = match param(4) {
            0 if t == 0 => 0,
            _ if t == 0 => 1 + choose(2),
            _ => choose(4),
        };
        match op {
            0 => {
                // created again only before it was read
                if read.contains(&full) {
                    continue;
                }
                let out = match s.create_output_stream(n) {
                    Ok(o) => o,
                    Err(_) => {
                        check(false, "a resource can be created");
                        return;
                    }
                };
                let mut b = vec![0; 2 * choose(2)];
                fill(&mut b);
                out.borrow_mut().write_all(&b).unwrap();
                open.retain(|o| o.0 != full);
                open.push((full.clone(), out));
                if kind == 1 {
                    dirs.insert("".into());
                    for (i, c) in full.char_indices() {
                        if c == '/' {
                            dirs.insert(full[..i].into());
                        }
                    }
                }
                model.insert(full, b);
                cover(0);
            }
            1 => {
                check(s.exists(n) == model.contains_key(&full), "existence");
                cover(1);
            }
            2 => {
                match (s.read_resource(n), model.get(&full)) {
                    (Ok(b), Some(k)) => check(*b == k[..], "bytes of a resource"),
                    (Err(e), None) => {
                        check(e.kind() == io::ErrorKind::NotFound, "error for a missing resource")
                    }
                    _ => check(false, "what is found is what was written"),
                }
                read.push(full);
                cover(2);
            }
            _ => {
                // written to, or overwritten, through the stream
                if read.contains(&full) {
                    continue;
                }
                if let Some((_, out)) = open.iter().find(|o| o.0 == full) {
                    let b = sym(8) as u8;
                    let m = model.get_mut(&full).unwrap();
                    let mut o = out.borrow_mut();
                    if choose(2) == 0 && !m.is_empty() {
                        o.seek(io::SeekFrom::Start(0)).unwrap();
                        o.write_all(&[b]).unwrap();
                        o.seek(io::SeekFrom::End(0)).unwrap();
                        m[0] = b;
                    } else {
                        o.write_all(&[b]).unwrap();
                        m.push(b);
                    }
                    cover(3);
                }
            }
        }
    }
    if choose(2) == 0 {
        drop(open);
    }
    agree(kind, &h[..2], &model);
    agree(kind, &h[3..4], &model);
    if kind == 1 {
        on_disk(&model, others, &dirs);
        check(std::fs::read(tmpdir().join("x")).unwrap() == b"other", "files elsewhere");
    }
    // other storages for the same directories
    if kind == 0 {
        let (root, d) = (&h[0].1, &h[1].1);
        agree(kind, &[("d/", root.subdir("d")), ("d/e/", d.subdir("e"))], &model);
    } else {
        drop(h);
        agree(kind, &[("", storage(1)), ("d/e/", storage(1).subdir("d/e"))], &model);
        agree(kind, &[("d/", FileResourceStorage::new(tmpdir().join("data/d")))], &model);
        on_disk(&model, others, &dirs);
    }
}
/// Typed resources written and read through different storages; replaced.
#[no_mangle]
pub fn c15_typed() {
    begin(1);
    let kind = param(0) as usize;
    let h = handles(kind);
    // the same place from different storages
    let ways: [(usize, &str); 5] = [(0, "d/e/v"), (1, "e/v"), (2, "e/v"), (3, "v"), (4, "v")];
    let mut want = vec![];
    let times = 1 + choose(2);
    for t in 0..times {
        let (k, n) = ways[choose(5)];
        want.clear();
        if choose(2) == 0 {
            let mut v = vec![0; 3 * (2 - choose(3))];
            fill(&mut v);
            check(h[k].1.write(n, "schema", &v).is_ok(), "writing succeeds");
            want = v;
        } else {
            let r = create_external_vector::<B3>(&*h[k].1, n, "schema");
            let Ok(mut v) = r else {
                check(false, "creating succeeds");
                return;
            };
            for _ in 0..choose(3) {
                let mut m = v.grow().unwrap();
                B3::set(&mut m, 0, sym(64));
                want.extend_from_slice(StructBytes::<B3>::of(&m).as_slice());
            }
            if t + 1 < times {
                // replaced without having been read
                check(catch(move || drop(v)).is_none(), "dropping an open vector");
            } else {
                let view = v.close().unwrap();
                check(*view.as_bytes() == want[..], "bytes of the vector");
            }
        }
    }
    for (k, n) in ways {
        let s = &h[k].1;
        check(s.exists(n), "existence");
        match s.read(n, "schema") {
            Ok(b) => check(*b == want[..], "bytes of the resource"),
            Err(_) => check(false, "the resource opens"),
        }
        check(s.read(n, "schem").is_err(), "another schema");
        check(s.exists(&format!("{}.schema", n)), "existence of the schema");
    }
    check(!h[0].1.exists("v") && !h[1].1.exists("v"), "existence elsewhere");
    cover(0);
}
struct StructBytes<T>(Vec<u8>, std::marker::PhantomData<T>);
impl<T: Rec> StructBytes<T> {
    /// The bytes of a record with these field values.
    fn of(m: &<T as Struct<'_>>::ItemMut) -> Self {
        let mut b = StructBuf::<T>::new();
        for k in 0..T::FIELDS.len() {
            T::set(&mut b.get_mut(), k, T::get_mut(m, k));
        }
        StructBytes(b.as_bytes().to_vec(), std::marker::PhantomData)
    }
    fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

// ---- C16 --------------------------------------------------------------------
/// Directories that exist already, are nested or are files.
#[no_mangle]
pub fn c16_dirs() {
    begin(3);
    let base = tmpdir();
    let have = choose(4);
    match have {
        0 => (),
        1 => std::fs::create_dir(base.join("a")).unwrap(),
        2 => std::fs::create_dir_all(base.join("a/b/c")).unwrap(),
        // in the way
        _ => std::fs::write(base.join("a"), b"file").unwrap(),
    }
    let depth = choose(3);
    let s = FileResourceStorage::new(base.join(["a", "a/b", "a/b/c"][depth]));
    let s: Storage = match choose(3) {
        0 => s,
        1 => s.subdir("sub"),
        _ => s.subdir("sub").subdir("dir"),
    };
    check(!s.exists("r"), "nothing exists");
    check(s.read_resource("r").is_err(), "nothing is read");
    if choose(2) == 0 {
        check(fs_count().1 == (have == 3) as u64, "reading creates no file");
    }
    let mut b = vec![0; choose(3)];
    fill(&mut b);
    match s.write("r", "schema", &b) {
        Ok(()) => {
            check(have != 3, "a file is no directory");
            check(*s.read("r", "schema").unwrap() == b[..], "bytes of the resource");
            check(fs_count().1 == 2, "two files");
            cover(0);
        }
        Err(_) => {
            check(have == 3, "directories are created");
            check(std::fs::read(base.join("a")).unwrap() == b"file", "the file is untouched");
            check(fs_count() == (0, 1), "nothing is created");
            cover(1);
        }
    }
    // a directory is no resource
    if have == 2 {
        let t = FileResourceStorage::new(base.join("a"));
        check(t.read_resource("b").is_err(), "a directory is not read");
        check(t.read("b", "").is_err(), "a directory is not opened");
        check(t.create_output_stream("b").is_err(), "a directory is not replaced");
        cover(2);
    }
}
/// A storage works below a directory of any name, and different directories
/// are different storages.
#[no_mangle]
pub fn c16_root() {
    use std::{ffi::OsStr, os::unix::ffi::OsStrExt, path::Path};
    begin(1);
    // the first name, another one, and whether both are the same directory
    let roots: [(&[u8], &[u8], bool); 14] = [
        (b"a", b"b", false), (b"a", b"A", false), (b"a b", b"a", false), (b"a/b/c", b"a/b", false), (b"a/", b"a", true),
        (b"./a", b"a", true), (b"a//b", b"a/b", true), (b"a/./b/", b"a/b", true), (b"", b".", true), (b"a.b", b"a", false),
        ("\u{e9}".as_bytes(), "e\u{301}".as_bytes(), false), (b"\xff", b"\xfe", false), (b"\xff", b"\xef\xbf\xbd", false),
        (b"a/\xc3(/c", b"a/\xc3)/c", false),
    ];
    let (x, y, same) = roots[choose(14)];
    let open = |r: &[u8]| -> Storage { FileResourceStorage::new(tmpdir().join(Path::new(OsStr::from_bytes(r)))) };
    let below = choose(2) == 0;
    let at = |s: Storage| if below { s.subdir("\u{e9} d") } else { s };
    let (s, t) = (at(open(x)), at(open(y)));
    let (b, c) = ([sym(8) as u8, 1], [sym(8) as u8; 3]);
    check(!s.exists("r") && !t.exists("r"), "nothing exists");
    check(s.write("r", "schema", &b).is_ok(), "writing below any directory");
    check(s.exists("r") && t.exists("r") == same, "existence");
    if !same || choose(2) == 0 {
        check(t.write("r", "schema", &c).is_ok(), "writing below any directory");
    }
    let first = t.read("r", "schema").ok();
    let same_now = same && first == Some(&b[..]);
    check(same_now || first == Some(&c[..]), "bytes of the other directory");
    check(s.read("r", "schema").ok() == Some(if same { first.unwrap() } else { &b[..] }), "bytes of the directory");
    check(at(open(x)).read("r", "schema").ok() == s.read("r", "schema").ok(), "what a later storage reads");
    check(at(open(y)).read("r", "schema").ok() == first, "what a later storage of the other directory reads");
    check(s.read("r", "other").is_err() && s.read("q", "schema").is_err(), "what must not be read");
    check(fs_count().1 == if same { 2 } else { 4 }, "no other file");
    cover(0);
}
/// Content of any size is replaced, also by shorter content.
#[no_mangle]
pub fn c16_replace() {
    begin(1);
    let mut want = vec![];
    for _ in 0..1 + choose(3) {
        let s = storage(1);
        want = vec![0; [0, 1, 4, 5000][choose(4)]];
        let n = want.len().min(3);
        fill(&mut want[..n]);
        s.write("r", "schema", &want).unwrap();
        let raw = std::fs::read(tmpdir().join("data/r")).unwrap();
        check(raw.len() == want.len() + 16, "size of the file");
        check(raw[8..8 + want.len()] == want[..], "bytes of the file");
        if choose(2) == 0 {
            check(*s.read("r", "schema").unwrap() == want[..], "bytes of the resource");
        }
    }
    check(*storage(1).read("r", "schema").unwrap() == want[..], "bytes of the resource");
    check(fs_count() == (1, 2), "two files");
    cover(0);
}

// ---- C21 --------------------------------------------------------------------
const OTHERS: [&str; 3] = ["m", "a", "z"];
/// Slices that were read, while everything else goes on.
#[no_mangle]
pub fn c21_slices() {
    begin(5);
    let kind = param(0) as usize;
    let before = resources();
    {
        let s = storage(kind);
        let mut want = [0u8; 3];
        fill(&mut want);
        s.write("res", "schema", &want).unwrap();
        s.write("empty", "schema", &[]).unwrap();
        s.subdir("d").write("sub", "schema", &want).unwrap();
        let first = s.read("res", "schema").unwrap();
        let empty = s.read("empty", "schema").unwrap();
        let at = first.as_ptr();
        let mut mine: Vec<(&'static str, &[u8])> = vec![];
        for _ in 0..param(1) {
            match choose(8) {
                0 => {
                    let n = OTHERS[choose(3)];
                    if mine.iter().all(|m| m.0 != n) {
                        s.write(n, "schema", &want[..choose(3)]).unwrap();
                    }
                    cover(0);
                }
                1 => {
                    let n = OTHERS[choose(3)];
                    if let Ok(b) = s.read(n, "schema") {
                        check(*b == want[..b.len()], "bytes of another resource");
                        mine.push((n, b));
                        cover(1);
                    }
                }
                2 => {
                    check(s.read("absent", "schema").is_err(), "nothing is read");
                    check(s.read("res", "other").is_err(), "another schema");
                    cover(2);
                }
                3 => {
                    let t = s.subdir("d");
                    check(*t.read("sub", "schema").unwrap() == want, "bytes below");
                }
                4 => {
                    if !s.exists("vector") {
                        let mut v = create_external_vector::<B3>(&*s, "vector", "schema").unwrap();
                        v.grow().unwrap();
                        check(v.close().unwrap().len() == 1, "a vector");
                    }
                    cover(3);
                }
                5 => {
                    let t = s.clone();
                    check(t.read("res", "schema").unwrap().as_ptr() == at, "the same bytes again");
                    drop(t);
                }
                6 => {
                    // enough to reorganise what the storage keeps
                    for i in 0..param(2) {
                        let n = format!("many{}", i * 7 % 100);
                        if !s.exists(&n) {
                            s.write(&n, "schema", &want[..1]).unwrap();
                        }
                        check(*s.read(&n, "schema").unwrap() == want[..1], "bytes of one of many");
                    }
                    cover(4);
                }
                _ => {
                    let t = s.create_output_stream("raw").unwrap();
                    t.borrow_mut().write_all(&want).unwrap();
                    check(s.exists("raw"), "existence");
                }
            }
            check(*first == want, "bytes read before");
            check(empty.is_empty(), "no bytes read before");
        }
        check(s.read("res", "schema").unwrap().as_ptr() == at, "the same bytes again");
        for (_, b) in mine {
            check(*b == want[..b.len()], "bytes of another resource read before");
        }
    }
    let after = resources();
    check(after.0 == before.0, "memory is released");
    check(after.1 == before.1, "files are closed");
    check(after.2 == before.2, "mappings are released");
}
/// Bytes that were read, while the resource itself is written again (as a new
/// file, in the file storage).
#[no_mangle]
pub fn c21_rewrite() {
    begin(5);
    let kind = param(1) as usize;
    let before = resources();
    {
        let s = storage(kind);
        let away = || {
            for n in ["res", "res.schema"] {
                if kind == 1 {
                    let _ = std::fs::remove_file(tmpdir().join("data").join(n));
                }
            }
        };
        let mut held: Vec<(&[u8], Vec<u8>)> = vec![];
        let mut open: Option<Rc<RefCell<dyn Stream>>> = None;
        s.write("res", "schema", &[7; 5]).unwrap();
        for _ in 0..param(0) {
            match choose(5) {
                0 => {
                    let mut data = vec![9; [0, 5, 40][choose(3)]];
                    let n = data.len().min(2);
                    fill(&mut data[..n]);
                    away();
                    s.write("res", "schema", &data).unwrap();
                    cover(0);
                }
                1 => {
                    // whichever bytes these are, they stay as they are
                    if let Ok(b) = s.read("res", "schema") {
                        held.push((b, b.to_vec()));
                        cover(1);
                    }
                }
                2 => {
                    if let Ok(b) = s.read_resource("res") {
                        held.push((b, b.to_vec()));
                    }
                    cover(2);
                }
                3 => {
                    // a stream that is written to again later
                    let t = open.get_or_insert_with(|| {
                        away();
                        s.create_output_stream("res").unwrap()
                    });
                    t.borrow_mut().write_all(&[[1; 24], [2; 24]][choose(2)]).unwrap();
                    cover(3);
                }
                _ => {
                    let t = s.subdir(".");
                    let _ = t.exists("res");
                    drop(t);
                    open = None;
                    cover(4);
                }
            }
            for (b, want) in &held {
                check(**b == want[..], "bytes read before");
            }
        }
    }
    let after = resources();
    check(after.0 == before.0, "memory is released");
    check(after.1 == before.1, "files are closed");
    check(after.2 == before.2, "mappings are removed");
}
/// Many resources open at the same time.
#[no_mangle]
pub fn c21_many() {
    begin(1);
    let kind = param(0) as usize;
    let before = resources();
    {
        let s = storage(kind);
        let d = s.subdir("d");
        let n = param(1) as usize;
        let mut want = vec![0; n];
        // some of them arbitrary
        for i in [0, 1, n / 2, n - 1] {
            want[i] = sym(8) as u8;
        }
        let name = |i: usize| format!("r{}", i * 7 % n);
        let of = |i: usize| if i % 3 == 0 { &d } else { &s };
        let mut read: Vec<&[u8]> = vec![];
        for i in 0..n {
            of(i).write(&name(i), "schema", &want[i..i + 1]).unwrap();
            match of(i).read(&name(i), "schema") {
                Ok(b) => read.push(b),
                Err(_) => {
                    check(false, "any number of resources opens");
                    return;
                }
            }
        }
        for i in 0..n {
            check(*read[i] == want[i..i + 1], "bytes read before");
            let b = of(i).read(&name(i), "schema").unwrap();
            check(*b == want[i..i + 1] && *read[i] == *b, "the same bytes again");
        }
    }
    let after = resources();
    check(after.0 == before.0, "memory is released");
    check(after.1 == before.1, "files are closed");
    check(after.2 == before.2, "mappings are released");
    cover(0);
}
/// The same resources opened many times while their bytes are in use.
#[no_mangle]
pub fn c21_times() {
    begin(1);
    let kind = param(0) as usize;
    let before = resources();
    {
        let s = storage(kind);
        let d = s.subdir("d");
        let x = [sym(8) as u8, 1, 2];
        s.write("a", "schema", &x).unwrap();
        d.write("b", "schema", &x).unwrap();
        s.write("c", "schema", &x).unwrap();
        let (a, b) = (s.read("a", "schema").unwrap(), d.read_resource("b").unwrap());
        let mut held = vec![];
        for i in 0..param(1) as usize {
            let e = s.subdir("d");
            check(s.read("a", "other").is_err() && s.read("absent", "schema").is_err(), "what does not open");
            check(s.exists("a") && e.exists("b") && !e.exists("a"), "existence");
            s.write("c", "schema", &[i as u8; 9][..i % 9]).unwrap();
            e.read("b", "schema").map_or_else(|_| check(false, "it opens again"), |y| check(*y == x[..], "bytes"));
            match (s.read("a", "schema"), s.read_resource("a")) {
                (Ok(y), Ok(z)) => {
                    check(*y == x[..] && z[8..11] == x[..], "bytes");
                    held.push((y, z));
                }
                _ => check(false, "it opens again"),
            }
        }
        check(*a == x[..] && b[8..11] == x[..], "bytes read before");
        check(held.iter().all(|(y, z)| **y == x[..] && z[8..11] == x[..]), "bytes read in between");
    }
    let after = resources();
    check(after.0 == before.0, "memory is released");
    check(after.1 == before.1, "files are closed");
    check(after.2 == before.2, "mappings are released");
    cover(0);
}
/// A resource that is replaced any number of times before it is read.
#[no_mangle]
pub fn c15_times() {
    begin(1);
    let kind = param(0) as usize;
    let n = choose(130) + 1;
    let last = [sym(8) as u8; 5];
    let s = storage(kind);
    let d = s.subdir("d");
    for i in 0..n {
        let k = if i + 1 < n { i % 4 } else { choose(5) };
        let b = if i + 1 < n { [i as u8; 5] } else { last };
        let done = if i % 2 == 0 { s.write("d/r", "schema", &b[..k]) } else { d.write("r", "schema", &b[..k]) };
        check(done.is_ok() && s.exists("d/r") && d.exists("r") && !s.exists("r"), "replacing it");
        if i + 1 == n {
            let t = later(kind, s.clone());
            for _ in 0..3 {
                check(t.read("d/r", "schema").unwrap() == &b[..k], "the bytes last written");
            }
        }
    }
    cover(0);
}
/// Descriptors of memory.
#[no_mangle]
pub fn c21_descriptor() {
    begin(1);
    let mut b = vec![0; choose(4)];
    fill(&mut b);
    let d = MemoryDescriptor::new(&b);
    let c = d.clone();
    let e = MemoryDescriptor::default();
    unsafe {
        check(*d.as_bytes() == b[..], "described bytes");
        check(c.as_bytes().as_ptr() == b.as_ptr() && c.as_bytes().len() == b.len(), "the bytes themselves");
        check(e.as_bytes().is_empty(), "a default descriptor");
    }
    cover(0);
}
/// Views derived from a storage; writers, failed and successful.
#[no_mangle]
pub fn c21_release() {
    begin(4);
    let kind = param(0) as usize;
    let before = resources();
    match choose(4) {
        0 => {
            let s = storage(kind);
            let mut v = create_multi_vector::<Idx16, Var>(&*s, "mv", "schema").unwrap();
            v.grow().unwrap().add_b3();
            v.grow().unwrap();
            let view = v.close().unwrap();
            check(view.len() == 2, "items");
            check(view.at(0).count() == 1 && view.at(1).count() == 0, "records");
            cover(0);
        }
        1 => {
            let s = storage(kind);
            let v = create_external_vector::<B3>(&*s, "v", "schema").unwrap();
            let _ = catch(move || drop(v));
            let v = create_multi_vector::<Idx16, Var>(&*s, "mv", "schema").unwrap();
            let _ = catch(move || drop(v));
            cover(1);
        }
        2 => {
            // only the subdirectory is left
            let d = storage(kind).subdir("d");
            d.write("r", "schema", b"abc").unwrap();
            check(d.read("r", "schema").unwrap() == b"abc", "bytes below");
            cover(2);
        }
        _ => {
            let s = storage(kind);
            s.write("r", "schema", b"abc").unwrap();
            for _ in 0..3 {
                check(s.read("r", "other").is_err(), "another schema");
                check(s.read("none", "other").is_err(), "nothing");
            }
            cover(3);
        }
    }
    let after = resources();
    check(after.0 == before.0, "memory is released");
    check(after.1 == before.1, "files are closed");
    check(after.2 == before.2, "mappings are released");
}
/// Names of all sorts: every ordered pair of them, and others of the same sorts.
#[no_mangle]
pub fn c15_names() {
    begin(1);
    let kind = param(0) as usize;
    let long = "n".repeat(200);
    let mut other = long.clone();
    other.push('2');
    let names = [
        "a", "A", "ab", "a.b", "a.", ".a", "a b", "a_index", "\u{e9}", "e\u{301}", "\u{65e5}\u{672c}", "a.schema.schema",
        "-", "~", "%2f", "a\\b", "a:b", "b/a", "b/c/a", "b.c/a", "...", "0", "00", &long, &other,
    ];
    let (i, j) = (choose(names.len() as u64), choose(names.len() as u64));
    assume(i != j);
    let s = storage(kind);
    let (x, y) = ([sym(8) as u8, 1], [sym(8) as u8; 3]);
    let put = |n: &str, b: &[u8], typed: bool| {
        if typed {
            s.write(n, n, b).is_ok()
        } else {
            s.create_output_stream(n).map_or(false, |o| o.borrow_mut().write_all(b).is_ok())
        }
    };
    let typed = choose(2) == 0;
    check(put(names[i], &[9; 40], typed), "writing under any name");
    check(put(names[i], &x, typed), "writing under any name");
    check(put(names[j], &y, !typed), "writing under any name");
    let s = if choose(2) == 0 { s.clone() } else { later(kind, s.clone()) };
    let get = |n: &str, typed: bool| if typed { s.read(n, n).ok() } else { s.read_resource(n).ok() };
    check(get(names[i], typed) == Some(&x[..]), "bytes of the first name");
    check(get(names[j], !typed) == Some(&y[..]), "bytes of the second name");
    for (k, n) in names.iter().enumerate() {
        check(s.exists(n) == (k == i || k == j), "existence");
        check(s.exists(&format!("{}.schema", n)) == (k == if typed { i } else { j }), "existence of the schema");
        check((k == i || k == j) == s.read_resource(n).is_ok(), "what was not written is not found");
    }
    if kind == 1 {
        let d = tmpdir().join("data");
        check(d.join(names[i]).is_file() && d.join(names[j]).is_file(), "files of these names");
        check(fs_count().1 == 3, "no other file");
    }
    cover(0);
}
/// Every chain of up to param(1) subdirectories of these names, with the path
/// it stands for.
const DIRS: [&str; 5] = ["a", "b", "aa", "a/a", "r"];
fn chains(kind: usize, depth: u64) -> Vec<(String, Storage)> {
    let mut all = vec![(String::new(), storage(kind))];
    let mut from = 0;
    for _ in 0..depth {
        let to = all.len();
        for k in from..to {
            for d in DIRS {
                let next = (format!("{}{}/", all[k].0, d), all[k].1.subdir(d));
                all.push(next);
            }
        }
        from = to;
    }
    all
}
/// A resource in a chain of subdirectories is found in those that lead to the
/// same place, and in no other.
#[no_mangle]
pub fn c15_dirs() {
    let kind = param(0) as usize;
    begin(1 + kind as u32);
    let h = chains(kind, param(1));
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for k in 0..2 {
        let (path, s) = &h[choose(h.len() as u64)];
        let n = ["r", "rr"][choose(2 - k)];
        let full = format!("{}{}", path, n);
        // a file is no directory
        let blocked = |p: &str| {
            let dir = format!("{}/", p);
            model.keys().any(|k| p.starts_with(&format!("{}/", k)) || k.starts_with(&dir))
        };
        if kind == 1 && blocked(&full) {
            cover(1);
            check(s.create_output_stream(n).is_err(), "a file is no directory");
            continue;
        }
        let mut b = vec![0; 2];
        fill(&mut b);
        match s.create_output_stream(n) {
            Ok(o) => o.borrow_mut().write_all(&b).unwrap(),
            Err(_) => check(false, "a resource can be created"),
        }
        model.insert(full, b);
    }
    for (path, s) in &h {
        for n in ["r", "rr"] {
            let full = format!("{}{}", path, n);
            let known = model.get(&full);
            let dir = format!("{}/", full);
            if kind == 1 && model.keys().any(|k| k.starts_with(&dir)) {
                // a directory
                check(s.read_resource(n).is_err(), "a directory is not read");
                continue;
            }
            check(s.exists(n) == known.is_some(), "existence");
            match (s.read_resource(n), known) {
                (Ok(b), Some(k)) => check(*b == k[..], "bytes of a resource"),
                (Err(_), None) => (),
                (Ok(_), None) => check(false, "a resource that was never written is not found"),
                (Err(_), Some(_)) => check(false, "a written resource is found"),
            }
        }
    }
    cover(0);
}
/// Many resources at once, in several directories.
#[no_mangle]
pub fn c15_many() {
    begin(1);
    let kind = param(0) as usize;
    let n = param(1) as usize;
    let top = storage(kind);
    let all = [top.clone(), top.subdir("d"), top.subdir("d/e")];
    let mut want = vec![7u8; n];
    for i in [0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n - 2, n - 1] {
        want[i.min(n - 1)] = sym(8) as u8;
    }
    let name = |i: usize| format!("resource{}", i * 17 % n);
    let put = |i: usize, b: &[u8]| match all[i % 3].create_output_stream(&name(i)) {
        Ok(o) => o.borrow_mut().write_all(b).unwrap(),
        Err(_) => check(false, "a resource can be created"),
    };
    for i in 0..n {
        put(i, &[want[i], i as u8]);
    }
    // one of them again
    let again = [0, 1, n / 2, n - 1][choose(4)];
    let b = sym(8) as u8;
    put(again, &[b]);
    let fresh = if kind == 1 && choose(2) == 1 { storage(kind) } else { top.clone() };
    let read = [fresh.clone(), fresh.subdir("d"), fresh.subdir("d").subdir("e")];
    for i in 0..n {
        for k in 0..3 {
            let there = k == i % 3;
            check(read[k].exists(&name(i)) == there, "existence");
            match read[k].read_resource(&name(i)) {
                Ok(r) if i == again => check(there && *r == [b], "bytes of a resource that was written again"),
                Ok(r) => check(there && *r == [want[i], i as u8], "bytes of a resource"),
                Err(e) => check(!there && e.kind() == io::ErrorKind::NotFound, "a missing resource"),
            }
        }
    }
    cover(0);
}
