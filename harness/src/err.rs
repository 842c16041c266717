//! C23: what errors say.
use crate::arch::*;
use crate::ext::*;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
];
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Create,
    Write,
    Seek,
    Read,
}
/// The operation that fails: on which resource, after how many others.
struct Fault {
    op: Op,
    name: String,
    after: Cell<usize>,
    kind: io::ErrorKind,
    hit: Cell<bool>,
}
impl Fault {
    fn new(op: Op, name: &str, after: usize) -> Rc<Self> {
        let kind = KINDS[choose(KINDS.len() as u64)];
        Rc::new(Fault { op, name: name.into(), after: Cell::new(after), kind, hit: Cell::new(false) })
    }
    fn go(&self, op: Op, name: &str) -> io::Result<()> {
        if self.hit.get() || op != self.op || name != self.name {
            return Ok(());
        }
        if self.after.get() > 0 {
            self.after.set(self.after.get() - 1);
            return Ok(());
        }
        self.hit.set(true);
        Err(io::Error::new(self.kind, "the very cause"))
    }
    /// The error is the one of the storage.
    fn is(&self, e: &io::Error) -> bool {
        e.kind() == self.kind && e.to_string() == "the very cause"
    }
}
/// A storage in memory of which one operation fails.
struct Shaky {
    inner: Storage,
    prefix: String,
    fault: Rc<Fault>,
}
struct ShakyStream {
    inner: Rc<RefCell<dyn Stream>>,
    name: String,
    fault: Rc<Fault>,
}
impl io::Write for ShakyStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.fault.go(Op::Write, &self.name)?;
        self.inner.borrow_mut().write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for ShakyStream {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.fault.go(Op::Seek, &self.name)?;
        self.inner.borrow_mut().seek(p)
    }
}
impl Stream for ShakyStream {}
impl ResourceStorage for Shaky {
    fn subdir(&self, d: &str) -> Storage {
        let prefix = format!("{}{}/", self.prefix, d);
        Rc::new(Shaky { inner: self.inner.subdir(d), prefix, fault: self.fault.clone() })
    }
    fn exists(&self, n: &str) -> bool {
        self.inner.exists(n)
    }
    fn read_resource(&self, n: &str) -> Result<&[u8], io::Error> {
        self.fault.go(Op::Read, &format!("{}{}", self.prefix, n))?;
        self.inner.read_resource(n)
    }
    fn create_output_stream(&self, n: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        let name = format!("{}{}", self.prefix, n);
        self.fault.go(Op::Create, &name)?;
        let inner = self.inner.create_output_stream(n)?;
        Ok(Rc::new(RefCell::new(ShakyStream { inner, name, fault: self.fault.clone() })))
    }
}
fn shaky(inner: &Storage, fault: &Rc<Fault>) -> Storage {
    Rc::new(Shaky { inner: inner.clone(), prefix: String::new(), fault: fault.clone() })
}
/// A failed operation of the storage is what the error is about.
fn about(e: &ResourceStorageError, fault: &Fault, names: &[&str]) {
    match e {
        ResourceStorageError::Io(e, n) => {
            check(fault.is(e), "the error of the storage");
            check(names.contains(&&n[..]), "name of the resource in the error");
        }
        _ => check(false, "a failure of the storage is an I/O error"),
    }
    let text = format!("{}", e);
    check(text.contains("the very cause"), "cause in the text of the error");
    check(names.iter().any(|n| text.contains(n)), "name in the text of the error");
}
const NAMES: [&str; 4] = ["res", "some.where", "a_index", "dir/sub/res"];

/// Opening a resource.
#[no_mangle]
pub fn c23_read() {
    begin(4);
    let s = storage(0);
    let n = NAMES[choose(4)];
    let mut b = vec![0; choose(3)];
    fill(&mut b);
    s.write(n, "stored\nschema", &b).unwrap();
    let schema = format!("{}.schema", n);
    let put = |n: &str, b: &[u8]| s.create_output_stream(n).unwrap().borrow_mut().write_all(b).unwrap();
    match choose(5) {
        // the storage fails
        0 => {
            let failing = [n, &schema][choose(2)];
            let f = Fault::new(Op::Read, failing, 0);
            match shaky(&s, &f).read(n, "stored\nschema") {
                Err(e) => about(&e, &f, &[n]),
                Ok(_) => check(false, "the failure is reported"),
            }
            check(f.hit.get(), "the resource and its schema are read");
            cover(0);
        }
        // another schema
        1 => match s.read(n, ["", "stored", "stored\nschema\n", "other\nschema"][choose(4)]) {
            Err(ResourceStorageError::WrongSignature { resource_name, diff }) => {
                check(resource_name == n, "name of the resource in the error");
                check(!diff.is_empty(), "the difference");
                let e = ResourceStorageError::WrongSignature { resource_name, diff };
                check(format!("{}", e).contains(n), "name in the text of the error");
                cover(1);
            }
            _ => check(false, "another schema"),
        },
        // the size in the header
        2 => {
            let mut raw = s.read_resource(n).unwrap().to_vec();
            let size = sym(64);
            assume(size != b.len() as u64);
            raw[..8].copy_from_slice(&size.to_le_bytes());
            let t = storage(0);
            t.create_output_stream(n).unwrap().borrow_mut().write_all(&raw).unwrap();
            t.create_output_stream(&schema).unwrap().borrow_mut().write_all(b"stored\nschema").unwrap();
            match t.read(n, "stored\nschema") {
                Err(ResourceStorageError::UnexpectedDataSize) => cover(2),
                _ => check(false, "another size"),
            }
        }
        // something that is no text
        3 => {
            let c = 0x80 | sym(7) as u8;
            put(&schema, &[b"stored\n".as_ref(), &[c]].concat());
            match s.read(n, "stored\nschema") {
                Err(ResourceStorageError::Utf8Error(e)) => {
                    check(e.valid_up_to() == 7, "where the text ends");
                    cover(3);
                }
                _ => check(false, "a schema that is no text"),
            }
        }
        // nothing there
        _ => match s.read("absent", "") {
            Err(ResourceStorageError::Io(e, n)) => {
                check(e.kind() == io::ErrorKind::NotFound && n == "absent", "a missing resource")
            }
            _ => check(false, "a missing resource"),
        },
    }
}
/// Writing: at once, as a vector, as a multivector.
#[no_mangle]
pub fn c23_write() {
    begin(3);
    let s = storage(0);
    let n = NAMES[choose(4)];
    let of = |k: usize| [n.to_string(), format!("{}.schema", n), format!("{}_index", n), format!("{}_index.schema", n)][k].clone();
    let op = [Op::Create, Op::Write, Op::Seek, Op::Read][choose(4)];
    let f = Fault::new(op, &of(choose(4)), choose(4));
    let t = shaky(&s, &f);
    let names = [n, &of(2)[..]];
    match choose(3) {
        0 => match t.write(n, "schema", &[1, 2, 3]) {
            Ok(()) => check(!f.hit.get(), "the failure is reported"),
            Err(e) => {
                check(f.hit.get() && f.is(&e), "the error of the storage");
                cover(0);
            }
        },
        1 => match create_external_vector::<B3>(&*t, n, "schema") {
            Err(e) => check(f.hit.get() && f.is(&e), "the error of the storage"),
            Ok(mut v) => {
                if let Err(e) = v.grow() {
                    check(f.hit.get() && f.is(&e), "the error of the storage");
                }
                match v.close() {
                    Ok(_) => check(!f.hit.get(), "the failure is reported"),
                    Err(e) => {
                        check(f.hit.get(), "there was a failure");
                        about(&e, &f, &[n]);
                        cover(1);
                    }
                };
            }
        },
        _ => match create_multi_vector::<Idx16, Var>(&*t, n, "schema") {
            Err(e) => check(f.hit.get() && f.is(&e), "the error of the storage"),
            Ok(mut v) => {
                match v.grow() {
                    Err(e) => check(f.hit.get() && f.is(&e), "the error of the storage"),
                    Ok(mut m) => {
                        m.add_b1();
                    }
                }
                match v.close() {
                    Ok(_) => check(!f.hit.get(), "the failure is reported"),
                    Err(e) => {
                        check(f.hit.get(), "there was a failure");
                        about(&e, &f, &names);
                        cover(2);
                    }
                };
            }
        },
    }
}
/// Writing more than is kept in memory: appending writes to the storage.
#[no_mangle]
pub fn c23_large() {
    begin(2);
    let s = storage(0);
    let n = NAMES[choose(4)];
    let index = format!("{}_index", n);
    let f = Fault::new(Op::Write, n, choose(7));
    let t = shaky(&s, &f);
    let mut grown = true;
    let mut failed = |e: &io::Error| {
        check(f.hit.get() && f.is(e), "the error of the storage");
        grown = false;
    };
    let closed = if choose(2) == 0 {
        match create_external_vector::<M40>(&*t, n, "schema") {
            Err(e) => {
                failed(&e);
                return;
            }
            Ok(mut v) => {
                for _ in 0..2 {
                    if let Err(e) = v.grow() {
                        failed(&e);
                        break;
                    }
                }
                v.close().map(|_| ())
            }
        }
    } else {
        match create_multi_vector::<Idx32, Large>(&*t, n, "schema") {
            Err(e) => {
                failed(&e);
                return;
            }
            Ok(mut v) => {
                for _ in 0..2 {
                    match v.grow() {
                        Err(e) => {
                            failed(&e);
                            break;
                        }
                        Ok(mut m) => {
                            m.add_m40();
                        }
                    }
                }
                v.close().map(|_| ())
            }
        }
    };
    if closed.is_err() {
        cover(1);
    }
    match closed {
        Ok(()) => {
            check(grown && !f.hit.get(), "the failure is reported");
            cover(0);
        }
        Err(e) if grown => {
            check(f.hit.get(), "there was a failure");
            about(&e, &f, &[n]);
        }
        // closed already
        Err(ResourceStorageError::Io(_, m)) => {
            check(m == n || m == index, "name of the resource in the error");
        }
        Err(_) => check(false, "an I/O error"),
    }
}
/// Creating and opening an archive.
#[no_mangle]
pub fn c23_archive() {
    begin(5);
    let s = storage(0);
    let parts = ["Sub.archive", "raw", "vec"];
    let deep = choose(2);
    let dir = ["", "below/"][deep];
    let at = |s: &Storage| if deep == 1 { s.subdir("below") } else { s.clone() };
    let part = parts[choose(3)];
    match choose(4) {
        // the builder
        0 => {
            let op = [Op::Create, Op::Write][choose(2)];
            let name = format!("{}{}{}", dir, parts[0], ["", ".schema"][choose(2)]);
            let f = Fault::new(op, &name, 0);
            match SubBuilder::new(at(&shaky(&s, &f))) {
                Err(e) => {
                    about(&e, &f, &[parts[0]]);
                    cover(0);
                }
                Ok(_) => check(false, "the failure is reported"),
            }
        }
        // an archive that is there already
        1 => {
            check(SubBuilder::new(at(&s)).is_ok(), "an archive is created");
            match SubBuilder::new(at(&s)) {
                Err(ResourceStorageError::Io(e, n)) => {
                    check(e.kind() == io::ErrorKind::AlreadyExists, "kind of the error");
                    check(n == parts[0], "name of the resource in the error");
                    cover(1);
                }
                _ => check(false, "an archive is not created again"),
            }
        }
        // the storage fails
        2 => {
            let b = SubBuilder::new(at(&s)).unwrap();
            b.set_raw(&[1, 2]).unwrap();
            let schema = choose(2);
            let f = Fault::new(Op::Read, &format!("{}{}{}", dir, part, ["", ".schema"][schema]), 0);
            match Sub::open(at(&shaky(&s, &f))) {
                Err(e) => {
                    check(part != parts[2], "an optional part is not required");
                    about(&e, &f, &[part]);
                    cover(2);
                }
                Ok(a) => {
                    check(part == parts[2], "the failure is reported");
                    check(a.vec().is_none(), "an optional part is absent");
                }
            }
        }
        // a part with another schema, or too short
        _ => {
            let b = SubBuilder::new(at(&s)).unwrap();
            if part != parts[1] {
                b.set_raw(&[1, 2]).unwrap();
            }
            let how = choose(2);
            let t = at(&s);
            if how == 0 {
                t.write(part, "another", &[]).unwrap();
            } else {
                let schema = ["schema of Sub", "schema of raw", "schema of vec"][parts.iter().position(|p| *p == part).unwrap()];
                t.write(part, schema, &[]).unwrap();
                let mut cut = vec![0; choose(16)];
                fill(&mut cut);
                t.create_output_stream(part).unwrap().borrow_mut().write_all(&cut).unwrap();
            }
            match Sub::open(t) {
                Err(ResourceStorageError::WrongSignature { resource_name, diff }) => {
                    check(how == 0 && part != parts[2] && resource_name == part, "the part with another schema");
                    check(diff.contains("-another"), "the stored schema");
                    cover(3);
                }
                Err(ResourceStorageError::UnexpectedDataSize) => {
                    check(how == 1 && part != parts[2], "the part that is too short");
                    cover(4);
                }
                Err(_) => check(false, "another error"),
                Ok(a) => check(part == parts[2] && a.vec().is_none(), "an optional part is absent"),
            }
        }
    }
}
/// The text of every error.
#[no_mangle]
#[allow(deprecated)]
pub fn c23_text() {
    use std::error::Error;
    begin(1);
    let kind = KINDS[choose(KINDS.len() as u64)];
    let n = NAMES[choose(4)];
    let all = [
        ResourceStorageError::from_io_error(io::Error::new(kind, "the very cause"), n.into()),
        ResourceStorageError::Io(io::Error::new(kind, "the very cause"), n.into()),
        ResourceStorageError::MissingSchema(n.into()),
        ResourceStorageError::UnexpectedDataSize,
        ResourceStorageError::WrongSignature { resource_name: n.into(), diff: "-a\n+b".into() },
        ResourceStorageError::Utf8Error(std::str::from_utf8(b"ab\xff").unwrap_err()),
    ];
    match &all[0] {
        ResourceStorageError::Io(e, m) => {
            check(e.kind() == kind && e.to_string() == "the very cause" && m == n, "an I/O error")
        }
        _ => check(false, "an I/O error"),
    }
    for (k, e) in all.iter().enumerate() {
        let (text, debug) = (format!("{}", e), format!("{:?}", e));
        for t in [&text, &debug] {
            check(!t.is_empty(), "a text");
            check(t.contains(n) == [true, true, true, false, true, false][k], "name in the text");
            check(t.contains("the very cause") == (k < 2), "cause in the text");
        }
        check(!e.description().is_empty(), "a description");
        for (j, o) in all.iter().enumerate() {
            let same = j == k || j + k == 1;
            check((e.description() == o.description()) == same, "one description for each kind of error");
            check((format!("{}", o) == text) == same, "one text for each error");
        }
    }
    cover(0);
}
