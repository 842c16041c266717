//! More than 4 GiB of data.
use crate::bits::{spec_read, spec_value};
use crate::ext::*;
use crate::rec::*;
use crate::res::Raw;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;

const LEN: usize = (5 << 30) + 11;

fn same<T: Rec>(r: &<T as Struct<'_>>::Item, s: &[u8]) -> bool {
    T::FIELDS.iter().enumerate().all(|(k, f)| T::get(r, k) == spec_value(spec_read(s, f.0, f.1), f.1, f.2))
}
fn view<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let (len, near) = (LEN / n, (1usize << 32) / n);
    let p = [near - 1, near, near + 1, (1 << 31) / n + 1, len - 1][choose(5)];
    let how = choose(6);
    let mut want = vec![0; n];
    fill(&mut want);
    let mut data = vec![0u8; LEN];
    data[p * n..][..n].copy_from_slice(&want);
    let v: ArrayView<T> = ArrayView::new(&data);
    check(v.len() == len, "number of elements");
    let w = v.slice(1..p + 1);
    let got = match how {
        0 => v.at(p),
        1 => v.slice(p..).at(0),
        2 => v.slice(..=p).iter().next_back().unwrap(),
        3 => v.slice(p..p + 1).iter().next().unwrap(),
        4 => w.at(p - 1),
        _ => v.slice(2..).slice(..p - 1).at(p - 2),
    };
    check(same::<T>(&got, &want), "element");
    check(w.len() == p && w.iter().len() == p, "number of selected elements");
    check(w.iter().size_hint() == (p, Some(p)), "remaining length");
    check(v.as_ref().len() >= len * n && w.as_bytes()[(p - 1) * n..][..n] == want[..], "raw bytes");
    check(catch(|| w.at(p)).is_none() && catch(|| v.at(len)).is_none(), "no access out of range");
    check(catch(|| v.slice(p..len + 1)).is_none(), "no range out of range");
    cover(0);
}
#[no_mangle]
pub fn c06_huge() {
    begin(1);
    match param(0) {
        0 => view::<B1>(),
        1 => view::<B3>(),
        2 => view::<Mix>(),
        _ => view::<K64>(),
    }
}
/// Items that start before, at and behind 4 GiB.
fn multi<I: for<'a> IndexStruct<'a>>(width: usize) {
    let p = (1usize << 32) + 2 - choose(8);
    let how = choose(5);
    let mut want = [7; 4];
    fill(&mut want[1..]);
    let mut data = vec![0u8; LEN];
    data[p..p + 4].copy_from_slice(&want);
    let mut index = vec![];
    for at in [0, p, p + 4, LEN - 1, LEN + 1] {
        index.extend(&(at as u64).to_le_bytes()[..width]);
        index.resize(index.len().div_ceil(I::SIZE_IN_BYTES) * I::SIZE_IN_BYTES, 0);
    }
    let v: MultiArrayView<I, Var> = MultiArrayView::new(ArrayView::new(&index), &data);
    check(v.len() == 4, "number of items");
    let mut item = match how {
        0 => v.at(1),
        1 => v.slice(1..).at(0),
        2 => v.iter().nth(1).unwrap(),
        3 => v.slice(..2).iter().next_back().unwrap(),
        _ => v.slice(1..2).iter().next().unwrap(),
    };
    match item.next() {
        Some(RefVar::B3(r)) => check(same::<B3>(&r, &want[1..]), "record of the item"),
        _ => check(false, "type of the record"),
    }
    check(item.next().is_none(), "end of the item");
    check(catch(|| v.at(3)).is_none(), "an item outside the data panics");
    check(catch(|| v.at(4)).is_none(), "no item out of range");
    cover(0);
}
#[no_mangle]
pub fn c10_huge() {
    begin(1);
    match param(0) {
        0 => multi::<Idx40>(5),
        _ => multi::<Idx64>(8),
    }
}
/// A resource that large opens exactly if its header says so.
#[no_mangle]
pub fn c11_huge() {
    begin(2);
    let mut data = vec![0u8; LEN];
    fill(&mut data[..8]);
    data[LEN - 9] = sym(8) as u8;
    let (size, last) = (u64::from_le_bytes(data[..8].try_into().unwrap()), data[LEN - 9]);
    let s = Raw { data: Ok(data.into()), schema: Ok((*b"schema").into()) };
    match s.read("res", "schema") {
        Ok(b) => {
            check(size == LEN as u64 - 16 && b.len() == LEN - 16, "size of the resource");
            check(b[LEN - 17] == last, "bytes of the resource");
            cover(0);
        }
        Err(ResourceStorageError::UnexpectedDataSize) => {
            check(size != LEN as u64 - 16, "a resource of the right size opens");
            cover(1);
        }
        Err(_) => check(false, "kind of the error"),
    }
}

/// What was written to one resource: the first bytes, those at a place of
/// interest, and how many there are. Small resources are kept as a whole.
#[derive(Default)]
struct Tape {
    pos: u64,
    len: u64,
    head: Vec<u8>,
    at: u64,
    watched: Vec<u8>,
}
const KEEP: u64 = 4096;
struct Out(Rc<RefCell<Tape>>);
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut t = self.0.borrow_mut();
        let t = &mut *t;
        let n = b.len() as u64;
        if t.pos < KEEP {
            let (p, k) = (t.pos as usize, n.min(KEEP - t.pos) as usize);
            if t.head.len() < p + k {
                t.head.resize(p + k, 0);
            }
            t.head[p..p + k].copy_from_slice(&b[..k]);
        }
        for i in 0..t.watched.len() as u64 {
            let at = t.at + i;
            if t.pos <= at && at < t.pos + n {
                t.watched[i as usize] = b[(at - t.pos) as usize];
            }
        }
        t.pos += n;
        t.len = t.len.max(t.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for Out {
    fn seek(&mut self, s: io::SeekFrom) -> io::Result<u64> {
        let mut t = self.0.borrow_mut();
        t.pos = match s {
            io::SeekFrom::Start(n) => n,
            io::SeekFrom::End(n) => (t.len as i64 + n) as u64,
            io::SeekFrom::Current(n) => (t.pos as i64 + n) as u64,
        };
        Ok(t.pos)
    }
}
impl Stream for Out {}
/// A storage of such resources; what is opened has no content but these bytes.
#[derive(Default)]
pub struct Tapes {
    all: RefCell<BTreeMap<String, Rc<RefCell<Tape>>>>,
    at: u64,
}
impl ResourceStorage for Tapes {
    fn subdir(&self, _: &str) -> Storage {
        Rc::new(Tapes::default())
    }
    fn exists(&self, n: &str) -> bool {
        self.all.borrow().contains_key(n)
    }
    fn read_resource(&self, n: &str) -> Result<&[u8], io::Error> {
        match self.all.borrow().get(n).map(|t| t.borrow()) {
            Some(t) => {
                let mut all = vec![0; t.len as usize];
                all[..t.head.len()].copy_from_slice(&t.head);
                Ok(Box::leak(all.into()))
            }
            None => Err(io::ErrorKind::NotFound.into()),
        }
    }
    fn create_output_stream(&self, n: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        let t = Rc::new(RefCell::new(Tape { at: self.at, watched: vec![0xee; 8], ..Default::default() }));
        self.all.borrow_mut().insert(n.into(), t.clone());
        Ok(Rc::new(RefCell::new(Out(t))))
    }
}
impl Tapes {
    /// How much was written to a resource.
    pub fn got(&self, name: &str) -> u64 {
        self.all.borrow()[name].borrow().len
    }
    /// The framing of a resource of `n` bytes.
    fn framed(&self, name: &str, n: u64) -> Vec<u8> {
        let all = self.all.borrow();
        let t = all[name].borrow();
        check(t.len == n + 16, "size of everything that was written");
        check(t.head[..8] == n.to_le_bytes(), "size in the header");
        check(all[&format!("{}.schema", name)].borrow().head == b"schema" || name == "mv_index", "schema");
        t.head.clone()
    }
    fn watched(&self, name: &str) -> Vec<u8> {
        self.all.borrow()[name].borrow().watched.clone()
    }
}
/// Which of the records of 40 MiB is looked at.
const LAST: u64 = 104;
fn place() -> u64 {
    [101, 102, 103, 0][choose(4)]
}
#[no_mangle]
pub fn c08_huge() {
    begin(1);
    let (p, size) = (place(), M40::SIZE_IN_BYTES as u64);
    let s = Tapes { at: 8 + p * size, ..Default::default() };
    let mut v = create_external_vector::<M40>(&s, "v", "schema").unwrap();
    let x = sym(64);
    for i in 0..LAST {
        check(v.len() as u64 == i, "number of records so far");
        let mut m = v.grow().unwrap();
        if i == p {
            M40::set(&mut m, 0, x);
        }
    }
    check(v.len() as u64 == LAST, "number of records");
    let len = v.close().map(|v| v.len() as u64);
    check(len.ok() == Some(LAST), "number of records when closed");
    s.framed("v", LAST * size);
    check(s.watched("v") == x.to_le_bytes(), "field of a record");
    cover(0);
}
#[no_mangle]
pub fn c09_huge() {
    begin(1);
    match param(0) {
        0 => many_items::<Idx64>(LAST, place()),
        // as much as 32 bits can count
        _ => many_items::<Idx32>(102, [0, 51, 52, 101][choose(4)]),
    }
    cover(0);
}
fn many_items<I: for<'b> IndexStruct<'b>>(n: u64, p: u64) {
    let each = M40::SIZE_IN_BYTES as u64 + 1;
    let s = Tapes { at: 8 + p * each + 1, ..Default::default() };
    let mut v = create_multi_vector::<I, Large>(&s, "mv", "schema").unwrap();
    let x = sym(64);
    for i in 0..n {
        let mut b = v.grow().unwrap();
        let mut m = b.add_m40();
        if i == p {
            M40::set(&mut m, 0, x);
        }
    }
    let len = v.close().map(|v| v.len() as u64);
    check(len.ok() == Some(n), "number of items when closed");
    s.framed("mv", n * each);
    check(s.watched("mv") == x.to_le_bytes(), "field of a record");
    let w = <I as Struct>::SIZE_IN_BYTES;
    let index = s.framed("mv_index", (n + 1) * w as u64);
    for i in 0..=n {
        check(index[8 + i as usize * w..][..w] == (i * each).to_le_bytes()[..w], "offset of an item");
    }
}
/// Written at once.
#[no_mangle]
pub fn c12_huge() {
    begin(1);
    let n = [(1usize << 32) - 1, 1 << 32, (1 << 32) + 1, LEN][choose(4)];
    let mut b = vec![0; n];
    b[n - 1] = sym(8) as u8;
    let s = Tapes { at: n as u64 + 7, ..Default::default() };
    s.write("r", "schema", &b).unwrap();
    s.framed("r", n as u64);
    check(s.watched("r") == [b[n - 1], 0, 0, 0, 0, 0, 0, 0], "the last byte and the padding");
    cover(0);
}
/// A vector of that many records.
fn vector<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let (len, near) = (LEN / n, (1usize << 32) / n);
    let p = [near - 1, near, near + 1, (1 << 31) / n + 1, len - 1][choose(5)];
    // where the place would be if its offset were cut to 32 bits
    let q = (p * n % (1 << 32)) / n;
    let x: Vec<u64> = T::FIELDS.iter().map(|f| spec_value(sym(64), f.1, f.2)).collect();
    let mut v: Vector<T> = Vector::with_len(len);
    check(v.len() == len && v.size_in_bytes() == len * n, "number of records");
    {
        let mut m = v.at_mut(p);
        for (k, x) in x.iter().enumerate() {
            T::set(&mut m, k, *x);
        }
    }
    let has = |r: &<T as Struct<'_>>::Item, zero: bool| x.iter().enumerate().all(|(k, x)| T::get(r, k) == if zero { 0 } else { *x });
    check(has(&v.at(p), false) && has(&v.as_view().at(p), false), "record");
    check(has(&v.at(q), p != q) && has(&v.at(len - 1), p != len - 1), "other records");
    check(v.as_view().len() == len && v.as_bytes().len() == len * n, "view and bytes");
    check(catch(|| drop(v.at(len))).is_none(), "no access out of range");
    cover(0);
}
#[no_mangle]
pub fn c05_wide() {
    begin(1);
    match param(0) {
        0 => vector::<B3>(),
        1 => vector::<Mix>(),
        _ => vector::<K64>(),
    }
}
