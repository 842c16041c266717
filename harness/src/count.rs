//! Every number of elements up to 520, and those around larger powers of two.
use crate::ext::*;
use crate::rec::*;
use crate::res::{explained, framed, judge, stored};
use crate::show::{container, text};
use crate::sx::*;
use crate::view::*;
use flatdata::*;

const FAR: [usize; 9] = [1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
fn count() -> usize {
    let k = choose(521 + FAR.len() as u64);
    if k < 521 {
        k
    } else {
        FAR[k - 521]
    }
}
/// Value of record `i`; the last one's is arbitrary.
fn value(i: usize, n: usize, last: u8) -> u64 {
    if i + 1 == n {
        last as u64
    } else {
        (i * 37 + i / 256) as u64 & 0xff
    }
}
/// What the records are in bytes.
fn bytes<T: Rec>(n: usize, last: u8) -> Vec<u8> {
    let f = T::FIELDS[0];
    let mut b = vec![0; n * T::SIZE_IN_BYTES];
    for i in 0..n {
        crate::bits::spec_write(&mut b[i * T::SIZE_IN_BYTES..][..T::SIZE_IN_BYTES], f.0, f.1, value(i, n, last));
    }
    b
}
macro_rules! kinds {
    ($f:ident) => {
        match param(0) {
            0 => $f::<B1>(),
            1 => $f::<B3>(),
            _ => $f::<B8>(),
        }
    };
}
fn all<T: Rec>(v: &ArrayView<T>, n: usize, last: u8) -> bool {
    v.len() == n
        && v.is_empty() == (n == 0)
        && (0..n).all(|i| T::get(&v.at(i), 0) == value(i, n, last))
        && v.iter().len() == n
        && catch(|| T::get(&v.at(n), 0)).is_none()
}
fn vector<T: Rec>() {
    let (n, last) = (count(), sym(8) as u8);
    let mut v = match choose(3) {
        0 => Vector::<T>::with_len(n),
        k => {
            let mut v = Vector::<T>::new();
            if k == 1 {
                v.reserve(n);
            }
            for i in 0..n {
                check(v.len() == i, "number of records so far");
                v.grow();
            }
            v
        }
    };
    check(v.len() == n && v.is_empty() == (n == 0), "number of records");
    check(v.as_bytes() == &vec![0; n * T::SIZE_IN_BYTES][..], "new records are zero");
    for i in 0..n {
        T::set(&mut v.at_mut(i), 0, value(i, n, last));
    }
    let want = bytes::<T>(n, last);
    let c = v.clone();
    check(v.as_bytes() == &want[..] && c.as_bytes() == &want[..], "bytes of the records");
    check(v.as_view().as_bytes() == &want[..], "bytes of the view");
    check(all(&v.as_view(), n, last), "records of the view");
    check((0..n).all(|i| T::get(&c.at(i), 0) == value(i, n, last)), "records");
    v.grow();
    check(v.len() == n + 1 && v.as_bytes()[..want.len()] == want[..], "one more record changes no other");
    check(v.as_bytes()[want.len()..].iter().all(|b| *b == 0), "one more record is zero");
    cover(0);
}
#[no_mangle]
pub fn c05_count() {
    begin(1);
    kinds!(vector)
}
fn view<T: Rec>() {
    let (n, last) = (count(), sym(8) as u8);
    let mut b = bytes::<T>(n, last);
    b.resize(b.len() + choose(T::SIZE_IN_BYTES as u64), 7);
    let v: ArrayView<T> = ArrayView::new(&b);
    check(all(&v, n, last), "records of the view");
    check(v.slice(..).len() == n, "all of it");
    for i in (0..n).step_by(1 + n / 64) {
        let (h, t) = (v.slice(..i), v.slice(i..));
        check(h.len() == i && t.len() == n - i, "lengths of two parts");
        check(T::get(&t.at(0), 0) == value(i, n, last), "first record of the second part");
        check(T::get(&v.slice(i..=i).at(0), 0) == value(i, n, last), "one record");
        check(i == 0 || T::get(&h.at(i - 1), 0) == value(i - 1, n, last), "last record of the first part");
    }
    check(catch(|| v.slice(..n + 1)).is_none() && catch(|| v.slice(n + 1..)).is_none(), "no more than there is");
    cover(0);
}
#[no_mangle]
pub fn c06_count() {
    begin(1);
    kinds!(view)
}
fn iterate<T: Rec>() {
    let (n, last) = (count(), sym(8) as u8);
    let b = bytes::<T>(n, last);
    let v: ArrayView<T> = ArrayView::new(&b);
    let x = |r: <T as Struct<'_>>::Item| T::get(&r, 0);
    check(v.iter().map(x).eq((0..n).map(|i| value(i, n, last))), "all records");
    check(v.iter().rev().map(x).eq((0..n).rev().map(|i| value(i, n, last))), "all records in reverse");
    check(v.iter().count() == n && v.iter().last().is_some() == (n > 0), "number of records and the last one");
    let mut folded = 0;
    v.iter().for_each(|_| folded += 1);
    check(folded == n && v.iter().rfold(0, |k, _| k + 1) == n, "records of a fold");
    for k in (0..n + 2).step_by(1 + n / 64) {
        let (mut a, mut z) = (v.iter(), v.iter());
        match a.nth(k) {
            Some(r) => check(k < n && x(r) == value(k, n, last), "record by skipping"),
            None => check(k >= n, "no record left"),
        }
        match z.nth_back(k) {
            Some(r) => check(k < n && x(r) == value(n - 1 - k, n, last), "record by skipping from the end"),
            None => check(k >= n, "no record left at the end"),
        }
        let left = n.saturating_sub(k + 1);
        check(a.len() == left && z.size_hint() == (left, Some(left)), "remaining length");
        check(a.next().is_some() == (left > 0) && z.next_back().is_some() == (left > 0), "the record after it");
    }
    cover(0);
}
#[no_mangle]
pub fn c07_count() {
    begin(1);
    kinds!(iterate)
}
fn streamed<T: Rec>() {
    let (kind, n, last) = (param(1) as usize, count(), sym(8) as u8);
    let want = bytes::<T>(n, last);
    let s = storage(kind);
    {
        let mut v = create_external_vector::<T>(&*s, "v", "schema").unwrap();
        for i in 0..n {
            check(v.len() == i && v.is_empty() == (i == 0), "number of records so far");
            T::set(&mut v.grow().unwrap(), 0, value(i, n, last));
        }
        let a = v.close().unwrap();
        check(a.as_bytes() == &want[..] && all(&a, n, last), "records of the returned array");
    }
    let s = later(kind, s);
    let b = s.read("v", "schema").unwrap();
    check(b == &want[..], "bytes when opened later");
    check(all(&ArrayView::<T>::new(b), n, last), "records when opened later");
    // the same from memory
    let mut v = Vector::<T>::new();
    for i in 0..n {
        T::set(&mut v.grow(), 0, value(i, n, last));
    }
    s.write("w", "schema", v.as_view().as_ref()).unwrap();
    check(later(kind, s).read("w", "schema").unwrap() == &want[..], "bytes that were written at once");
    cover(0);
}
#[no_mangle]
pub fn c08_count() {
    begin(1);
    kinds!(streamed)
}
/// How many records item `i` has.
fn size(i: usize, n: usize, long: bool) -> usize {
    if long {
        // one item of n records
        [n, 0, 1][i]
    } else {
        i % 3
    }
}
/// Payload and the end of each item.
fn payload(items: usize, n: usize, long: bool, last: u8) -> (Vec<u8>, Vec<usize>) {
    let (mut data, mut ends) = (vec![], vec![]);
    for i in 0..items {
        let k = size(i, n, long);
        for j in 0..k {
            data.extend_from_slice(&[0, value(i + j, i + k, last) as u8]);
        }
        ends.push(data.len());
    }
    (data, ends)
}
fn item<'a>(mut it: impl Iterator<Item = RefVar<'a>>, i: usize, n: usize, long: bool, last: u8) -> bool {
    let k = size(i, n, long);
    (0..k).all(|j| match it.next() {
        Some(RefVar::B1(r)) => r.x() as u64 == value(i + j, i + k, last),
        _ => false,
    }) && it.next().is_none()
}
fn items<I: for<'a> IndexStruct<'a>>(a: &MultiArrayView<I, Var>, items: usize, n: usize, long: bool, last: u8) -> bool {
    let ahead = a.iter().enumerate().fold((0, true), |(c, ok), (i, it)| (c + 1, ok && i < items && item(it, i, n, long, last)));
    let back = a.iter().rev().fold((items, true), |(i, ok), it| (i.wrapping_sub(1), ok && i > 0 && item(it, i - 1, n, long, last)));
    a.len() == items
        && a.iter().len() == items
        && a.is_empty() == (items == 0)
        && (0..items).all(|i| item(a.at(i), i, n, long, last))
        && ahead == (items, true)
        && back == (0, true)
        && catch(|| a.at(items)).is_none()
}
fn multi<I: for<'a> IndexStruct<'a>>() {
    let (kind, n, last, long) = (param(1) as usize, count(), sym(8) as u8, choose(2) == 1);
    let many = if long { 3 } else { n };
    let (data, ends) = payload(many, n, long, last);
    let s = storage(kind);
    {
        let mut v = create_multi_vector::<I, Var>(&*s, "mv", "schema").unwrap();
        for i in 0..many {
            let mut b = v.grow().unwrap();
            let k = size(i, n, long);
            for j in 0..k {
                b.add_b1().set_x(value(i + j, i + k, last) as u8);
            }
        }
        let a = v.close().unwrap();
        check(items(&a, many, n, long, last), "items of the returned array");
    }
    let s = later(kind, s);
    let (i, d) = (s.read("mv_index", "index(schema)").unwrap(), s.read("mv", "schema").unwrap());
    let w = I::SIZE_IN_BYTES;
    check(d == &data[..], "payload when opened later");
    check(i.len() == (many + 1) * w, "entries of the index");
    let mut at = 0;
    for k in 0..=many {
        check(i[k * w..][..w] == (at as u64).to_le_bytes()[..w], "entry of the index");
        at = *ends.get(k).unwrap_or(&at);
    }
    let a: MultiArrayView<I, Var> = MultiArrayView::new(ArrayView::new(i), d);
    check(items(&a, many, n, long, last), "items when opened later");
    cover(0);
}
#[no_mangle]
pub fn c09_count() {
    begin(1);
    match param(0) {
        0 => multi::<Idx16>(),
        1 => multi::<Idx32>(),
        _ => multi::<Idx40>(),
    }
}
fn multi_view<I: for<'a> IndexStruct<'a>>() {
    let (n, last, long) = (count(), sym(8) as u8, choose(2) == 1);
    let many = if long { 3 } else { n };
    let (data, ends) = payload(many, n, long, last);
    let w = I::SIZE_IN_BYTES;
    let mut index = vec![0; w];
    for e in &ends {
        index.extend_from_slice(&(*e as u64).to_le_bytes()[..w]);
    }
    let a: MultiArrayView<I, Var> = MultiArrayView::new(ArrayView::new(&index), &data);
    check(items(&a, many, n, long, last), "items");
    for i in (0..many).step_by(1 + many / 64) {
        let (h, t) = (a.slice(..i), a.slice(i..));
        check(h.len() == i && t.len() == many - i, "lengths of two parts");
        check(t.at(0).count() == size(i, n, long), "records of the first item of the second part");
        check(i == 0 || h.at(i - 1).count() == size(i - 1, n, long), "records of the last item of the first part");
        check(a.iter().nth(i).map(|x| x.count()) == Some(size(i, n, long)), "item by skipping");
    }
    check(catch(|| a.slice(..many + 1)).is_none(), "no more than there is");
    cover(0);
}
#[no_mangle]
pub fn c10_count() {
    begin(1);
    match param(0) {
        0 => multi_view::<Idx16>(),
        1 => multi_view::<Idx32>(),
        _ => multi_view::<Idx40>(),
    }
}
/// Data and schemas of every length; any size in the header.
#[no_mangle]
pub fn c11_count() {
    begin(3);
    let n = count();
    let mut data = vec![7; n + 16];
    data[..8].copy_from_slice(&(n as u64).to_le_bytes());
    let mut schema = vec![b's'; n];
    let want = String::from_utf8(schema.clone()).unwrap();
    match choose(7) {
        0 => (),
        1 => data[..8].copy_from_slice(&sym(64).to_le_bytes()),
        2 => drop(data.pop()),
        3 => data.push(0),
        4 => drop(schema.pop()),
        5 => schema.push(b's'),
        _ => {
            if let Some(c) = schema.last_mut() {
                *c = sym(8) as u8;
            }
        }
    }
    let s = storage(0);
    for (n, b) in [("res", &data), ("res.schema", &schema)] {
        use std::io::Write;
        s.create_output_stream(n).unwrap().borrow_mut().write_all(b).unwrap();
    }
    judge(s.read("res", &want), Some(&data[..]), Some(&schema[..]), &want);
}
/// Resources and schemas of every length, written in one go, in small pieces, or as a vector.
#[no_mangle]
pub fn c12_count() {
    begin(1);
    let (kind, n, last) = (param(0) as usize, count(), sym(8) as u8);
    let data = bytes::<B1>(n, last);
    let schema = "line\n".repeat(n / 5) + &"structs"[..n % 5];
    let s = storage(kind);
    match choose(3) {
        0 => s.write("res", &schema, &data).unwrap(),
        1 => {
            let mut v = create_external_vector::<B1>(&*s, "res", &schema).unwrap();
            for b in &data {
                v.grow().unwrap().set_x(*b);
            }
            v.close().unwrap();
        }
        _ => {
            use std::io::Write;
            let o = s.create_output_stream("res").unwrap();
            s.create_output_stream("res.schema").unwrap().borrow_mut().write_all(schema.as_bytes()).unwrap();
            let mut h = ResourceHandle::try_new(&*s, "res".into(), schema.clone(), o).unwrap();
            let mut at = 0;
            while at < n {
                let k = (at % 5).min(n - at).max(1);
                h.write(&data[at..at + k]).unwrap();
                at += k;
            }
            check(h.close().unwrap() == &data[..], "bytes of the closed writer");
        }
    }
    framed(&stored(kind, &s, "res"), &data);
    check(stored(kind, &s, "res.schema") == schema.as_bytes(), "stored schema");
    cover(0);
}
/// Names of every length, and paths of every depth.
#[no_mangle]
pub fn c15_count() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let n = choose(240) + 1;
    let deep = choose(2) == 1;
    let path = if deep { "d/".repeat(n % 60) + &"r".repeat(1 + n / 60) } else { "r".repeat(n) };
    let mut other = path.clone();
    other.pop();
    other.push('s');
    let longer = path.clone() + "r";
    let x = [sym(8) as u8, 1];
    s.write(&path, "schema", &x).unwrap();
    s.write(&longer, "schema", &[3]).unwrap();
    check(s.exists(&path) && !s.exists(&other) && s.exists(&longer), "existence");
    let s = later(kind, s);
    check(s.read(&path, "schema").unwrap() == &x[..], "bytes of the resource");
    check(s.read(&longer, "schema").unwrap() == &[3][..], "bytes of the other resource");
    check(s.read_resource(&other).is_err() && !s.exists(&other), "what was not written is not found");
    if deep {
        let mut below = s.clone();
        for _ in 0..n % 60 {
            below = below.subdir("d");
        }
        check(below.read(&path[2 * (n % 60)..], "schema").unwrap() == &x[..], "bytes by a chain of subdirectories");
    }
    cover(0);
}
/// Writers that are dropped after any number of appends.
#[no_mangle]
pub fn c19_count() {
    begin(1);
    let n = count();
    let s = storage(0);
    let close = choose(2) == 1;
    let quiet = if choose(2) == 0 {
        let mut v = create_external_vector::<B3>(&*s, "v", "schema").unwrap();
        for _ in 0..n {
            v.grow().unwrap();
        }
        catch(|| if close { v.close().map(|_| ()).unwrap() } else { drop(v) }).is_some()
    } else {
        let mut v = create_multi_vector::<Idx16, Var>(&*s, "mv", "schema").unwrap();
        for i in 0..n {
            let mut b = v.grow().unwrap();
            for _ in 0..i % 3 {
                b.add_b1();
            }
        }
        catch(|| if close { v.close().map(|_| ()).unwrap() } else { drop(v) }).is_some()
    };
    check(quiet == close, "a writer that is not closed panics, others do not");
    cover(0);
}
/// Schemas of every number of lines up to 80, changed in one place.
#[no_mangle]
pub fn c20_count() {
    begin(1);
    let n = choose(80) + 1;
    let old: Vec<String> = (0..n).map(|i| if i % 3 == 2 { "}".into() } else { format!("line {}", i) }).collect();
    let i = [0, n / 2, n - 1][choose(3)];
    let mut new = old.clone();
    match choose(4) {
        0 => new[i] = "changed".to_string(),
        1 => drop(new.remove(i)),
        2 => new.insert(i, "added".to_string()),
        _ => new.truncate(i),
    }
    let (mut have, mut want) = (old.join("\n"), new.join("\n"));
    if choose(2) == 1 {
        std::mem::swap(&mut have, &mut want);
    }
    explained(have, want);
}
/// Arrays of every length as text.
#[no_mangle]
pub fn c22_count() {
    begin(1);
    let n = count();
    let mut v: Vector<B1> = Vector::with_len(n);
    for i in 0..n.min(11) {
        v.at_mut(i).set_x(100 + i as u8);
    }
    let items: Vec<String> = (0..n).map(|i| format!("B1 {{ x: {} }}", if i < 11 { 100 + i } else { 0 })).collect();
    container(&text(&v), "Vector", n, &items, "B1 {");
    container(&text(v.as_view()), "ArrayView", n, &items, "B1 {");
    container(&text(v.as_view().iter()), "ArrayViewIter", n, &items, "B1 {");
    cover(0);
}
