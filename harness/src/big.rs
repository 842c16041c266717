//! Long containers: positions around powers of two and the ends; indices are symbolic.
use crate::bits::{spec_read, spec_value};
use crate::ext::*;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::ops::Bound;

/// Bytes without a short period.
fn pattern(n: usize) -> Vec<u8> {
    let mut x = 0x1234_5678u32;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            (x >> 24) as u8
        })
        .collect()
}
/// A position of interest in a container of `n` elements.
fn place(n: usize) -> usize {
    [0, 1, 15, 16, 63, 64, 65, 127, 128, 254, 255, 256, 257, n.wrapping_sub(1), n, n + 1, usize::MAX / 2 + 1, usize::MAX, 65535, 65536][choose(if n > 65536 { 20 } else { 18 })]
}
/// Field of every record.
fn values<T: Rec>(data: &[u8]) -> Vec<u64> {
    let f = T::FIELDS[0];
    data.chunks_exact(T::SIZE_IN_BYTES).map(|s| spec_value(spec_read(s, f.0, f.1), f.1, f.2)).collect()
}
fn is<T: Rec>(r: &<T as Struct<'_>>::Item, want: &[u64], i: usize) -> bool {
    T::get(r, 0) == want[i]
}
macro_rules! kinds {
    ($f:ident) => {
        match param(0) {
            0 => $f::<B1>(param(1) as usize),
            1 => $f::<B3>(param(1) as usize),
            _ => $f::<B8>(param(1) as usize),
        }
    };
}
fn bounds(n: usize) -> (Bound<usize>, Bound<usize>) {
    let f = |k| match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(place(n)),
        _ => Bound::Excluded(place(n)),
    };
    (f(choose(3)), f(choose(3)))
}
/// Elements and slices of a long view.
fn view<T: Rec>(n: usize) {
    let data = pattern(n * T::SIZE_IN_BYTES + T::SIZE_IN_BYTES - 1);
    let want = values::<T>(&data);
    let v: ArrayView<T> = ArrayView::new(&data);
    check(v.len() == n, "number of elements");
    let (mut w, mut lo, mut hi) = (v.clone(), 0, n);
    if choose(2) == 1 {
        let r = bounds(n);
        let got = catch(|| w.slice(r));
        let sel = selected(r.0, r.1, hi - lo);
        check(got.is_some() == sel.is_some(), "slicing panics exactly when out of range");
        match (got, sel) {
            (Some(x), Some((s, e))) => {
                w = x;
                hi = lo + e;
                lo += s;
            }
            _ => {
                cover(0);
                return;
            }
        }
        check(w.len() == hi - lo, "length of a slice");
        check(w.is_empty() == (hi == lo), "emptiness of a slice");
    }
    let i = place(hi - lo);
    let got = catch(|| {
        let r = w.at(i);
        T::get(&r, 0);
        r
    });
    check(got.is_some() == (i < hi - lo), "access panics exactly when out of range");
    if let Some(r) = got {
        check(is::<T>(&r, &want, lo + i), "element at an arbitrary index");
        cover(1);
    }
}
#[no_mangle]
pub fn c06_big() {
    begin(2);
    kinds!(view)
}
/// Iteration over a long view from both ends.
fn iterate<T: Rec>(n: usize) {
    let data = pattern(n * T::SIZE_IN_BYTES);
    let want = values::<T>(&data);
    let v: ArrayView<T> = ArrayView::new(&data);
    let (mut it, mut lo, mut hi) = (v.iter(), 0, n);
    let ok = |r: Option<<T as Struct<'_>>::Item>, i: Option<usize>| match (r, i) {
        (None, None) => (),
        (Some(r), Some(i)) => check(is::<T>(&r, &want, i), "the right record"),
        (None, _) => check(false, "a record is missing"),
        (_, None) => check(false, "no record left but one is returned"),
    };
    for _ in 0..3 {
        match choose(4) {
            0 => {
                ok(it.next(), if lo < hi { Some(lo) } else { None });
                lo = hi.min(lo + 1);
            }
            1 => {
                ok(it.next_back(), if lo < hi { Some(hi - 1) } else { None });
                if lo < hi {
                    hi -= 1;
                }
            }
            2 => {
                let k = place(n);
                let r = it.nth(k);
                if k < hi - lo {
                    ok(r, Some(lo + k));
                    lo += k + 1;
                } else {
                    ok(r, None);
                    lo = hi;
                }
            }
            _ => {
                let k = place(n);
                let r = it.nth_back(k);
                if k < hi - lo {
                    ok(r, Some(hi - 1 - k));
                    hi -= k + 1;
                } else {
                    ok(r, None);
                    hi = lo;
                }
            }
        }
        check(it.len() == hi - lo, "remaining length");
        check(it.size_hint() == (hi - lo, Some(hi - lo)), "size hint");
    }
    cover(0);
}
#[no_mangle]
pub fn c07_big() {
    begin(1);
    kinds!(iterate)
}
/// All of a long view by every way to iterate.
#[no_mangle]
pub fn c07_whole() {
    begin(1);
    let n = param(0) as usize;
    let data = pattern(n * 3);
    let want = values::<B3>(&data);
    let v: ArrayView<B3> = ArrayView::new(&data);
    let x = |r: RefB3| r.x() as u64;
    let ok = match choose(8) {
        0 => v.iter().map(x).eq(want.iter().cloned()),
        1 => v.iter().rev().map(x).eq(want.iter().rev().cloned()),
        2 => {
            let mut s = 0u64;
            v.iter().for_each(|r| s = s.wrapping_mul(31).wrapping_add(r.x() as u64));
            s == want.iter().fold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(*x))
        }
        3 => v.iter().rfold(0u64, |s, r| s.wrapping_mul(31).wrapping_add(r.x() as u64))
            == want.iter().rfold(0u64, |s, x| s.wrapping_mul(31).wrapping_add(*x)),
        4 => {
            let k = choose(70) + 1;
            v.iter().step_by(k).map(x).eq(want.iter().step_by(k).cloned())
        }
        5 => {
            let k = choose(70) + 1;
            v.iter().rev().step_by(k).map(x).eq(want.iter().rev().step_by(k).cloned())
        }
        6 => v.iter().count() == n && v.iter().last().map(x) == want.last().cloned(),
        _ => {
            let (mut it, mut ok) = (v.iter(), true);
            for i in 0..n {
                let r = if i % 2 == 0 { it.next() } else { it.next_back() };
                let k = if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 };
                ok &= r.map(x) == Some(want[k]);
            }
            ok && it.next().is_none() && it.next_back().is_none()
        }
    };
    check(ok, "iteration of a long view");
    cover(0);
}
/// A multivector view of many items.
#[no_mangle]
pub fn c10_big() {
    begin(2);
    let n = param(0) as usize;
    // item i has i % 3 records
    let (mut index, mut data, mut want) = (vec![0u8; 4], vec![], vec![]);
    for i in 0..n {
        let mut s = vec![];
        for k in 0..i % 3 {
            let x = (i * 7 + k) as u16;
            data.push(1);
            data.extend_from_slice(&x.to_le_bytes());
            s.push(x);
        }
        want.push(s);
        index.extend_from_slice(&(data.len() as u32).to_le_bytes());
    }
    // many allocations: left alone at the end
    let want = want.leak();
    let v: MultiArrayView<Idx32, Var> = MultiArrayView::new(ArrayView::new(&index), &data);
    check(v.len() == n, "number of items");
    fn xs<'a, I: Iterator<Item = RefVar<'a>>>(it: I) -> Vec<u16> {
        it.map(|r| match r {
            RefVar::B2(r) => r.x(),
            _ => 0xffff,
        })
        .collect()
    }
    match choose(if n > 1000 { 2 } else { 4 }) {
        0 => {
            let i = if n > 1000 { place(n) } else { sym(64) as usize };
            let got = catch(|| v.at(i));
            check(got.is_some() == (i < n), "access panics exactly when out of range");
            if let Some(it) = got {
                check(xs(it) == want[concrete(i as u64) as usize], "item at an arbitrary index");
                cover(0);
            }
        }
        1 => {
            let r = bounds(n);
            let got = catch(|| v.slice(r));
            let sel = selected(r.0, r.1, n);
            check(got.is_some() == sel.is_some(), "slicing panics exactly when out of range");
            if let (Some(w), Some((s, e))) = (got, sel) {
                check(w.len() == e - s, "length of a slice");
                let j = place(n);
                let it = catch(|| w.at(j));
                check(it.is_some() == (j < e - s), "access to a slice panics exactly when out of range");
                if let Some(it) = it {
                    check(xs(it) == want[s + j], "item of a slice");
                    cover(1);
                }
            }
        }
        2 => {
            let i = if n > 1000 { [0, 300, n - 1][choose(3)] } else { choose(n as u64) };
            let mut it = v.iter();
            check(it.nth(i).map(xs) == Some(want[i].clone()), "item by skipping");
            check(it.len() == n - 1 - i, "remaining length");
            check(it.next_back().map(xs) == if i + 1 < n { Some(want[n - 1].clone()) } else { None }, "last item");
        }
        _ => {
            check(v.iter().map(xs).eq(want.iter().cloned()), "all items");
            check(v.iter().rev().map(xs).eq(want.iter().rev().cloned()), "all items in reverse");
        }
    }
}
/// A long vector: any element is changed, the others stay.
fn vector<T: Rec>(n: usize) {
    let f = T::FIELDS[0];
    let (mut v, mut want): (Vector<T>, Vec<u64>) = match choose(2) {
        0 => (Vector::with_len(n), vec![0; n]),
        _ => {
            let mut v = Vector::new();
            let mut want = vec![];
            if choose(2) == 1 {
                v.reserve(n / 2);
            }
            for i in 0..n {
                T::set(&mut v.grow(), 0, i as u64 * 0x0101_0101);
                want.push(spec_value(i as u64 * 0x0101_0101 & (!0 >> (64 - f.1)), f.1, f.2));
            }
            (v, want)
        }
    };
    check(v.len() == n, "length");
    let all = |v: &Vector<T>, want: &[u64]| {
        v.len() == want.len()
            && v.as_view().iter().zip(want).all(|(r, w)| T::get(&r, 0) == *w)
            && v.as_bytes().len() == want.len() * T::SIZE_IN_BYTES
    };
    check(all(&v, &want), "all elements");
    let i = [0, 1, 15, 63, 64, 127, 128, 254, 255, 256, 257, n - 2, n - 1][choose(13)];
    T::set(&mut v.at_mut(i), 0, 0x55);
    want[i] = 0x55;
    check(all(&v, &want), "all elements after a change");
    T::set(&mut v.grow(), 0, 0x2a);
    want.push(0x2a);
    v.reserve(100);
    let c = v.clone();
    T::set(&mut v.at_mut(n), 0, 0x2b);
    check(all(&c, &want), "all elements of a copy");
    let j = sym(64) as usize;
    let got = catch(|| {
        let r = v.at(j);
        T::get(&r, 0)
    });
    check(got.is_some() == (j <= n), "access panics exactly when out of range");
    want[n] = 0x2b;
    if let Some(x) = got {
        check(x == want[j], "element at an arbitrary index");
        cover(0);
    }
}
#[no_mangle]
pub fn c05_big() {
    begin(1);
    kinds!(vector)
}
/// A vector of many records as a whole, compared by its bytes.
fn whole<T: Rec>(n: usize) {
    let size = T::SIZE_IN_BYTES;
    let fields = |b: &mut [u8], i: usize, x: u64| {
        let f = T::FIELDS[0];
        crate::bits::spec_write(&mut b[i * size..(i + 1) * size], f.0, f.1, x);
    };
    let mut want = vec![0; n * size];
    let mut v = match choose(3) {
        0 => Vector::<T>::with_len(n),
        k => {
            let mut v = Vector::<T>::new();
            if k == 1 {
                v.reserve(n);
            }
            for i in 0..n {
                let mut r = v.grow();
                if i % 1000 == 7 {
                    T::set(&mut r, 0, i as u64);
                    fields(&mut want, i, i as u64);
                }
            }
            v
        }
    };
    let mut copy = None;
    for _ in 0..2 {
        match choose(4) {
            0 => {
                let i = [0, n / 2, n - 1][choose(3)];
                let x = sym(8);
                T::set(&mut v.at_mut(i), 0, x);
                fields(&mut want, i, x);
            }
            1 => {
                let x = sym(8);
                T::set(&mut v.grow(), 0, x);
                want.resize(want.len() + size, 0);
                let i = want.len() / size - 1;
                fields(&mut want, i, x);
            }
            2 => v.reserve([1, 5000][choose(2)]),
            _ => {
                // goes on with the copy
                let c = v.clone();
                copy = Some((std::mem::replace(&mut v, c), want.clone()));
                cover(0);
            }
        }
        check(v.len() * size == want.len(), "number of records");
        check(v.as_bytes() == &want[..], "bytes of the vector");
        check(v.as_view().as_bytes() == &want[..], "bytes of the view");
    }
    if let Some((c, want)) = copy {
        check(c.as_bytes() == &want[..], "bytes of the vector that was copied");
    }
}
#[no_mangle]
pub fn c05_whole() {
    begin(1);
    kinds!(whole)
}
/// So many small records that their number needs more than two bytes.
#[no_mangle]
pub fn c08_many() {
    begin(1);
    let (kind, n) = (param(0) as usize, param(1) as usize);
    let s = storage(kind);
    let want = pattern(n);
    {
        let mut v = create_external_vector::<B1>(&*s, "v", "schema").unwrap();
        for i in 0..n {
            v.grow().unwrap().set_x(want[i]);
            if i % 4096 == 1 || i > n - 3 {
                check(v.len() == i + 1, "number of records so far");
            }
        }
        let a = v.close().unwrap();
        check(a.as_bytes() == &want[..], "records");
        check(a.len() == n, "number of records");
    }
    let s = later(kind, s);
    let a: ArrayView<B1> = ArrayView::new(s.read("v", "schema").unwrap());
    check(a.len() == n && a.as_bytes() == &want[..], "records when opened later");
    cover(0);
}
/// So many items that their number needs more than two bytes.
#[no_mangle]
pub fn c09_many() {
    begin(1);
    let (kind, n) = (param(0) as usize, param(1) as usize);
    let s = storage(kind);
    let want = pattern(n);
    {
        let mut v = create_multi_vector::<Idx24, Var>(&*s, "mv", "schema").unwrap();
        for i in 0..n {
            let mut b = v.grow().unwrap();
            if want[i] % 2 == 0 {
                b.add_b1().set_x(want[i]);
            }
        }
        v.close().unwrap();
    }
    let s = later(kind, s);
    let index: ArrayView<Idx24> = ArrayView::new(s.read("mv_index", "index(schema)").unwrap());
    let a: MultiArrayView<Idx24, Var> = MultiArrayView::new(index, s.read("mv", "schema").unwrap());
    check(a.len() == n, "number of items");
    let mut ok = true;
    for (it, x) in a.iter().zip(&want) {
        let mut it = it;
        if *x % 2 == 0 {
            ok &= match it.next() {
                Some(RefVar::B1(r)) => r.x() == *x,
                _ => false,
            };
        }
        ok &= it.next().is_none();
    }
    check(ok, "all items");
    cover(0);
}
/// More than the buffer of the writers is written at once.
#[no_mangle]
pub fn c08_once() {
    begin(1);
    let (kind, n) = (param(0) as usize, param(1) as usize);
    let s = storage(kind);
    let mut data = vec![7u8; n];
    for i in [0, 1, 33_554_431, 33_554_432, 33_554_433, n - 9, n - 1] {
        data[i] = sym(8) as u8;
    }
    s.write("r", "schema", &data).unwrap();
    check(s.read("r", "schema").unwrap() == &data[..], "all bytes");
    let s = later(kind, s);
    check(s.read("r", "schema").unwrap() == &data[..], "all bytes when opened later");
    cover(0);
}
/// An item with so many records that their number needs more than two bytes.
#[no_mangle]
pub fn c09_item() {
    begin(1);
    let (kind, n) = (param(0) as usize, param(1) as usize);
    let s = storage(kind);
    let want = pattern(n);
    // what comes before and after it
    let (before, after) = (choose(2), choose(2));
    {
        let mut v = create_multi_vector::<Idx24, Var>(&*s, "mv", "schema").unwrap();
        for _ in 0..before {
            v.grow().unwrap().add_b3().set_x(77);
        }
        {
            let mut b = v.grow().unwrap();
            for x in &want {
                if x % 2 == 0 {
                    b.add_b1().set_x(*x);
                } else {
                    b.add_b3().set_x(*x as u32);
                }
            }
        }
        for _ in 0..after {
            v.grow().unwrap().add_b1().set_x(88);
        }
        v.close().unwrap();
    }
    let s = later(kind, s);
    let index: ArrayView<Idx24> = ArrayView::new(s.read("mv_index", "index(schema)").unwrap());
    let a: MultiArrayView<Idx24, Var> = MultiArrayView::new(index, s.read("mv", "schema").unwrap());
    check(a.len() == before + 1 + after, "number of items");
    let mut it = a.at(before);
    let mut ok = true;
    for x in &want {
        ok &= match it.next() {
            Some(RefVar::B1(r)) => x % 2 == 0 && r.x() == *x,
            Some(RefVar::B3(r)) => x % 2 == 1 && r.x() == *x as u32,
            _ => false,
        };
    }
    check(ok, "all records of the item");
    check(it.next().is_none(), "no other record");
    check(before == 0 || a.at(0).count() == 1, "the item before");
    check(after == 0 || a.at(before + 1).count() == 1, "the item after");
    cover(0);
}

define_variadic_struct!(Step, RefStep, BuildStep, Idx24,
    1 => (B1, add_b1), 2 => (B2, add_b2), 3 => (K64, add_k64));

/// Items of one record each that take exactly `total` bytes: the sizes of their records.
fn steps(mut total: usize) -> Vec<usize> {
    let mut out = vec![];
    while total > 0 {
        let n = if total > 65537 + 2 {
            65536
        } else if total % 2 == 1 {
            2
        } else {
            1
        };
        out.push(n);
        total -= n + 1;
    }
    out
}
/// Offsets up to the last one that fits the index.
fn limit<I: for<'b> IndexStruct<'b>>(kind: usize, most: usize) {
    let total = most - choose(3);
    let sizes = steps(total);
    let last = sym(8);
    let s = storage(kind);
    {
        let mut v = create_multi_vector::<I, Step>(&*s, "mv", "schema").unwrap();
        for (i, n) in sizes.iter().enumerate() {
            let x = if i + 1 == sizes.len() { last } else { i as u64 & 255 };
            let mut b = v.grow().unwrap();
            match n {
                1 => B1::set(&mut b.add_b1(), 0, x),
                2 => B2::set(&mut b.add_b2(), 0, x),
                _ => K64::set(&mut b.add_k64(), 0, x),
            }
        }
        check(v.close().map(|v| v.len()).ok() == Some(sizes.len()), "number of items when closed");
    }
    let s = later(kind, s);
    let data = s.read("mv", "schema").unwrap();
    check(data.len() == total, "number of bytes");
    let index: ArrayView<I> = ArrayView::new(s.read("mv_index", "index(schema)").unwrap());
    let a: MultiArrayView<I, Step> = MultiArrayView::new(index, data);
    check(a.len() == sizes.len(), "number of items");
    let mut ok = true;
    for (i, n) in sizes.iter().enumerate() {
        let x = if i + 1 == sizes.len() { last } else { i as u64 & 255 };
        let mut it = a.at(i);
        ok &= match it.next() {
            Some(RefStep::B1(r)) => *n == 1 && B1::get(&r, 0) == x,
            Some(RefStep::B2(r)) => *n == 2 && B2::get(&r, 0) == x,
            Some(RefStep::K64(r)) => *n == 65536 && K64::get(&r, 0) == x,
            None => false,
        };
        ok &= it.next().is_none();
    }
    check(ok, "all items");
    cover(0);
}
#[no_mangle]
pub fn c09_limit() {
    begin(1);
    let kind = param(1) as usize;
    match param(0) {
        0 => limit::<Idx8>(kind, 255),
        1 => limit::<Idx16>(kind, 65535),
        _ => limit::<Idx24>(kind, 16777215),
    }
}
