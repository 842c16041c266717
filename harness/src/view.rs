//! C06: array views. C07: array iteration. C10: multivector views.
use crate::bits::{spec_read, spec_value};
use crate::rec::*;
use crate::sx::*;
use flatdata::*;
use std::iter::FusedIterator;
use std::ops::Bound;

fn arbitrary(n: usize) -> Box<[u8]> {
    let mut b = vec![0u8; n].into_boxed_slice();
    fill(&mut b);
    b
}
fn same<T: Rec>(r: &<T as Struct<'_>>::Item, s: &[u8]) -> bool {
    let mut ok = true;
    for (k, f) in T::FIELDS.iter().enumerate() {
        ok &= T::get(r, k) == spec_value(spec_read(s, f.0, f.1), f.1, f.2);
    }
    ok
}
fn bound(kind: usize, v: usize) -> Bound<usize> {
    match kind {
        0 => Bound::Unbounded,
        1 => Bound::Included(v),
        _ => Bound::Excluded(v),
    }
}
/// What the bounds select out of `len` elements, None if not within them.
pub fn selected(a: Bound<usize>, b: Bound<usize>, len: usize) -> Option<(usize, usize)> {
    let s = match a {
        Bound::Unbounded => 0,
        Bound::Included(x) => x as u128,
        Bound::Excluded(x) => x as u128 + 1,
    };
    let e = match b {
        Bound::Unbounded => len as u128,
        Bound::Included(x) => x as u128 + 1,
        Bound::Excluded(x) => x as u128,
    };
    if s <= e && e <= len as u128 {
        Some((s as usize, e as usize))
    } else {
        None
    }
}
fn holds<T: Rec>(v: &ArrayView<T>, data: &[u8], s: usize, e: usize) {
    let n = T::SIZE_IN_BYTES;
    check(v.len() == e - s, "number of elements");
    check(v.is_empty() == (e == s), "emptiness");
    check(v.as_bytes().len() >= (e - s) * n, "raw bytes cover the elements");
    check(v.as_ref().len() == v.as_bytes().len(), "AsRef gives the raw bytes");
    for i in 0..e - s {
        check(same::<T>(&v.at(i), &data[(s + i) * n..][..n]), "element");
        check(v.as_bytes()[i * n..][..n] == data[(s + i) * n..][..n], "raw bytes");
        check(v.as_ref()[i * n..][..n] == data[(s + i) * n..][..n], "raw bytes by AsRef");
    }
}
fn length<T: Rec>(records: usize) -> usize {
    choose(((records + 1) * T::SIZE_IN_BYTES) as u64)
}
fn at<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let data = arbitrary(length::<T>(3));
    let v: ArrayView<T> = ArrayView::new(&data);
    holds(&v, &data, 0, data.len() / n);
    let i = sym(64) as usize;
    note(1, i as u64);
    match catch(|| {
        let r = v.at(i);
        T::get(&r, 0);
        r
    }) {
        Some(r) => {
            check(i < data.len() / n, "no access out of range");
            let i = concrete(i as u64) as usize;
            check(same::<T>(&r, &data[i * n..][..n]), "element at an arbitrary index");
            cover(0)
        }
        None => {
            check(i >= data.len() / n, "access in range does not panic");
            cover(1)
        }
    }
}
macro_rules! kinds {
    ($f:ident $(, $a:expr)*) => {
        match param(0) {
            0 => $f::<B1>($($a),*),
            1 => $f::<B3>($($a),*),
            2 => $f::<B8>($($a),*),
            3 => $f::<Wide>($($a),*),
            _ => $f::<Mix>($($a),*),
        }
    };
}
#[no_mangle]
pub fn c06_at() {
    begin(2);
    kinds!(at)
}
fn slice<T: Rec>(records: usize) {
    let n = T::SIZE_IN_BYTES;
    // whole records and one incomplete one
    let l = choose(records as u64 + 1) * n + if n > 1 { choose(2) } else { 0 };
    let data = arbitrary(l);
    let len = data.len() / n;
    let v: ArrayView<T> = ArrayView::new(&data);
    let (a, b) = (sym(64) as usize, sym(64) as usize);
    note(1, a as u64);
    note(2, b as u64);
    let (ba, bb) = (bound(param(1) as usize / 3, a), bound(param(1) as usize % 3, b));
    let want = selected(ba, bb, len);
    let got = catch(|| match param(1) {
        // the range types of the language
        0 => v.slice(..),
        1 => v.slice(..=b),
        2 => v.slice(..b),
        3 => v.slice(a..),
        4 => v.slice(a..=b),
        5 => v.slice(a..b),
        _ => v.slice((ba, bb)),
    });
    check(got.is_some() == want.is_some(), "slicing panics exactly when out of range");
    if let (Some(w), Some((s, e))) = (got, want) {
        let (s, e) = (concrete(s as u64) as usize, concrete(e as u64) as usize);
        holds(&w, &data, s, e);
        let mut it = w.iter();
        for i in s..e {
            let r = it.next().unwrap();
            check(same::<T>(&r, &data[i * n..][..n]), "iterated element");
        }
        check(it.next().is_none(), "no more elements than selected");
        // a slice of the slice
        let c = sym(64) as usize;
        let again = catch(|| w.slice(c..));
        check(again.is_some() == (c <= e - s), "slicing a slice panics exactly when out of range");
        if let Some(x) = again {
            let c = concrete(c as u64) as usize;
            holds(&x, &data, s + c, e);
            check(catch(|| x.at(e - s - c)).is_none(), "no access past the end of a slice");
        }
        let again = catch(|| w.slice(..c));
        check(again.is_some() == (c <= e - s), "slicing a slice panics exactly when out of range");
        if let Some(x) = again {
            let c = concrete(c as u64) as usize;
            holds(&x, &data, s, s + c);
            check(catch(|| x.at(c)).is_none(), "no access past the end of a slice");
        }
        cover(0)
    } else if param(1) != 0 {
        cover(1)
    } else {
        check(false, "the whole range is always valid");
    }
}
#[no_mangle]
pub fn c06_slice() {
    begin(if param(1) == 0 { 1 } else { 2 });
    kinds!(slice, param(2) as usize)
}

// ---- C07 --------------------------------------------------------------------
/// Any sequence of `steps` operations, compared with the range lo..hi of
/// positions that are still to come.
fn deque<I>(mut it: I, n: usize, steps: usize, same: &dyn Fn(I::Item, usize) -> bool)
where
    I: DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone,
{
    let (mut lo, mut hi) = (0, n);
    let exact = |it: &I, lo: usize, hi: usize| {
        check(it.len() == hi - lo, "remaining length");
        check(it.size_hint() == (hi - lo, Some(hi - lo)), "size hint");
    };
    let is = |r: Option<I::Item>, i: Option<usize>| match (r, i) {
        (None, None) => (),
        (Some(r), Some(i)) => check(same(r, i), "the right record"),
        (None, _) => check(false, "a record is missing"),
        (_, None) => check(false, "no record left but one is returned"),
    };
    exact(&it, lo, hi);
    for _ in 0..steps {
        match choose(5) {
            0 => {
                let r = it.next();
                is(r, if lo < hi { Some(lo) } else { None });
                lo = hi.min(lo + 1);
            }
            1 => {
                let r = it.next_back();
                is(r, if lo < hi { Some(hi - 1) } else { None });
                hi = lo.max(hi.wrapping_sub(1)).min(hi);
            }
            2 => {
                let k = sym(64) as usize;
                let r = it.nth(k);
                if k < hi - lo {
                    let k = concrete(k as u64) as usize;
                    is(r, Some(lo + k));
                    lo += k + 1;
                } else {
                    is(r, None);
                    lo = hi;
                }
            }
            3 => {
                let k = sym(64) as usize;
                let r = it.nth_back(k);
                if k < hi - lo {
                    let k = concrete(k as u64) as usize;
                    is(r, Some(hi - 1 - k));
                    hi -= k + 1;
                } else {
                    is(r, None);
                    hi = lo;
                }
            }
            _ => {
                // an independent copy: run it dry, then go on with the original
                let mut c = it.clone();
                exact(&c, lo, hi);
                for i in lo..hi {
                    is(c.next(), Some(i));
                }
                is(c.next(), None);
                is(c.next_back(), None);
                exact(&c, 0, 0);
            }
        }
        exact(&it, lo, hi);
    }
    note(1, lo as u64);
    note(2, hi as u64);
    // consume what is left in some way
    match choose(10) {
        0 => check(it.count() == hi - lo, "count"),
        1 => is(it.last(), if lo < hi { Some(hi - 1) } else { None }),
        2 => {
            let end = it.fold(lo, |i, r| {
                check(same(r, i), "folded record");
                i + 1
            });
            check(end == hi, "fold visits every record");
        }
        3 => {
            let end = it.rfold(hi, |i, r| {
                check(same(r, i - 1), "record folded from the back");
                i - 1
            });
            check(end == lo, "rfold visits every record");
        }
        4 => {
            let mut i = hi;
            for r in it.rev() {
                i -= 1;
                check(same(r, i), "record in reverse");
            }
            check(i == lo, "reversed iteration visits every record");
        }
        5 => {
            let k = choose(3) + 1;
            let mut i = lo;
            for r in it.step_by(k) {
                check(same(r, i), "record with steps");
                i += k;
            }
            check(i >= hi, "stepping visits all records");
        }
        6 => {
            let k = choose(4);
            let s = it.skip(k);
            let rest = (hi - lo).saturating_sub(k);
            check(s.len() == rest, "length after skip");
            let v: Vec<I::Item> = s.collect();
            check(v.len() == rest, "collecting after skip");
            for (i, r) in v.into_iter().enumerate() {
                check(same(r, lo + k + i), "record after skip");
            }
        }
        7 => {
            let z = it.clone().zip(it.rev());
            check(z.len() == hi - lo, "length of a zip");
            let mut i = 0;
            for (a, b) in z {
                check(same(a, lo + i) & same(b, hi - 1 - i), "zipped records");
                i += 1;
            }
            check(i == hi - lo, "zip visits all records");
        }
        8 => {
            let k = choose(4);
            let t = it.take(k).enumerate();
            check(t.len() == k.min(hi - lo), "length of take");
            let mut n = 0;
            for (i, r) in t {
                check(same(r, lo + i), "record of take");
                n += 1;
            }
            check(n == k.min(hi - lo), "number of records taken");
        }
        _ => {
            for i in lo..hi {
                is(it.next(), Some(i));
            }
            for _ in 0..3 {
                is(it.next(), None);
                is(it.next_back(), None);
                is(it.nth(0), None);
                exact(&it, 0, 0);
            }
        }
    }
    cover(0);
}
fn iterate<T: Rec>(records: usize, steps: usize) {
    let n = T::SIZE_IN_BYTES;
    let k = choose(records as u64 + 1);
    // possibly an incomplete record at the end
    let extra = if n > 1 { choose(2) * (n - 1) } else { 0 };
    let data = arbitrary(k * n + extra);
    let v: ArrayView<T> = ArrayView::new(&data);
    let ok = |r: <T as Struct<'_>>::Item, i: usize| same::<T>(&r, &data[i * n..][..n]);
    match choose(3) {
        0 => deque(v.iter(), k, steps, &ok),
        1 => deque((&v).into_iter(), k, steps, &ok),
        _ => deque(v.into_iter(), k, steps, &ok),
    }
}
#[no_mangle]
pub fn c07_iterate() {
    begin(1);
    kinds!(iterate, param(1) as usize, param(2) as usize)
}
/// Iterating a sub-range and the elements outliving the view and the iterator.
#[no_mangle]
pub fn c07_slices() {
    begin(1);
    let data = arbitrary(12);
    let a = choose(5);
    let b = a + choose(5 - a as u64);
    let (r, mut it) = {
        let v: ArrayView<B3> = ArrayView::new(&data);
        let w = v.slice(a..b);
        let mut it = w.iter();
        (it.next(), it)
    };
    if a < b {
        check(same::<B3>(&r.unwrap(), &data[a * 3..][..3]), "record outliving the view");
        let mut n = 1;
        while let Some(r) = it.next() {
            check(same::<B3>(&r, &data[(a + n) * 3..][..3]), "record of an iterator outliving the view");
            n += 1;
        }
        check(n == b - a, "all records of the sub-range");
    } else {
        check(r.is_none() && it.next().is_none(), "an empty sub-range has no records");
    }
    cover(0);
}

// ---- C10 --------------------------------------------------------------------
define_index!(Idx8, RefIdx8, MutIdx8, "index", 1, 8);
define_index!(Idx40, RefIdx40, MutIdx40, "index", 6, 40);
define_index!(Idx64, RefIdx64, MutIdx64, "index", 8, 64);
define_variadic_struct!(Var, RefVar, BuildVar, Idx8,
    0 => (B1, add_b1), 1 => (B2, add_b2), 7 => (B3, add_b3), 255 => (Wide, add_wide));

pub const SIZES: [(u8, usize); 4] = [(0, 1), (1, 2), (7, 3), (255, 9)];

pub fn size_of(t: u8) -> Option<usize> {
    for (k, n) in SIZES {
        if k == t {
            return Some(n);
        }
    }
    None
}
/// Is `r` the record of type `t` with bytes `b`?
pub fn record(r: &RefVar, t: u8, b: &[u8]) -> bool {
    match r {
        RefVar::B1(x) => t == 0 && same::<B1>(x, b),
        RefVar::B2(x) => t == 1 && same::<B2>(x, b),
        RefVar::B3(x) => t == 7 && same::<B3>(x, b),
        RefVar::Wide(x) => t == 255 && same::<Wide>(x, b),
    }
}
/// Take records until the item ends or is found to be corrupt.
fn drain<'a, I: Iterator<Item = RefVar<'a>>>(mut it: I, mut d: &[u8]) {
    loop {
        let want = if d.is_empty() {
            Some(None)
        } else {
            match size_of(d[0]) {
                Some(n) if n < d.len() => Some(Some(n)),
                _ => None,
            }
        };
        let got = catch(|| it.next());
        match (got, want) {
            (None, None) => {
                cover(1);
                return;
            }
            (Some(None), Some(None)) => {
                check(it.next().is_none(), "an exhausted item stays exhausted");
                cover(2);
                return;
            }
            (Some(Some(r)), Some(Some(n))) => {
                check(r.size_in_bytes() == n, "size of a record of an item");
                check(record(&r, d[0], &d[1..][..n]), "record of an item");
                d = &d[1 + n..];
                cover(3);
            }
            (None, _) => {
                check(false, "a valid record does not panic");
            }
            (Some(Some(_)), _) => check(false, "corrupt or missing record is not returned"),
            (Some(None), _) => check(false, "the item ends exactly with its bytes"),
        }
    }
}
fn entry(b: &[u8], bits: usize) -> u64 {
    spec_read(b, 0, bits)
}
fn multi_at<I: for<'a> IndexStruct<'a>>(bits: usize) {
    let n = param(1) as usize;
    let w = I::SIZE_IN_BYTES;
    // an incomplete entry at the end does not count
    let ib = arbitrary(n * w + if w > 1 { 1 } else { 0 });
    let data = arbitrary(param(2) as usize);
    let v: MultiArrayView<I, Var> = MultiArrayView::new(ArrayView::new(&ib), &data);
    let len = n.saturating_sub(1);
    check(v.len() == len, "number of items");
    check(v.is_empty() == (len == 0), "emptiness");
    let i = sym(64) as usize;
    note(1, i as u64);
    let got = catch(|| v.at(i));
    if i >= len {
        check(got.is_none(), "an item out of range panics");
        cover(0);
        return;
    }
    let i = concrete(i as u64) as usize;
    let (s, e) = (entry(&ib[i * w..], bits), entry(&ib[(i + 1) * w..], bits));
    let valid = s <= e && e <= data.len() as u64;
    check(got.is_some() == valid, "an item panics exactly when its index is corrupt");
    if let Some(it) = got {
        let (s, e) = (concrete(s) as usize, concrete(e) as usize);
        let b = catch(|| v.iter().nth(i).is_some());
        if i == 0 {
            check(b == Some(true), "the first item by iteration");
        }
        drain(it.clone(), &data[s..e]);
        drain(it, &data[s..e]);
    } else {
        cover(4);
    }
}
#[no_mangle]
pub fn c10_at() {
    begin(if param(1) < 2 { 1 } else { 5 });
    match param(0) {
        0 => multi_at::<Idx8>(8),
        1 => multi_at::<Idx40>(40),
        _ => multi_at::<Idx64>(64),
    }
}
/// Items made of arbitrary records.
pub struct Items {
    pub items: Vec<Vec<(u8, Vec<u8>)>>,
    pub index: Box<[u8]>,
    pub data: Box<[u8]>,
}
pub fn items(n: usize, records: usize) -> Items {
    let (mut items, mut index, mut data) = (vec![], vec![0u8], vec![]);
    for _ in 0..n {
        let mut item = vec![];
        for _ in 0..choose(records as u64 + 1) {
            let (t, k) = SIZES[choose(3)];
            let mut b = vec![0; k];
            fill(&mut b);
            data.push(t);
            data.extend_from_slice(&b);
            item.push((t, b));
        }
        items.push(item);
        index.push(data.len() as u8);
    }
    Items { items, index: index.into(), data: data.into() }
}
pub fn item_is<'a, I: Iterator<Item = RefVar<'a>>>(mut it: I, want: &[(u8, Vec<u8>)]) -> bool {
    let mut ok = true;
    for (t, b) in want {
        match it.next() {
            Some(r) => ok &= record(&r, *t, b),
            None => return false,
        }
    }
    ok && it.next().is_none()
}
#[no_mangle]
pub fn c10_slice() {
    begin(if param(0) == 0 { 1 } else { 2 });
    let m = items(choose(param(1) + 1), 1);
    let len = m.items.len();
    let v: MultiArrayView<Idx8, Var> = MultiArrayView::new(ArrayView::new(&m.index), &m.data);
    let (a, b) = (sym(64) as usize, sym(64) as usize);
    note(1, a as u64);
    note(2, b as u64);
    let (ba, bb) = (bound(param(0) as usize / 3, a), bound(param(0) as usize % 3, b));
    let want = selected(ba, bb, len);
    let got = catch(|| match param(0) {
        0 => v.slice(..),
        1 => v.slice(..=b),
        2 => v.slice(..b),
        3 => v.slice(a..),
        4 => v.slice(a..=b),
        5 => v.slice(a..b),
        _ => v.slice((ba, bb)),
    });
    check(got.is_some() == want.is_some(), "slicing panics exactly when out of range");
    if let (Some(w), Some((s, e))) = (got, want) {
        let (s, e) = (concrete(s as u64) as usize, concrete(e as u64) as usize);
        check(w.len() == e - s, "number of items selected");
        check(w.is_empty() == (s == e), "emptiness of a slice");
        for i in s..e {
            check(item_is(w.at(i - s), &m.items[i]), "item of a slice");
        }
        check(catch(|| w.at(e - s)).is_none(), "no item past the end of a slice");
        let mut k = s;
        for it in &w {
            check(item_is(it, &m.items[k]), "iterated item of a slice");
            k += 1;
        }
        check(k == e, "iteration of a slice yields all its items");
        let c = sym(64) as usize;
        let again = catch(|| w.slice(c..));
        check(again.is_some() == (c <= e - s), "slicing a slice panics exactly when out of range");
        if let Some(x) = again {
            let c = concrete(c as u64) as usize;
            check(x.len() == e - s - c, "length of a slice of a slice");
            if s + c < e {
                check(item_is(x.at(0), &m.items[s + c]), "item of a slice of a slice");
            }
        }
        let again = catch(|| w.slice(..=c));
        check(again.is_some() == (c < e - s), "slicing a slice panics exactly when out of range");
        if let Some(x) = again {
            let c = concrete(c as u64) as usize;
            check(x.len() == c + 1, "length of a slice of a slice");
            check(item_is(x.at(c), &m.items[s + c]), "last item of a slice of a slice");
        }
        cover(0)
    } else {
        cover(1)
    }
}
#[no_mangle]
pub fn c10_iterate() {
    begin(1);
    let m = items(choose(param(0) + 1), 1);
    let v: MultiArrayView<Idx8, Var> = MultiArrayView::new(ArrayView::new(&m.index), &m.data);
    let k = m.items.len();
    match choose(3) {
        0 => deque(v.iter(), k, param(1) as usize, &|r, i| item_is(r, &m.items[i])),
        1 => deque((&v).into_iter(), k, param(1) as usize, &|r, i| item_is(r, &m.items[i])),
        _ => deque(v.into_iter(), k, param(1) as usize, &|r, i| item_is(r, &m.items[i])),
    }
}
/// The records of one item: forward operations against a list.
#[no_mangle]
pub fn c10_records() {
    begin(1);
    let m = items(1, param(0) as usize);
    let want = &m.items[0];
    let mut it = {
        let v: MultiArrayView<Idx8, Var> = MultiArrayView::new(ArrayView::new(&m.index), &m.data);
        v.clone().at(0)
    };
    let mut k = 0;
    let is = |r: Option<RefVar>, k: usize| match r {
        Some(r) => check(k < want.len() && record(&r, want[k].0, &want[k].1), "record"),
        None => check(k >= want.len(), "a record is missing"),
    };
    for _ in 0..2 {
        match choose(3) {
            0 => {
                is(it.next(), k);
                k += 1;
            }
            1 => {
                let j = choose(3);
                is(it.nth(j), k + j);
                k += j + 1;
            }
            _ => {
                let mut c = it.clone();
                for i in k..want.len() {
                    is(c.next(), i);
                }
                check(c.next().is_none(), "a copy ends with the item");
            }
        }
        k = k.min(want.len());
        let (l, h) = it.size_hint();
        check(l <= want.len() - k && h.map_or(true, |h| h >= want.len() - k), "size hint of an item");
    }
    match choose(4) {
        0 => check(it.count() == want.len() - k, "count"),
        1 => match it.last() {
            Some(r) => {
                let (t, b) = &want[want.len() - 1];
                check(k < want.len() && record(&r, *t, b), "last record")
            }
            None => check(k == want.len(), "no last record"),
        },
        2 => {
            let v: Vec<RefVar> = it.collect();
            check(v.len() == want.len() - k, "number of records collected");
            for (i, r) in v.iter().enumerate() {
                check(record(r, want[k + i].0, &want[k + i].1), "collected record");
                check(*r == r.clone(), "a record equals its copy");
                for (j, q) in v.iter().enumerate() {
                    let (a, b) = (&want[k + i], &want[k + j]);
                    check((r == q) == (a.0 == b.0 && a.1 == b.1), "records are equal exactly when type and contents are");
                }
            }
        }
        _ => {
            for i in k..want.len() {
                is(it.next(), i);
            }
            for _ in 0..3 {
                check(it.next().is_none(), "an exhausted item stays exhausted");
            }
        }
    }
    cover(0);
}
