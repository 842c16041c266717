//! C08: streamed vectors. C09: streamed multivectors.
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::rc::Rc;

pub type Storage = Rc<dyn ResourceStorage>;

pub fn storage(kind: usize) -> Storage {
    match kind {
        0 => MemoryResourceStorage::new("/root/data"),
        _ => FileResourceStorage::new(tmpdir().join("data")),
    }
}
/// The storage as it is seen later: for files, by another storage.
pub fn later(kind: usize, s: Storage) -> Storage {
    match kind {
        0 => s,
        _ => {
            drop(s);
            storage(kind)
        }
    }
}
record!(K64, RefK64, MutK64, 65536, (0, a, set_a, u64, 0, 64), (1, z, set_z, u64, 524224, 64));
record!(M1, RefM1, MutM1, 1048576, (0, a, set_a, u64, 0, 64), (1, z, set_z, u64, 8388544, 64));
// 8 and 7 bytes less than the buffer holds
record!(M32, RefM32, MutM32, 33554424, (0, a, set_a, u64, 0, 64), (1, z, set_z, u64, 268435328, 64));
record!(M33, RefM33, MutM33, 33554425, (0, a, set_a, u64, 0, 64), (1, z, set_z, u64, 268435336, 64));
record!(M40, RefM40, MutM40, 41943040, (0, a, set_a, u64, 0, 64), (1, z, set_z, u64, 335544256, 64));

/// Set all fields of a new record; returns their values as they read back.
fn write<T: Rec>(m: &mut <T as Struct<'_>>::ItemMut) -> Vec<u64> {
    for k in 0..T::FIELDS.len() {
        T::set(m, k, sym(64));
    }
    (0..T::FIELDS.len()).map(|k| T::get_mut(m, k)).collect()
}
fn read<T: Rec>(r: &<T as Struct<'_>>::Item) -> Vec<u64> {
    (0..T::FIELDS.len()).map(|k| T::get(r, k)).collect()
}
fn holds<T: Rec>(v: &ArrayView<T>, want: &[Vec<u64>]) {
    check(v.len() == want.len(), "number of records");
    for (i, w) in want.iter().enumerate() {
        check(read::<T>(&v.at(i)) == *w, "record");
    }
    // nothing but the fields is set
    if T::SIZE_IN_BYTES > 1000 {
        let zero = vec![0u8; T::SIZE_IN_BYTES - 16];
        for i in 0..want.len() {
            let b = &v.as_bytes()[i * T::SIZE_IN_BYTES..][..T::SIZE_IN_BYTES];
            check(b[8..T::SIZE_IN_BYTES - 8] == zero[..], "bytes between the fields");
        }
    }
    check(v.as_bytes().len() == want.len() * T::SIZE_IN_BYTES, "number of bytes");
}
/// `n` records, of which those selected by `set` are written and the others
/// left as they are.
fn vector<T: Rec>(kind: usize, n: usize, set: impl Fn(usize) -> bool) {
    let s = storage(kind);
    let mut want = vec![];
    {
        let mut v = create_external_vector::<T>(&*s, "vec", "schema").unwrap();
        check(v.len() == 0 && v.is_empty() && v.is_open(), "a new vector");
        for i in 0..n {
            {
                let mut m = v.grow().unwrap();
                if set(i) {
                    want.push(write::<T>(&mut m));
                } else {
                    for k in 0..T::FIELDS.len() {
                        check(T::get_mut(&m, k) == 0, "a new record is zero");
                    }
                    want.push(vec![0; T::FIELDS.len()]);
                }
            }
            check(v.len() == i + 1 && !v.is_empty() && v.is_open(), "a growing vector");
        }
        let view = v.close().unwrap();
        holds(&view, &want);
    }
    {
        let v: ArrayView<T> = ArrayView::new(s.read("vec", "schema").unwrap());
        holds(&v, &want);
    }
    let s = later(kind, s);
    let v: ArrayView<T> = ArrayView::new(s.read("vec", "schema").unwrap());
    holds(&v, &want);
    check(s.read("vec", "schemb").is_err(), "the schema is stored");
    note(1, n as u64);
    cover(0);
}
/// Few small records.
#[no_mangle]
pub fn c08_small() {
    begin(1);
    let kind = param(1) as usize;
    let n = choose(param(2) + 1);
    let mask = choose(1 << n);
    let set = |i| mask >> i & 1 == 1;
    match param(0) {
        0 => vector::<B1>(kind, n, set),
        1 => vector::<B3>(kind, n, set),
        2 => vector::<B8>(kind, n, set),
        _ => vector::<Mix>(kind, n, set),
    }
}
/// Records large enough for the buffer to be pushed to storage in between.
#[no_mangle]
pub fn c08_large() {
    begin(1);
    let (kind, n) = (param(1) as usize, param(2) as usize);
    match param(0) {
        0 => vector::<K64>(kind, n, |i| i % 37 == 0 || i > n - 3 || (i > 509 && i < 517)),
        1 => vector::<M1>(kind, n, |i| i % 2 == 0),
        2 => vector::<M32>(kind, n, |i| i != 1),
        3 => vector::<M33>(kind, n, |i| i != 1),
        _ => vector::<M40>(kind, n, |i| i != 1),
    }
}
/// Two vectors open at the same time.
#[no_mangle]
pub fn c08_two() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let (mut wa, mut wb) = (vec![], vec![]);
    {
        let mut a = create_external_vector::<B3>(&*s, "a", "schema of a").unwrap();
        let mut b = create_external_vector::<M40>(&*s, "b", "schema of b").unwrap();
        for _ in 0..3 {
            if choose(2) == 0 {
                wa.push(write::<B3>(&mut a.grow().unwrap()));
            } else {
                wb.push(write::<M40>(&mut b.grow().unwrap()));
            }
            check(a.len() == wa.len() && b.len() == wb.len(), "lengths are independent");
        }
        if choose(2) == 0 {
            let va = a.close().unwrap();
            wb.push(write::<M40>(&mut b.grow().unwrap()));
            let vb = b.close().unwrap();
            holds(&va, &wa);
            holds(&vb, &wb);
        } else {
            let vb = b.close().unwrap();
            wa.push(write::<B3>(&mut a.grow().unwrap()));
            let va = a.close().unwrap();
            holds(&va, &wa);
            holds(&vb, &wb);
        }
    }
    let s = later(kind, s);
    holds(&ArrayView::<B3>::new(s.read("a", "schema of a").unwrap()), &wa);
    holds(&ArrayView::<M40>::new(s.read("b", "schema of b").unwrap()), &wb);
    cover(0);
}

// ---- C09 --------------------------------------------------------------------
define_index!(Idx16, RefIdx16, MutIdx16, "index", 2, 16);
define_index!(Idx24, RefIdx24, MutIdx24, "index", 4, 24);
define_index!(Idx32, RefIdx32, MutIdx32, "index", 4, 32);
// so wide that the index, too, is pushed to storage in between
define_index!(IdxM1, RefIdxM1, MutIdxM1, "index", 1048576, 64);
define_index!(IdxM17, RefIdxM17, MutIdxM17, "index", 17825792, 32);
define_variadic_struct!(Large, RefLarge, BuildLarge, Idx32,
    3 => (M1, add_m1), 0 => (B3, add_b3), 200 => (M40, add_m40), 4 => (K64, add_k64));

type Item = Vec<(u8, Vec<u64>)>;

fn small_is(r: &RefVar) -> (u8, Vec<u64>) {
    match r {
        RefVar::B1(x) => (0, read::<B1>(x)),
        RefVar::B2(x) => (1, read::<B2>(x)),
        RefVar::B3(x) => (7, read::<B3>(x)),
        RefVar::Wide(x) => (255, read::<Wide>(x)),
    }
}
fn large_is(r: &RefLarge) -> (u8, Vec<u64>) {
    match r {
        RefLarge::M1(x) => (3, read::<M1>(x)),
        RefLarge::B3(x) => (0, read::<B3>(x)),
        RefLarge::M40(x) => (200, read::<M40>(x)),
        RefLarge::K64(x) => (4, read::<K64>(x)),
    }
}
fn small_add(b: &mut BuildVar, k: usize) -> (u8, Vec<u64>) {
    match k {
        0 => (0, write::<B1>(&mut b.add_b1())),
        1 => (1, write::<B2>(&mut b.add_b2())),
        2 => (7, write::<B3>(&mut b.add_b3())),
        _ => (255, write::<Wide>(&mut b.add_wide())),
    }
}
macro_rules! agree {
    ($v:expr, $want:expr, $is:ident) => {{
        let v = $v;
        check(v.len() == $want.len(), "number of items");
        for (i, w) in $want.iter().enumerate() {
            let got: Item = v.at(i).map(|r| $is(&r)).collect();
            check(got.len() == w.len(), "number of records of an item");
            for (a, b) in got.iter().zip(w.iter()) {
                check(a.0 == b.0, "type of a record");
                check(a.1 == b.1, "record");
            }
        }
        let mut n = 0;
        for it in v.iter() {
            check(it.count() == $want[n].len(), "records by iteration");
            n += 1;
        }
        check(n == $want.len(), "items by iteration");
    }};
}
macro_rules! agree_stored {
    ($kind:expr, $s:expr, $want:expr, $is:ident, $idx:ty, $ts:ty) => {{
        let s = later($kind, $s);
        let i = s.read("mv_index", "index(schema)").unwrap();
        let d = s.read("mv", "schema").unwrap();
        let v: MultiArrayView<$idx, $ts> = MultiArrayView::new(ArrayView::new(i), d);
        agree!(v, $want, $is);
    }};
}
/// Few items of few records; the builder is used for every append.
fn multi<I: for<'a> IndexStruct<'a>>(kind: usize, n: usize, records: usize) {
    let s = storage(kind);
    let mut want: Vec<Item> = vec![];
    {
        let mut v = create_multi_vector::<I, Var>(&*s, "mv", "schema").unwrap();
        for _ in 0..n {
            let mut b = v.grow().unwrap();
            let mut item = vec![];
            for _ in 0..choose(records as u64 + 1) {
                item.push(small_add(&mut b, choose(4)));
            }
            want.push(item);
        }
        let view = v.close().unwrap();
        agree!(view, want, small_is);
    }
    agree_stored!(kind, s, want, small_is, I, Var);
    cover(0);
}
#[no_mangle]
pub fn c09_small() {
    begin(1);
    let kind = param(1) as usize;
    let n = choose(param(2) + 1);
    let r = param(3) as usize;
    match param(0) {
        0 => multi::<Idx8>(kind, n, r),
        1 => multi::<Idx16>(kind, n, r),
        2 => multi::<Idx24>(kind, n, r),
        3 => multi::<Idx32>(kind, n, r),
        4 => multi::<Idx40>(kind, n, r),
        5 => multi::<Idx64>(kind, n, r),
        _ => multi::<IdxM17>(kind, n, r),
    }
}
/// Records left as they are, and the record handles of the builder.
#[no_mangle]
pub fn c09_zero() {
    begin(1);
    let s = storage(param(0) as usize);
    let mut v = create_multi_vector::<Idx16, Var>(&*s, "mv", "schema").unwrap();
    let mut want: Vec<Item> = vec![];
    for _ in 0..2 {
        let mut b = v.grow().unwrap();
        let mut item = vec![];
        for _ in 0..2 {
            let k = choose(4);
            if choose(2) == 0 {
                item.push(small_add(&mut b, k));
            } else {
                item.push(match k {
                    0 => (0, vec![B1::get(&b.add_b1().into_ref(), 0)]),
                    1 => (1, vec![B2::get(&b.add_b2().into_ref(), 0)]),
                    2 => (7, vec![B3::get(&b.add_b3().into_ref(), 0)]),
                    _ => (255, read::<Wide>(&b.add_wide().into_ref())),
                });
                let l = item.len() - 1;
                check(item[l].1.iter().all(|x| *x == 0), "a new record is zero");
            }
        }
        want.push(item);
    }
    agree!(v.close().unwrap(), want, small_is);
    cover(0);
}
trait Adder {
    fn large(&mut self, k: usize) -> (u8, Vec<u64>);
}
impl Adder for BuildLarge<'_> {
    fn large(&mut self, k: usize) -> (u8, Vec<u64>) {
        match k {
            0 => (3, write::<M1>(&mut self.add_m1())),
            1 => (0, write::<B3>(&mut self.add_b3())),
            2 => (200, write::<M40>(&mut self.add_m40())),
            _ => (4, write::<K64>(&mut self.add_k64())),
        }
    }
}
fn multi_large<I: for<'a> IndexStruct<'a>>(kind: usize, items: impl Iterator<Item = Vec<usize>>) {
    let s = storage(kind);
    let mut want: Vec<Item> = vec![];
    {
        let mut v = create_multi_vector::<I, Large>(&*s, "mv", "schema").unwrap();
        for i in items {
            let mut b = v.grow().unwrap();
            want.push(i.into_iter().map(|k| b.large(k)).collect());
        }
        let view = v.close().unwrap();
        agree!(view, want, large_is);
    }
    agree_stored!(kind, s, want, large_is, I, Large);
    cover(0);
}
/// Enough data or index entries for the buffers to be pushed to storage.
#[no_mangle]
pub fn c09_large() {
    begin(1);
    let (kind, n) = (param(1) as usize, param(2) as usize);
    match param(0) {
        // data of one record per item
        0 => multi_large::<Idx32>(kind, (0..n).map(|i| if i % 5 == 4 { vec![1, 0] } else { vec![0] })),
        // items larger than the buffer, empty items
        1 => multi_large::<Idx32>(kind, (0..n).map(|i| match i % 3 {
            0 => vec![2, 1, 0],
            1 => vec![],
            _ => vec![1, 3, 2, 2],
        })),
        // the index is pushed, the data is not
        2 => multi_large::<IdxM1>(kind, (0..n).map(|i| if i % 3 == 0 { vec![] } else { vec![1; i % 3] })),
        // both
        3 => multi_large::<IdxM17>(kind, (0..n).map(|i| if i % 2 == 0 { vec![2] } else { vec![1, 1] })),
        _ => multi_large::<Idx64>(kind, (0..n).map(|i| vec![3; i % 4])),
    }
}
/// Which items are larger than the buffer is chosen by the solver.
#[no_mangle]
pub fn c09_mixed() {
    begin(1);
    let n = param(1);
    let items: Vec<Vec<usize>> = (0..n)
        .map(|_| match choose(4) {
            0 => vec![],
            1 => vec![1],
            2 => vec![2],
            _ => vec![1, 2],
        })
        .collect();
    multi_large::<Idx40>(param(0) as usize, items.into_iter());
}
