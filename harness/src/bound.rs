//! C24: what streaming writers keep back.
use crate::ext::*;
use crate::huge::Tapes;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;

/// The buffer of the writers is 32 MiB; twice as much is allowed for.
const ROOM: u64 = 64 << 20;

/// `appended` bytes in records (or items) of at most `each`.
fn bounded(s: &Tapes, n: &str, appended: u64, each: u64) {
    let got = s.got(n);
    check(got + ROOM + 2 * each >= appended, "data that is kept back is bounded");
    check(got <= appended + 64, "no more than what was appended is written");
}
fn vector<T: Rec>(most: u64) {
    // a fixed or any number of records
    let n = if param(2) == 1 { sym(16) } else { most };
    assume(n <= most);
    let s = Tapes::default();
    let mut v = create_external_vector::<T>(&s, "v", "schema").unwrap();
    let size = T::SIZE_IN_BYTES as u64;
    let mut i = 0;
    while i < n {
        i += 1;
        let mut m = v.grow().unwrap();
        if i % 16 == 0 {
            T::set(&mut m, 0, sym(64));
        }
        bounded(&s, "v", i * size, size);
    }
    check(v.len() as u64 == i, "number of records");
    check(v.close().is_ok(), "what was written is opened");
    check(s.got("v") >= i * size, "everything is written in the end");
}
fn multi<I: for<'a> IndexStruct<'a>>(n: u64, kinds: &[usize]) {
    let s = Tapes::default();
    let mut v = create_multi_vector::<I, Large>(&s, "mv", "schema").unwrap();
    let (mut size, mut each) = (0, 0);
    let index = I::SIZE_IN_BYTES as u64;
    for i in 0..n {
        let before = size;
        {
            let mut b = v.grow().unwrap();
            match kinds[i as usize % kinds.len()] {
                0 => (),
                1 => {
                    b.add_b3();
                    size += 4;
                }
                2 => {
                    b.add_m1();
                    b.add_k64();
                    size += 1048576 + 65536 + 2;
                }
                _ => {
                    b.add_m40();
                    b.add_b3();
                    size += 41943040 + 5;
                }
            }
        }
        each = (size - before).max(each);
        bounded(&s, "mv", size, each);
        bounded(&s, "mv_index", (i + 1) * index, index);
    }
    check(v.close().is_ok(), "what was written is opened");
    check(s.got("mv") >= size, "all data is written in the end");
    check(s.got("mv_index") >= (n + 1) * index, "the whole index is written in the end");
}
/// Records of one size.
#[no_mangle]
pub fn c24_vector() {
    begin(1);
    let n = param(1);
    match param(0) {
        0 => vector::<K64>(n),
        1 => vector::<M1>(n),
        2 => vector::<M33>(n),
        3 => vector::<M40>(n),
        _ => vector::<Mix>(n),
    }
    cover(0);
}
/// Items of which three in turn have any of four sizes.
#[no_mangle]
pub fn c24_multi() {
    begin(1);
    let (i, n) = (param(0), param(1));
    let kinds = [choose(4), choose(4), choose(4)];
    if i == 0 {
        multi::<Idx40>(n, &kinds);
    } else {
        multi::<IdxM1>(n, &kinds);
    }
    cover(0);
}
