//! C04: generated record types. C05: the in-memory vector.
use crate::bits::{spec_read, spec_value, spec_write};
use crate::sx::*;
use flatdata::helper::Int;
use flatdata::*;

/// Description of a field for the reference: (offset, width, signed).
pub type F = (usize, usize, bool);

/// Uniform access to a record type by field number; values as 64 bits.
pub trait Rec: for<'a> Struct<'a> {
    const FIELDS: &'static [F];
    const NAME: &'static str;
    const NAMES: &'static [&'static str];
    fn show(r: &<Self as Struct<'_>>::Item, i: usize) -> String;
    fn get(r: &<Self as Struct<'_>>::Item, i: usize) -> u64;
    fn get_mut(r: &<Self as Struct<'_>>::ItemMut, i: usize) -> u64;
    fn set(r: &mut <Self as Struct<'_>>::ItemMut, i: usize, v: u64);
    fn fill(r: &mut <Self as Struct<'_>>::ItemMut, o: &<Self as Struct<'_>>::Item);
    fn into_ref<'a>(r: <Self as Struct<'a>>::ItemMut) -> <Self as Struct<'a>>::Item;
}
pub trait Conv: Copy {
    const SIGNED: bool;
    fn to(self) -> u64;
    fn of(v: u64) -> Self;
}
macro_rules! conv {
    ($($t:ty, $s:expr);*) => {$(
        impl Conv for $t {
            const SIGNED: bool = $s;
            fn to(self) -> u64 { self as u64 }
            fn of(v: u64) -> Self { v as $t }
        }
    )*};
}
conv!(u8, false; i8, true; u16, false; i16, true; u32, false; i32, true; u64, false; i64, true);
impl Conv for bool {
    const SIGNED: bool = false;
    fn to(self) -> u64 {
        self as u64
    }
    fn of(v: u64) -> Self {
        v & 1 != 0
    }
}
macro_rules! record {
    ($f:ident, $r:ident, $m:ident, $size:expr $(, ($i:expr, $g:ident, $s:ident, $t:tt, $o:expr, $w:expr))*) => {
        define_struct!($f, $r, $m, "schema of a record", $size $(, ($g, $s, $t, $o, $w))*);
        impl Rec for $f {
            const FIELDS: &'static [F] = &[$(($o, $w, <$t as Conv>::SIGNED)),*];
            const NAME: &'static str = stringify!($f);
            const NAMES: &'static [&'static str] = &[$(stringify!($g)),*];
            fn show(r: &$r<'_>, i: usize) -> String {
                match i { $($i => format!("{:?}", r.$g()),)* _ => unreachable!() }
            }
            fn get(r: &$r<'_>, i: usize) -> u64 {
                match i { $($i => r.$g().to(),)* _ => unreachable!() }
            }
            fn get_mut(r: &$m<'_>, i: usize) -> u64 {
                match i { $($i => r.$g().to(),)* _ => unreachable!() }
            }
            fn set(r: &mut $m<'_>, i: usize, v: u64) {
                match i { $($i => r.$s(<$t as Conv>::of(v)),)* _ => unreachable!() }
            }
            fn fill(r: &mut $m<'_>, o: &$r<'_>) {
                r.fill_from(o)
            }
            fn into_ref<'a>(r: <$f as Struct<'a>>::ItemMut) -> <$f as Struct<'a>>::Item {
                r.into_ref()
            }
        }
    };
}
// unaligned mix with a field that spans nine bytes at the end
record!(Mix, RefMix, MutMix, 22,
    (0, a, set_a, u32, 0, 3), (1, b, set_b, u8, 3, 5), (2, c, set_c, u64, 8, 57),
    (3, d, set_d, i16, 65, 11), (4, e, set_e, bool, 76, 1), (5, f, set_f, i32, 77, 32),
    (6, g, set_g, u64, 109, 64));
// signed, nine byte spans in the middle
record!(Sig, RefSig, MutSig, 21,
    (0, a, set_a, i8, 0, 5), (1, b, set_b, i64, 5, 62), (2, c, set_c, i8, 67, 7),
    (3, d, set_d, i64, 74, 61), (4, e, set_e, i16, 135, 16), (5, f, set_f, i32, 151, 17));
record!(Nib, RefNib, MutNib, 1, (0, a, set_a, u8, 0, 4), (1, b, set_b, u8, 4, 4));
record!(Bits, RefBits, MutBits, 2,
    (0, a, set_a, bool, 0, 1), (1, b, set_b, i8, 1, 2), (2, c, set_c, bool, 3, 1),
    (3, d, set_d, u16, 4, 9), (4, e, set_e, i8, 13, 3));
record!(Plain, RefPlain, MutPlain, 15,
    (0, a, set_a, u8, 0, 8), (1, b, set_b, u16, 8, 16), (2, c, set_c, u32, 24, 32),
    (3, d, set_d, u64, 56, 64));
// gaps between fields, declared out of order
record!(Gap, RefGap, MutGap, 12,
    (0, a, set_a, u64, 40, 33), (1, b, set_b, i32, 3, 20), (2, c, set_c, u16, 80, 10));
record!(Wide, RefWide, MutWide, 9, (0, a, set_a, bool, 0, 1), (1, b, set_b, u64, 1, 64),
    (2, c, set_c, u8, 65, 7));
record!(B1, RefB1, MutB1, 1, (0, x, set_x, u8, 0, 8));
record!(B3, RefB3, MutB3, 3, (0, x, set_x, u32, 0, 24));
record!(B8, RefB8, MutB8, 8, (0, x, set_x, i64, 0, 64));
record!(B2, RefB2, MutB2, 2, (0, x, set_x, u16, 0, 16));

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
#[repr(u8)]
pub enum Color {
    Red = 0,
    Green = 1,
    Blue = 2,
    Odd = 3,
}
impl Int for Color {
    const IS_SIGNED: bool = false;
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
#[repr(i16)]
pub enum Dir {
    Down = -1,
    Stay = 0,
    Up = 1,
    Far = -2,
}
impl Int for Dir {
    const IS_SIGNED: bool = true;
}
define_struct!(Enums, RefEnums, MutEnums, "schema of enums", 3,
    (before, set_before, u8: u8, 0, 3), (color, set_color, Color: u8, 3, 2),
    (dir, set_dir, Dir: i16, 5, 2), (after, set_after, u32: u32, 7, 13));

fn decode(b: &[u8], f: F) -> u64 {
    spec_value(spec_read(b, f.0, f.1), f.1, f.2)
}
fn arbitrary(n: usize) -> Box<[u8]> {
    let mut b = vec![0u8; n].into_boxed_slice();
    fill(&mut b);
    b
}

/// From arbitrary contents, a few setter calls: bytes and getters follow the
/// reference after each of them.
fn setters<T: Rec>(steps: usize) {
    let n = T::SIZE_IN_BYTES;
    let mut b = arbitrary(n);
    let mut s = b.clone();
    for _ in 0..steps {
        let i = choose(T::FIELDS.len() as u64);
        let v = sym(64);
        let (o, w, _) = T::FIELDS[i];
        spec_write(&mut s, o, w, v);
        {
            let mut m = T::create_mut(&mut b);
            T::set(&mut m, i, v);
            for (k, f) in T::FIELDS.iter().enumerate() {
                let x = T::get_mut(&m, k);
                note(k as u64, x);
                check(x == decode(&s, *f), "getter of the writable reference");
            }
            let r = T::into_ref(m);
            for (k, f) in T::FIELDS.iter().enumerate() {
                check(T::get(&r, k) == decode(&s, *f), "getter after into_ref");
            }
        }
        let r = T::create(&b);
        for (k, f) in T::FIELDS.iter().enumerate() {
            check(T::get(&r, k) == decode(&s, *f), "getter of the reference");
        }
        check(b == s, "record bytes");
    }
    cover(0);
}
fn copies<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let src = arbitrary(n);
    let mut dst = arbitrary(n);
    let mut s = dst.clone();
    for f in T::FIELDS {
        spec_write(&mut s, f.0, f.1, spec_read(&src, f.0, f.1));
    }
    {
        let mut m = T::create_mut(&mut dst);
        T::fill(&mut m, &T::create(&src));
    }
    check(dst == s, "copying all fields copies exactly the fields");
    check(T::create(&dst) == T::create(&src), "a copy compares equal to the original");
    check(!(T::create(&dst) != T::create(&src)), "a copy does not compare unequal");
    cover(0);
}
fn compares<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let a = arbitrary(n);
    let b = arbitrary(n);
    let mut same = true;
    for f in T::FIELDS {
        same &= spec_read(&a, f.0, f.1) == spec_read(&b, f.0, f.1);
    }
    let eq = T::create(&a) == T::create(&b);
    note(1, eq as u64);
    check(eq == same, "records compare equal exactly when all fields agree");
    check((T::create(&b) == T::create(&a)) == eq, "equality is symmetric");
    if eq {
        cover(0)
    } else {
        cover(1)
    }
}
fn standalone<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let mut x = if param(1) == 0 { StructBuf::<T>::new() } else { StructBuf::<T>::default() };
    let mut s = vec![0u8; n];
    check(x.as_bytes() == &s[..], "a fresh record is all zero");
    for k in 0..T::FIELDS.len() {
        check(T::get(&x.get(), k) == 0, "a field of a fresh record is zero");
    }
    for _ in 0..2 {
        let i = choose(T::FIELDS.len() as u64);
        let v = sym(64);
        let (o, w, _) = T::FIELDS[i];
        T::set(&mut x.get_mut(), i, v);
        spec_write(&mut s, o, w, v);
        for (k, f) in T::FIELDS.iter().enumerate() {
            check(T::get(&x.get(), k) == decode(&s, *f), "field of a standalone record");
        }
    }
    check(x.as_bytes().len() == n, "size of a standalone record");
    check(x.as_bytes() == &s[..] && x.as_ref() == &s[..], "bytes of a standalone record");
    cover(0);
}
macro_rules! kinds {
    ($f:ident $(($($a:expr),*))?) => {
        match param(0) {
            0 => $f::<Mix>($($($a),*)?),
            1 => $f::<Sig>($($($a),*)?),
            2 => $f::<Nib>($($($a),*)?),
            3 => $f::<Bits>($($($a),*)?),
            4 => $f::<Plain>($($($a),*)?),
            5 => $f::<Gap>($($($a),*)?),
            6 => $f::<Wide>($($($a),*)?),
            7 => $f::<B1>($($($a),*)?),
            8 => $f::<B3>($($($a),*)?),
            _ => $f::<B8>($($($a),*)?),
        }
    };
}
#[no_mangle]
pub fn c04_setters() {
    begin(1);
    kinds!(setters(param(1) as usize));
}
#[no_mangle]
pub fn c04_copies() {
    begin(1);
    kinds!(copies());
}
#[no_mangle]
pub fn c04_compares() {
    begin(2);
    kinds!(compares());
}
#[no_mangle]
pub fn c04_standalone() {
    begin(1);
    kinds!(standalone());
}
#[no_mangle]
pub fn c04_enums() {
    begin(1);
    let colors = [Color::Red, Color::Green, Color::Blue, Color::Odd];
    let dirs = [Dir::Down, Dir::Stay, Dir::Up, Dir::Far];
    let mut b = arbitrary(3);
    let mut s = b.clone();
    for _ in 0..2 {
        let mut m = Enums::create_mut(&mut b);
        match choose(4) {
            0 => {
                let v = sym(8);
                m.set_before(v as u8);
                spec_write(&mut s, 0, 3, v);
            }
            1 => {
                let k = choose(4);
                m.set_color(colors[k]);
                check(m.color() == colors[k], "enum getter of the writable reference");
                spec_write(&mut s, 3, 2, k as u64);
            }
            2 => {
                let k = choose(4);
                m.set_dir(dirs[k]);
                check(m.dir() == dirs[k], "signed enum getter of the writable reference");
                spec_write(&mut s, 5, 2, dirs[k] as i16 as u64);
            }
            _ => {
                let v = sym(32);
                m.set_after(v as u32);
                spec_write(&mut s, 7, 13, v);
            }
        }
        let r = Enums::create(&b);
        check(r.before() as u64 == spec_read(&s, 0, 3), "field before the enums");
        check(r.color() as u8 as u64 == spec_read(&s, 3, 2), "enum field");
        check(r.dir() as i16 as u64 == spec_value(spec_read(&s, 5, 2), 2, true), "signed enum field");
        check(r.after() as u64 == spec_read(&s, 7, 13), "field after the enums");
        check(b == s, "record bytes with enums");
    }
    cover(0);
}

// ---- C05 --------------------------------------------------------------------
fn same<T: Rec>(r: &<T as Struct<'_>>::Item, s: &[u8]) -> bool {
    let mut ok = true;
    for (k, f) in T::FIELDS.iter().enumerate() {
        ok &= T::get(r, k) == decode(s, *f);
    }
    ok
}
fn agree<T: Rec>(v: &Vector<T>, m: &Vec<Vec<u8>>) {
    let n = T::SIZE_IN_BYTES;
    check(v.len() == m.len(), "length");
    check(v.is_empty() == m.is_empty(), "emptiness");
    check(v.size_in_bytes() == n * m.len(), "size in bytes");
    check(v.as_bytes().len() == n * m.len(), "number of raw bytes");
    check(v.as_ref().len() == n * m.len(), "number of raw bytes by AsRef");
    let a = v.as_view();
    let c: ArrayView<T> = v.into();
    check(a.len() == m.len() && c.len() == m.len(), "length of the view");
    for (i, s) in m.iter().enumerate() {
        check(v.as_bytes()[i * n..][..n] == s[..], "raw bytes");
        check(a.as_bytes()[i * n..][..n] == s[..], "raw bytes of the view");
        check(same::<T>(&v.at(i), s), "element");
        check(same::<T>(&a.at(i), s) && same::<T>(&c.at(i), s), "element of the view");
        check(v.as_ref()[i * n..][..n] == s[..], "raw bytes by AsRef");
    }
}
fn put<T: Rec>(r: &mut <T as Struct<'_>>::ItemMut, s: &mut [u8]) {
    let i = T::FIELDS.len() - 1;
    let v = sym(64);
    let (o, w, _) = T::FIELDS[i];
    T::set(r, i, v);
    spec_write(s, o, w, v);
}
/// Every sequence of `steps` operations; comparison with a list of records.
fn vector<T: Rec>(steps: usize) {
    let n = T::SIZE_IN_BYTES;
    let mut m: Vec<Vec<u8>> = vec![];
    let mut v: Vector<T> = match choose(3) {
        0 => Vector::new(),
        1 => Vector::default(),
        _ => {
            let k = choose(3);
            m.resize(k, vec![0; n]);
            Vector::with_len(k)
        }
    };
    agree(&v, &m);
    for _ in 0..steps {
        match choose(5) {
            0 => {
                // grow, leave the new element alone
                m.push(vec![0; n]);
                let r = v.grow();
                for k in 0..T::FIELDS.len() {
                    check(T::get_mut(&r, k) == 0, "a grown element starts as zero");
                }
            }
            1 => {
                m.push(vec![0; n]);
                let l = m.len() - 1;
                put::<T>(&mut v.grow(), &mut m[l]);
            }
            2 => {
                if m.is_empty() {
                    return;
                }
                let i = choose(m.len() as u64);
                put::<T>(&mut v.at_mut(i), &mut m[i]);
            }
            3 => v.reserve(choose(3) * 7),
            _ => {
                // the clone is used from here on and does not share memory
                let c = v.clone();
                v.grow();
                if !m.is_empty() {
                    let mut s = vec![0; n];
                    put::<T>(&mut v.at_mut(0), &mut s);
                }
                v = c;
            }
        }
        agree(&v, &m);
    }
    note(1, m.len() as u64);
    cover(0);
}
#[no_mangle]
pub fn c05_history() {
    begin(1);
    let k = param(1) as usize;
    match param(0) {
        0 => vector::<B1>(k),
        1 => vector::<B3>(k),
        2 => vector::<B8>(k),
        _ => vector::<Gap>(k),
    }
}
fn vector_index<T: Rec>() {
    let len = choose(4);
    let mut v: Vector<T> = Vector::with_len(len);
    let mut m = vec![vec![0; T::SIZE_IN_BYTES]; len];
    if len > 0 {
        put::<T>(&mut v.at_mut(len - 1), &mut m[len - 1]);
    }
    if choose(2) == 1 {
        // spare capacity does not extend the range
        v.reserve(50);
    }
    let i = sym(64) as usize;
    note(1, i as u64);
    if choose(2) == 0 {
        let r = catch(|| {
            let r = v.at(i);
            // force the access
            T::get(&r, 0)
        });
        check(r.is_some() == (i < len), "reading panics exactly when the index is out of range");
        if r.is_some() {
            cover(0)
        } else {
            cover(1)
        }
    } else {
        let x = sym(64);
        let r = catch(|| T::set(&mut v.at_mut(i), 0, x));
        check(r.is_some() == (i < len), "writing panics exactly when the index is out of range");
        if r.is_some() {
            let (o, w, _) = T::FIELDS[0];
            spec_write(&mut m[i], o, w, x);
            cover(2)
        } else {
            cover(3)
        }
    }
    agree(&v, &m);
}
#[no_mangle]
pub fn c05_index() {
    begin(4);
    match param(0) {
        0 => vector_index::<B1>(),
        1 => vector_index::<B3>(),
        2 => vector_index::<B8>(),
        _ => vector_index::<Mix>(),
    }
}
/// Many elements: reallocation at every size.
#[no_mangle]
pub fn c05_many() {
    begin(1);
    let n = param(0) as usize;
    let mut v: Vector<B3> = Vector::new();
    let mut m: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        m.push(vec![0; 3]);
        let l = m.len() - 1;
        put::<B3>(&mut v.grow(), &mut m[l]);
        check(v.len() == m.len(), "length while growing");
    }
    agree(&v, &m);
    cover(0);
}
/// More records than can exist.
fn huge<T: Rec>() {
    let n = sym(64) as usize;
    assume(n as u128 * T::SIZE_IN_BYTES as u128 + 8 > isize::MAX as u128);
    let k = choose(3);
    let mut v: Vector<T> = Vector::with_len(k);
    let mut m = vec![vec![0; T::SIZE_IN_BYTES]; k];
    if k > 0 {
        put::<T>(&mut v.at_mut(k - 1), &mut m[k - 1]);
    }
    if choose(2) == 0 {
        check(catch(|| Vector::<T>::with_len(n).len()).is_none(), "no vector has more records than fit");
    } else {
        check(catch(|| v.reserve(n)).is_none(), "no more can be reserved than fits");
    }
    agree(&v, &m);
    cover(0);
}
#[no_mangle]
pub fn c05_huge() {
    begin(1);
    match param(0) {
        0 => huge::<B1>(),
        1 => huge::<B3>(),
        2 => huge::<B8>(),
        _ => huge::<Mix>(),
    }
}
