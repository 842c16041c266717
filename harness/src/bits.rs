//! C01-C03: bit-packed fields, for every type, width and bit offset.
use crate::sx::*;

/// Reference: bits `o..o+w` of the buffer, numbered little-endian.
pub fn spec_read(b: &[u8], o: usize, w: usize) -> u64 {
    let mut r = 0u128;
    for j in 0..(w + 7 + 7) / 8 + 1 {
        let i = o / 8 + j;
        if i < b.len() && j < 16 {
            r |= (b[i] as u128) << (8 * j);
        }
    }
    let r = (r >> (o % 8)) as u64;
    r & mask(w)
}
/// Reference: store the low `w` bits of `v` at bits `o..o+w`.
pub fn spec_write(b: &mut [u8], o: usize, w: usize, v: u64) {
    let m = (mask(w) as u128) << (o % 8);
    let x = ((v & mask(w)) as u128) << (o % 8);
    for j in 0..16 {
        let i = o / 8 + j;
        let mj = (m >> (8 * j)) as u8;
        if mj != 0 {
            b[i] = (b[i] & !mj) | ((x >> (8 * j)) as u8 & mj);
        }
    }
}
pub fn mask(w: usize) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
/// What a field of `w` bits of a type of `t` bits yields for raw bits `v`, as
/// a value of 64 bits. Signed fields of a single bit read as 0 or 1.
pub fn spec_value(v: u64, w: usize, signed: bool) -> u64 {
    if signed && w > 1 && w < 64 {
        (((v << (64 - w)) as i64) >> (64 - w)) as u64
    } else {
        v & mask(w)
    }
}

/// (bits, signed, read, write); values travel sign- or zero-extended.
type Acc = (usize, bool, fn(*const u8, usize, usize) -> u64, fn(&mut [u8], usize, usize, u64));
macro_rules! acc {
    (bool) => {
        (
            64usize,
            false,
            (|p, o, w| read_bytes!(bool, p, o, w) as u64) as fn(*const u8, usize, usize) -> u64,
            (|b, o, w, v| {
                let x: bool = v & 1 != 0;
                write_bytes!(bool; x, b, o, w)
            }) as fn(&mut [u8], usize, usize, u64),
        )
    };
    ($t:tt, $s:expr) => {
        (
            std::mem::size_of::<$t>() * 8,
            $s,
            (|p, o, w| read_bytes!($t, p, o, w) as u64) as fn(*const u8, usize, usize) -> u64,
            (|b, o, w, v| {
                let x = v as $t;
                write_bytes!($t; x, b, o, w)
            }) as fn(&mut [u8], usize, usize, u64),
        )
    };
}
fn acc() -> Acc {
    match param(0) {
        0 => acc!(bool),
        1 => acc!(u8, false),
        2 => acc!(i8, true),
        3 => acc!(u16, false),
        4 => acc!(i16, true),
        5 => acc!(u32, false),
        6 => acc!(i32, true),
        7 => acc!(u64, false),
        _ => acc!(i64, true),
    }
}
/// A field of the type: (width, offset), every width, every offset within the
/// byte number `param(1)`.
fn field(bits: usize) -> (usize, usize) {
    let w = 1 + choose(bits as u64);
    (w, param(1) as usize * 8 + choose(8))
}
/// Exactly the bytes up to the end of the field; arbitrary around the field.
fn exact(o: usize, w: usize) -> Box<[u8]> {
    let mut b = vec![0u8; (o + w + 7) / 8].into_boxed_slice();
    fill(&mut b[near(o)..]);
    b
}
/// Bytes from here on are arbitrary; those before are zero.
fn near(o: usize) -> usize {
    (o / 8).saturating_sub(2)
}
fn value(bits: usize, signed: bool) -> u64 {
    if param(0) == 0 {
        sym(1)
    } else {
        spec_value(sym(bits as u32), bits, signed)
    }
}
/// What a field of `w` bits with the raw bits `v` reads as.
fn read_as(v: u64, w: usize, signed: bool) -> u64 {
    if param(0) == 0 {
        (v & mask(w) != 0) as u64
    } else {
        spec_value(v, w, signed)
    }
}

#[no_mangle]
pub fn c01_roundtrip() {
    begin(1);
    let (bits, signed, read, write) = acc();
    let (w, o) = field(bits);
    let mut b = exact(o, w);
    let v = value(bits, signed);
    write(&mut b, o, w, v);
    let r = read(b.as_ptr(), o, w);
    note(1, r);
    check(r == read_as(v, w, signed), "the value read back is the value written");
    write(&mut b, o, w, r);
    check(read(b.as_ptr(), o, w) == r, "writing the value again changes nothing");
    cover(0);
}
#[no_mangle]
pub fn c02_write() {
    begin(1);
    let (bits, signed, _, write) = acc();
    let (w, o) = field(bits);
    let mut b = exact(o, w);
    let old = b.clone();
    let v = value(bits, signed);
    write(&mut b, o, w, v);
    check(b[..near(o)] == old[..near(o)], "writing a field changed a byte far before it");
    for i in near(o)..b.len() {
        // bits of byte i outside of the field
        let mut m = 0xffu8;
        for k in 0..8 {
            if 8 * i + k >= o && 8 * i + k < o + w {
                m &= !(1 << k);
            }
        }
        note(1, b[i] as u64);
        check((b[i] ^ old[i]) & m == 0, "writing a field changed a bit outside of it");
    }
    cover(0);
}
#[no_mangle]
pub fn c02_read() {
    begin(1);
    let (bits, _, read, _) = acc();
    let (w, o) = field(bits);
    let b = exact(o, w);
    let mut c = exact(o, w);
    // same field, arbitrary surroundings
    for i in near(o)..b.len() {
        let mut m = 0u8;
        for k in 0..8 {
            if 8 * i + k >= o && 8 * i + k < o + w {
                m |= 1 << k;
            }
        }
        c[i] = (c[i] & !m) | (b[i] & m);
    }
    let x = read(b.as_ptr(), o, w);
    note(1, x);
    check(x == read(c.as_ptr(), o, w), "reading a field depends on a bit outside of it");
    cover(0);
}
#[no_mangle]
pub fn c03_write() {
    begin(1);
    let (bits, signed, _, write) = acc();
    let (w, o) = field(bits);
    let mut b = exact(o, w);
    let mut s = b.clone();
    let v = value(bits, signed);
    write(&mut b, o, w, v);
    spec_write(&mut s, o, w, v);
    check(b[..near(o)] == s[..near(o)], "bytes far before the field differ from the portable layout");
    for i in near(o)..b.len() {
        note(1, b[i] as u64);
        check(b[i] == s[i], "stored bytes differ from the portable layout");
    }
    cover(0);
}
#[no_mangle]
pub fn c03_read() {
    begin(1);
    let (bits, signed, read, _) = acc();
    // what a bool of more than a byte reads as, if it holds anything but 0 or 1, is not specified
    let (w, o) = field(if param(0) == 0 { 8 } else { bits });
    let b = exact(o, w);
    let r = read(b.as_ptr(), o, w);
    note(1, r);
    check(
        r == read_as(spec_read(&b, o, w), w, signed),
        "value read differs from the portable layout",
    );
    cover(0);
}

/// The forms of the macros with defaults for width and offset.
#[no_mangle]
pub fn c03_short() {
    begin(1);
    macro_rules! go {
        ($t:tt, $s:expr) => {{
            const N: usize = std::mem::size_of::<$t>();
            let mut b = exact(0, N * 8);
            let r = read_bytes!($t, b.as_ptr()) as u64;
            let e = spec_value(spec_read(&b, 0, N * 8), N * 8, $s);
            check(r == e, "full width read at the start");
            note(1, r);
            let o = choose(17);
            let mut c = exact(o, N * 8);
            let r = read_bytes!($t, c.as_ptr(), o) as u64;
            let e = spec_value(spec_read(&c, o, N * 8), N * 8, $s);
            check(r == e, "full width read at an offset");
            let v = value(N * 8, $s) as $t;
            let mut s = c.clone();
            write_bytes!($t; v, c, o);
            spec_write(&mut s, o, N * 8, v as u64);
            check(c == s, "full width write at an offset");
            let mut s = b.clone();
            write_bytes!($t; v, b);
            spec_write(&mut s, 0, N * 8, v as u64);
            check(b == s, "full width write at the start");
            check(read_bytes!($t, b.as_ptr(), 0) == v, "full width round trip");
        }};
    }
    match param(0) {
        1 => go!(u8, false),
        2 => go!(i8, true),
        3 => go!(u16, false),
        4 => go!(i16, true),
        5 => go!(u32, false),
        6 => go!(i32, true),
        7 => go!(u64, false),
        _ => go!(i64, true),
    }
    cover(0);
}
