//! C11: opening resources. C12: framing. C20: schema mismatch.
use crate::ext::*;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

/// A storage that holds one resource.
pub struct Raw {
    pub data: Result<Box<[u8]>, io::ErrorKind>,
    pub schema: Result<Box<[u8]>, io::ErrorKind>,
}
impl ResourceStorage for Raw {
    fn subdir(&self, _: &str) -> Rc<dyn ResourceStorage> {
        unreachable!()
    }
    fn exists(&self, _: &str) -> bool {
        unreachable!()
    }
    fn read_resource(&self, name: &str) -> Result<&[u8], io::Error> {
        let r = match name {
            "res" => &self.data,
            "res.schema" => &self.schema,
            _ => return Err(io::ErrorKind::NotFound.into()),
        };
        match r {
            Ok(b) => Ok(b),
            Err(k) => Err((*k).into()),
        }
    }
    fn create_output_stream(&self, _: &str) -> io::Result<Rc<RefCell<dyn Stream>>> {
        unreachable!()
    }
}
fn arbitrary(n: usize) -> Box<[u8]> {
    let mut b = vec![0u8; n].into_boxed_slice();
    fill(&mut b);
    b
}
fn header(b: &[u8]) -> u64 {
    let mut v = 0;
    for i in 0..8 {
        v |= (b[i] as u64) << (8 * i);
    }
    v
}
/// The outcome of opening against what is stored (None: missing).
pub fn judge(
    got: Result<&[u8], ResourceStorageError>,
    data: Option<&[u8]>,
    schema: Option<&[u8]>,
    want: &str,
) {
    let present = data.is_some() && schema.is_some();
    let sized = data.map_or(false, |d| d.len() >= 16 && header(d) == d.len() as u64 - 16);
    let utf8 = schema.map_or(false, |s| std::str::from_utf8(s).is_ok());
    let same = schema.map_or(false, |s| s == want.as_bytes());
    match got {
        Ok(b) => {
            check(present && sized && same, "only a well-formed resource opens");
            let d = data.unwrap();
            check(b.len() == d.len() - 16, "number of bytes of the resource");
            check(*b == d[8..d.len() - 8], "bytes of the resource");
            cover(0)
        }
        Err(ResourceStorageError::Io(_, n)) => {
            check(!present, "an I/O error only if a part is missing");
            check(n == "res", "the error names the resource");
            cover(4)
        }
        Err(ResourceStorageError::UnexpectedDataSize) => {
            check(present && !sized, "a size error only for a wrong size");
            cover(2)
        }
        Err(ResourceStorageError::Utf8Error(_)) => {
            check(present && !utf8, "an encoding error only for invalid text");
            cover(3)
        }
        Err(ResourceStorageError::WrongSignature { resource_name, diff }) => {
            check(present && utf8 && !same, "a mismatch only if the schemas differ");
            check(resource_name == "res", "the mismatch names the resource");
            check(!diff.is_empty(), "the mismatch has a difference");
            cover(1)
        }
        Err(_) => check(false, "unexpected kind of error"),
    }
}
const TEXTS: [&str; 7] = ["", "a", "ab", "\u{e9}", "a\nb", "\u{fffd}", " a\n"];

/// A valid resource with `n` arbitrary bytes.
fn valid(n: usize) -> Box<[u8]> {
    let mut b = arbitrary(n + 16);
    b[..8].copy_from_slice(&(n as u64).to_le_bytes());
    b
}
/// Arbitrary bytes, number of bytes and presence of the data with some schemas
/// (param(1) = 0: any length up to param(2), otherwise that length), or
/// arbitrary schemas with some data.
#[no_mangle]
pub fn c11_open() {
    begin(if param(1) == 1 { 4 } else { 5 });
    let want = TEXTS[param(0) as usize];
    let kinds = [io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::Other];
    let (data, schema) = if param(1) < 2 {
        let n = param(2);
        (
            if param(1) == 1 {
                Ok(arbitrary(n as usize))
            } else {
                match choose(4) {
                    k @ 0..=2 => Err(kinds[k]),
                    _ => Ok(arbitrary(choose(n + 1))),
                }
            },
            match choose(6) {
                0 if param(1) == 0 => Err(kinds[choose(3)]),
                1 => Ok("other".as_bytes().into()),
                2 => Ok([0xffu8].into()),
                3 => Ok((want.to_string() + "x").into_bytes().into()),
                _ => Ok(want.as_bytes().into()),
            },
        )
    } else {
        (
            match choose(6) {
                0 => Err(io::ErrorKind::NotFound),
                1 => Ok(arbitrary(15)),
                2 => Ok([3u8; 20].into()),
                k => Ok(valid(k - 3)),
            },
            match choose(3) {
                0 => Err(io::ErrorKind::NotFound),
                _ => Ok(arbitrary(choose(param(2) + 1))),
            },
        )
    };
    let s = Raw { data, schema };
    let p = |r: &Result<Box<[u8]>, io::ErrorKind>| r.as_ref().ok().map(|b| b.to_vec());
    let got = if choose(2) == 0 { s.read("res", want) } else { s.read_and_check_schema("res", want) };
    if let (Ok(b), Ok(d)) = (&got, &s.data) {
        check(b.as_ptr() as usize == d.as_ptr() as usize + 8, "the stored bytes themselves are returned");
    }
    judge(got, p(&s.data).as_deref(), p(&s.schema).as_deref(), want);
}
/// A long schema that differs in one byte, is cut or continued.
#[no_mangle]
pub fn c11_long() {
    begin(2);
    let n = param(0) as usize;
    let mut text = String::new();
    while text.len() < n {
        let l = text.len();
        text.push(if l % 40 == 39 { '\n' } else if l == 100 { '\u{e9}' } else { (b'a' + (l % 23) as u8) as char });
    }
    let mut stored = text.clone().into_bytes();
    let len = stored.len();
    match choose(3) {
        0 => {
            let (at, b) = (below(len as u64) as usize, sym(8) as u8);
            stored[at] = b;
        }
        1 => stored.truncate([0, 1, 7, 8, 16, 31, 32, len.saturating_sub(32), len - 8, len - 2, len - 1][choose(11)].min(len)),
        _ => stored.extend_from_slice(&arbitrary(1 + choose(2))),
    }
    let same = stored == text.as_bytes();
    let s = Raw { data: Ok(valid(2)), schema: Ok(stored.into()) };
    // what the error is, is the matter of others
    let got = s.read("res", &text).is_ok();
    check(got == same, "a resource opens if the schemas are equal");
    cover(got as u32);
}
/// A schema of any length that differs in one byte only.
#[no_mangle]
pub fn c11_far() {
    begin(2);
    const PLACES: [usize; 14] = [0, 1, 63, 64, 255, 256, 1023, 1024, 4095, 4096, 65535, 65536, 1 << 20, 1 << 40];
    let n = [100, 257, 1025, 4097, 8192, 65537, 70000, (1 << 20) + 2][choose(8)];
    let line = choose(2) == 0;
    let mut text = vec![b'x'; n];
    if !line {
        text[n / 2] = b'\n';
    }
    let mut stored = text.clone();
    let at = PLACES[choose(14)].min(n - 1);
    stored[if choose(2) == 0 { at } else { n - 1 - at }] = sym(7) as u8;
    let same = stored == text;
    let s = Raw { data: Ok(valid(2)), schema: Ok(stored.into()) };
    let got = s.read("res", std::str::from_utf8(&text).unwrap()).is_ok();
    check(got == same, "a resource opens if the schemas are equal");
    cover(got as u32);
}
/// The same for files and for the memory storage.
#[no_mangle]
pub fn c11_stored() {
    begin(if param(2) == 0 { 5 } else { 4 });
    let want = TEXTS[param(1) as usize];
    let s = storage(param(0) as usize);
    let data = match choose(3) {
        0 if param(2) == 0 => None,
        1 => Some(arbitrary(choose(16))),
        _ => Some(arbitrary(16 + choose(3))),
    };
    let schema: Option<Box<[u8]>> = match choose(5) {
        0 if param(2) == 0 => None,
        1 => Some([].into()),
        2 => Some([0xc3].into()),
        3 => Some(arbitrary(1)),
        _ => Some(want.as_bytes().into()),
    };
    if param(0) == 0 {
        for (n, b) in [("res", &data), ("res.schema", &schema)] {
            if let Some(b) = b {
                use io::Write;
                s.create_output_stream(n).unwrap().borrow_mut().write_all(b).unwrap();
            }
        }
    } else {
        let d = tmpdir().join("data");
        std::fs::create_dir(&d).unwrap();
        for (n, b) in [("res", &data), ("res.schema", &schema)] {
            if let Some(b) = b {
                std::fs::write(d.join(n), b).unwrap();
            }
        }
    }
    check(s.exists("res") == data.is_some(), "existence");
    for _ in 0..2 {
        judge(s.read("res", want), data.as_deref(), schema.as_deref(), want);
    }
}
/// Two resources of the same name opened again and again with one schema or another.
#[no_mangle]
pub fn c11_again() {
    begin(3);
    let kind = param(0) as usize;
    let top = storage(kind);
    let texts = ["one", "two", "x\ny"];
    let mut all: Vec<(Storage, Box<[u8]>, Box<[u8]>)> = vec![];
    for i in 0..2 {
        let data = match choose(3) {
            0 => arbitrary(17),
            k => valid(k + i),
        };
        let s = if i == 0 { top.clone() } else { top.subdir("d") };
        for (n, b) in [("res", &data[..]), ("res.schema", texts[i].as_bytes())] {
            use io::Write;
            s.create_output_stream(n).unwrap().borrow_mut().write_all(b).unwrap();
        }
        all.push((s, data, texts[i].as_bytes().into()));
    }
    for _ in 0..param(1) {
        let (s, data, schema) = &all[choose(2)];
        let want = texts[choose(3)];
        judge(s.read("res", want), Some(data), Some(schema), want);
        check(s.read("absent", want).is_err(), "an absent resource does not open");
    }
}

// ---- C12 --------------------------------------------------------------------
/// The bytes stored under a name, read without the library where possible.
pub fn stored(kind: usize, s: &Storage, name: &str) -> Vec<u8> {
    if kind == 0 {
        s.read_resource(name).unwrap().to_vec()
    } else {
        std::fs::read(tmpdir().join("data").join(name)).unwrap()
    }
}
pub fn framed(b: &[u8], data: &[u8]) {
    check(b.len() == data.len() + 16, "size of the stored bytes");
    check(header(b) == data.len() as u64, "size header");
    check(b[8..8 + data.len()] == *data, "stored data");
    check(b[8 + data.len()..] == [0u8; 8], "padding");
}
const SCHEMAS: [&str; 4] = ["", "s", "struct A\n{\n  x : u32;\n}\n", "\u{e9}\0x"];

#[no_mangle]
pub fn c12_plain() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let schema = SCHEMAS[choose(4)];
    let data = match choose(9) {
        // sizes of two and three bytes
        7 => arbitrary(255 + choose(3)),
        8 => {
            let mut b = vec![7u8; 65535 + choose(3)].into_boxed_slice();
            let n = b.len();
            fill(&mut b[..9]);
            fill(&mut b[n - 9..]);
            b
        }
        n => arbitrary(n),
    };
    s.write("some.name", schema, &data).unwrap();
    framed(&stored(kind, &s, "some.name"), &data);
    check(stored(kind, &s, "some.name.schema") == schema.as_bytes(), "stored schema");
    note(1, data.len() as u64);
    cover(0);
}
fn vec<T: Rec>(kind: usize, n: usize, schema: &str) {
    let s = storage(kind);
    let mut v = create_external_vector::<T>(&*s, "vec", schema).unwrap();
    let mut data = vec![];
    let w = T::SIZE_IN_BYTES;
    for _ in 0..n {
        let mut b = vec![0u8; w].into_boxed_slice();
        if w < 100 {
            fill(&mut b)
        } else {
            fill(&mut b[..8]);
            fill(&mut b[w - 8..]);
        }
        let mut m = v.grow().unwrap();
        T::fill(&mut m, &T::create(&b));
        // what an in-memory record with these fields looks like
        let mut x = StructBuf::<T>::new();
        T::fill(&mut x.get_mut(), &T::create(&b));
        data.extend_from_slice(x.as_bytes());
    }
    v.close().unwrap();
    framed(&stored(kind, &s, "vec"), &data);
    check(stored(kind, &s, "vec.schema") == schema.as_bytes(), "stored schema");
    note(1, n as u64);
    cover(0);
}
#[no_mangle]
pub fn c12_vector() {
    begin(1);
    let kind = param(1) as usize;
    let schema = SCHEMAS[choose(4)];
    let n = choose(4);
    match param(0) {
        0 => vec::<B1>(kind, n, schema),
        1 => vec::<B3>(kind, n, schema),
        2 => vec::<Mix>(kind, n, schema),
        // pushed to storage in between
        _ => vec::<M17>(kind, n, schema),
    }
}
record!(M17, RefM17, MutM17, 17000000, (0, a, set_a, u64, 0, 64), (1, z, set_z, u64, 135999936, 64));

fn multi<I: for<'a> IndexStruct<'a>>(kind: usize, schema: &str) {
    let s = storage(kind);
    let n = choose(3);
    let mut v = create_multi_vector::<I, Var>(&*s, "mv", schema).unwrap();
    let (mut data, mut offsets) = (vec![], vec![0]);
    for _ in 0..n {
        let mut b = v.grow().unwrap();
        for _ in 0..choose(3) {
            match choose(3) {
                0 => {
                    let x = arbitrary(1);
                    B1::fill(&mut b.add_b1(), &B1::create(&x));
                    data.push(0);
                    data.extend_from_slice(&x);
                }
                1 => {
                    let x = arbitrary(3);
                    B3::fill(&mut b.add_b3(), &B3::create(&x));
                    data.push(7);
                    data.extend_from_slice(&x);
                }
                _ => {
                    let x = arbitrary(9);
                    Wide::fill(&mut b.add_wide(), &Wide::create(&x));
                    data.push(255);
                    data.extend_from_slice(&x);
                }
            }
        }
        offsets.push(data.len());
    }
    v.close().unwrap();
    framed(&stored(kind, &s, "mv"), &data);
    check(stored(kind, &s, "mv.schema") == schema.as_bytes(), "stored schema");
    let mut index = vec![0; offsets.len() * I::SIZE_IN_BYTES];
    for (i, o) in offsets.iter().enumerate() {
        for k in 0..I::SIZE_IN_BYTES.min(8) {
            index[i * I::SIZE_IN_BYTES + k] = (o >> (8 * k)) as u8;
        }
    }
    framed(&stored(kind, &s, "mv_index"), &index);
    check(
        stored(kind, &s, "mv_index.schema") == format!("index({})", schema).as_bytes(),
        "stored schema of the index",
    );
    cover(0);
}
#[no_mangle]
pub fn c12_multi() {
    begin(1);
    let kind = param(1) as usize;
    let schema = SCHEMAS[choose(2) * 2 + 1];
    match param(0) {
        0 => multi::<Idx8>(kind, schema),
        1 => multi::<Idx32>(kind, schema),
        2 => multi::<Idx40>(kind, schema),
        _ => multi::<Idx64>(kind, schema),
    }
}
/// Offsets of a multivector whose data is pushed to storage in between.
#[no_mangle]
pub fn c12_offsets() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let mut v = create_multi_vector::<Idx40, Large>(&*s, "mv", "schema").unwrap();
    let (mut at, mut offsets) = (0, vec![0]);
    for _ in 0..3 {
        let mut b = v.grow().unwrap();
        match choose(4) {
            0 => (),
            1 => {
                b.add_b3().set_x(1);
                at += 4;
            }
            2 => {
                b.add_m40().set_a(1);
                at += 1 + 41943040;
            }
            _ => {
                b.add_m40().set_a(1);
                b.add_b3().set_x(3);
                at += 5 + 41943040;
            }
        }
        offsets.push(at);
    }
    v.close().unwrap();
    let i = stored(kind, &s, "mv_index");
    check(header(&i) == 24 && i.len() == 40, "size of the index");
    for (k, o) in offsets.iter().enumerate() {
        check(header(&i[8 + 6 * k..]) & 0xff_ffff_ffff == *o, "offset of an item");
    }
    let d = stored(kind, &s, "mv");
    check(header(&d) == at && d.len() as u64 == at + 16, "size of the data");
    cover(0);
}

// ---- C20 --------------------------------------------------------------------
fn text(max: u64) -> String {
    let n = choose(max + 1);
    let mut s = vec![];
    for _ in 0..n {
        let k = sym(2);
        assume(k < 3);
        s.push(if param(2) == 0 { [b'a', b'b', b'\n'][concrete(k) as usize] } else {
            [b'a', b'\n', 0xc3][concrete(k) as usize]
        });
        if s[s.len() - 1] == 0xc3 {
            s.push(0xa9);
        }
    }
    String::from_utf8(s).unwrap()
}
/// Lines as a reader of the text sees them; an empty last line counts if the
/// text is not empty.
fn lines(s: &str) -> Vec<&str> {
    if s.is_empty() {
        vec![]
    } else {
        s.split('\n').collect()
    }
}
fn within(a: &[&str], b: &[&str]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}
#[no_mangle]
pub fn c20_diff() {
    begin(1);
    let (have, want) = (text(param(0)), text(param(1)));
    if have != want {
        explained(have, want);
    }
}
/// A schema of many lines and one in which up to two of them are changed.
#[no_mangle]
pub fn c20_lines() {
    begin(1);
    let n = param(0);
    let old: Vec<String> = (0..n)
        .map(|i| match i % 5 {
            2 => "}".to_string(),
            4 => String::new(),
            _ => format!("line {}", i),
        })
        .collect();
    let mut new = old.clone();
    for _ in 0..param(1) {
        let i = choose(new.len() as u64 + 1);
        match choose(4) {
            0 if i < new.len() => new[i] = "changed".to_string(),
            1 if i < new.len() => drop(new.remove(i)),
            2 => new.insert(i, "added".to_string()),
            _ => new.insert(i, "}".to_string()),
        }
    }
    let (mut have, mut want) = (old.join("\n"), new.join("\n"));
    if choose(2) == 1 {
        std::mem::swap(&mut have, &mut want);
    }
    if have != want {
        explained(have, want);
    }
}
/// Schemas of very many lines: changed in one place, or with nothing in common.
#[no_mangle]
pub fn c20_far() {
    begin(1);
    let n = param(0) as usize;
    let old: Vec<String> = (0..n).map(|i| format!("line {}", i)).collect();
    let i = [0, 1, 7, 15, 16, 31, 32, 49, 50, 63, 64, 99, 100, n / 2, n - 2, n - 1][choose(16)].min(n - 1);
    let mut new = old.clone();
    match choose(5) {
        0 => new[i] = "changed".to_string(),
        1 => drop(new.remove(i)),
        2 => new.insert(i, "added".to_string()),
        3 => new.truncate(i),
        // nothing in common from there on
        _ => new[i..].iter_mut().for_each(|l| l.push('!')),
    }
    let (mut have, mut want) = (old.join("\n"), new.join("\n"));
    if choose(2) == 1 {
        std::mem::swap(&mut have, &mut want);
    }
    explained(have, want);
}
/// Long lines that differ in one character.
#[no_mangle]
pub fn c20_wide() {
    begin(1);
    let n = [70, 79, 80, 81, 120, 127, 128, 255, 256, 257, 1000, 1024, 4096, 5000, 65537][choose(15)];
    let mut line = vec![b'x'; n];
    let at = match choose(5) {
        0 => 0,
        1 => n / 2,
        2 => n - 1,
        3 => 64,
        _ => 80.min(n - 2),
    };
    let c = [b'y', b' ', b'\t', b'+', b'-'][choose(5)];
    let old = line.clone();
    line[at] = c;
    let more = ["", "\nstruct"][choose(2)];
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap() + more;
    explained(text(&old), text(&line));
}
pub fn explained(have: String, want: String) {
    let s: Storage = if param(3) == 0 {
        let data = vec![0u8; 16].into_boxed_slice();
        Rc::new(Raw { data: Ok(data), schema: Ok(have.clone().into_bytes().into()) })
    } else {
        let s = storage(param(3) as usize - 1);
        s.write("res", &have, &[]).unwrap();
        s
    };
    match s.read("res", &want) {
        Err(ResourceStorageError::WrongSignature { resource_name, diff }) => {
            check(resource_name == "res", "the mismatch names the resource");
            let (mut l, mut r) = (vec![], vec![]);
            let (mut less, mut more) = (0, 0);
            if !diff.is_empty() {
                for x in diff.split('\n') {
                    let Some(t) = x.get(1..) else {
                        check(false, "every line is marked");
                        return;
                    };
                    match &x[..1] {
                        "-" => {
                            l.push(t);
                            less += 1;
                        }
                        "+" => {
                            r.push(t);
                            more += 1;
                        }
                        " " => {
                            l.push(t);
                            r.push(t);
                        }
                        _ => check(false, "every line is marked"),
                    }
                }
            }
            check(l == lines(&have), "removed and common lines are the stored schema");
            check(r == lines(&want), "added and common lines are the requested schema");
            check(less + more > 0, "some line differs");
            // only insertions or only removals, apart from the end of the text
            if have.ends_with('\n') == want.ends_with('\n') {
                let (a, b): (Vec<&str>, Vec<&str>) = (have.lines().collect(), want.lines().collect());
                if within(&a, &b) {
                    check(less == 0, "no line is removed when lines were only added");
                }
                if within(&b, &a) {
                    check(more == 0, "no line is added when lines were only removed");
                }
            }
            cover(0);
        }
        _ => check(false, "a different schema is a mismatch"),
    }
}
/// Sizes around powers of two, up to the limit of a buffer and beyond.
#[no_mangle]
pub fn c12_sizes() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let n = match choose(13 + param(1)) {
        k @ 0..=12 => (512usize << k) + choose(3) - 1,
        13 => 3 << 20,
        14 => 10_000_000,
        15 => 32 << 20,
        _ => (32 << 20) + 1,
    };
    let mut data = vec![7u8; n].into_boxed_slice();
    // every page is different
    for (k, page) in data.chunks_exact_mut(4096).enumerate() {
        page[4092..].copy_from_slice(&(k as u32).to_le_bytes());
    }
    fill(&mut data[..3]);
    fill(&mut data[n - 3..]);
    s.write("r", "schema", &data).unwrap();
    framed(&stored(kind, &s, "r"), &data);
    match s.read("r", "schema") {
        Ok(b) => check(*b == data[..], "bytes that are read"),
        Err(_) => check(false, "the resource opens"),
    }
    note(1, n as u64);
    cover(0);
}
/// Schemas of any length, stored for everything that has one.
#[no_mangle]
pub fn c12_schemas() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let n = [0, 1, 100, 255, 256, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1 << 20][choose(14)];
    let mut text = vec![b's'; n];
    for (k, part) in text.chunks_exact_mut(64).enumerate() {
        part[63] = b'\n';
        part[60..62].copy_from_slice(&[b'a' + (k % 26) as u8, b'a' + (k / 26 % 26) as u8]);
    }
    let schema = std::str::from_utf8(&text).unwrap();
    let index = format!("index({})", schema);
    let way = choose(3);
    match way {
        0 => s.write("r", schema, &[1, 2]).unwrap(),
        1 => check(create_external_vector::<B3>(&*s, "r", schema).unwrap().close().is_ok(), "a vector"),
        _ => check(create_multi_vector::<Idx16, Var>(&*s, "r", schema).unwrap().close().is_ok(), "a multivector"),
    }
    check(stored(kind, &s, "r.schema") == schema.as_bytes(), "stored schema");
    check(s.read("r", schema).is_ok(), "the resource opens");
    if way == 2 {
        check(stored(kind, &s, "r_index.schema") == index.as_bytes(), "stored schema of the index");
        check(s.read("r_index", &index).is_ok(), "the index opens");
    }
    cover(0);
}
