//! C22: what is printed for debugging.
use crate::arch::{Arch, ArchBuilder};
use crate::ext::{storage, Idx32};
use crate::res::M17;
use crate::rec::*;
use crate::sx::*;
use crate::view::{Idx8, Var};
use flatdata::*;
use std::fmt::Debug;
use std::io::Write;
use std::rc::Rc;

/// `items` appear in `s` in order, each as a whole; the rest of `s` after them.
fn in_order<'a>(mut s: &'a str, items: &[String]) -> Option<&'a str> {
    for i in items {
        let at = s.find(i.as_str())?;
        s = &s[at + i.len()..];
    }
    Some(s)
}
/// The text of a container of `len` elements.
pub fn container(s: &str, name: &str, len: usize, items: &[String], record: &str) {
    check(s.starts_with(name), "the kind of the container is shown");
    let l = format!("len: {}", len);
    let at = s.find(&l).map(|i| &s[i + l.len()..]);
    let Some(rest) = at else {
        check(false, "the number of elements is shown");
        return;
    };
    check(!rest.starts_with(|c: char| c.is_ascii_digit()), "the number of elements is shown");
    let shown = if items.len() > 10 { &items[..10] } else { items };
    let Some(rest) = in_order(rest, shown) else {
        check(false, "the first elements are shown in order");
        return;
    };
    check(s.matches(record).count() == shown.len(), "no other element is shown");
    check(rest.contains("...") == (items.len() > 10), "an ellipsis stands for what is left out");
}

/// Records with one field of any value of some ranges: small numbers, the borders between numbers
/// of 1-3 digits, and between signs and widths.
const RANGES: [u64; 8] = [0, 8, 98, 126, 254, 0x7fff_fffe, 0x7fff_ffff_ffff_fffe, !1];
fn record<T: Rec>() {
    let n = T::SIZE_IN_BYTES;
    let mut b = vec![0u8; n].into_boxed_slice();
    let i = choose(T::FIELDS.len() as u64);
    let v = RANGES[choose(RANGES.len() as u64)].wrapping_add(below(4));
    T::set(&mut T::create_mut(&mut b), i, v);
    let r = T::create(&b);
    let s = format!("{:?}", r);
    check(s.starts_with(T::NAME), "a record shows its type");
    let fields: Vec<String> =
        T::NAMES.iter().enumerate().map(|(k, f)| format!(" {}: {}", f, T::show(&r, k))).collect();
    let mut rest = &s[..];
    for f in &fields {
        match in_order(rest, std::slice::from_ref(f)) {
            Some(r) => rest = r,
            None => check(false, "a record shows all of its fields"),
        }
        check(!rest.starts_with(|c: char| c.is_ascii_alphanumeric()), "a record shows its values");
    }
    check(s.matches(": ").count() == fields.len(), "a record shows nothing else");
    note(1, s.len() as u64);
    let mut x: StructBuf<T> = StructBuf::new();
    T::fill(&mut x.get_mut(), &r);
    check(format!("{:?}", x).contains(&s), "a standalone record shows the record");
    check(format!("{:?}", T::create_mut(&mut b)) == s, "the writable reference shows the same");
    cover(0);
}
#[no_mangle]
pub fn c22_record() {
    begin(1);
    match param(0) {
        0 => record::<Mix>(),
        1 => record::<Sig>(),
        2 => record::<Nib>(),
        3 => record::<Bits>(),
        4 => record::<Plain>(),
        5 => record::<Gap>(),
        6 => record::<Wide>(),
        7 => record::<B8>(),
        _ => enums(),
    }
}
fn enums() {
    let mut x: StructBuf<Enums> = StructBuf::new();
    let (c, d) = (choose(4), choose(4));
    x.get_mut().set_before(7);
    x.get_mut().set_color([Color::Red, Color::Green, Color::Blue, Color::Odd][c]);
    x.get_mut().set_dir([Dir::Down, Dir::Stay, Dir::Up, Dir::Far][d]);
    let s = format!(
        "Enums {{ before: 7, color: {}, dir: {}, after: 0 }}",
        ["Red", "Green", "Blue", "Odd"][c],
        ["Down", "Stay", "Up", "Far"][d]
    );
    check(format!("{:?}", x.get()) == s, "a record with enums");
    cover(0);
}

pub fn text<D: Debug>(d: D) -> String {
    format!("{:?}", d)
}
/// Arrays of every length up to the bound, one record of any value.
#[no_mangle]
pub fn c22_arrays() {
    begin(2);
    let n = choose(param(0) + 1);
    let mut v: Vector<B1> = Vector::with_len(n);
    for i in 0..n {
        v.at_mut(i).set_x(100 + i as u8);
    }
    if n > 0 {
        let i = choose(n as u64);
        v.at_mut(i).set_x([0, 9, 99, 255][choose(4)]);
    }
    let all: Vec<String> = v.as_view().iter().map(text).collect();
    let name = format!("{} {{", B1::NAME);
    container(&text(&v), "Vector", n, &all, &name);
    container(&text(v.as_view()), "ArrayView", n, &all, &name);
    let mut it = v.as_view().iter();
    container(&text(&it), "ArrayViewIter", n, &all, &name);
    let from = choose(n as u64 + 1);
    for _ in 0..from {
        it.next();
    }
    container(&text(&it), "ArrayViewIter", n - from, &all[from..], &name);
    check(it.len() == n - from, "showing an iterator does not advance it");
    if from < n {
        it.next_back();
        container(&text(&it), "ArrayViewIter", n - from - 1, &all[from..n - 1], &name);
        cover(1);
    }
    // bytes that are no whole record
    let b = vec![1u8; 3 * n + choose(3)];
    let w: ArrayView<B3> = ArrayView::new(&b);
    let all: Vec<String> = w.iter().map(text).collect();
    container(&text(&w), "ArrayView", n, &all, &format!("{} {{", B3::NAME));
    cover(0);
}
/// Multivectors of every length up to the bound with 0-2 records each.
#[no_mangle]
pub fn c22_multi() {
    begin(1);
    let s = storage(0);
    let mut v = create_multi_vector::<Idx8, Var>(&*s, "mv", "schema").unwrap();
    let n = choose(param(0) + 1);
    let odd = choose(n as u64 + 1);
    for i in 0..n {
        let mut b = v.grow().unwrap();
        if i == odd {
            for _ in 0..[0, 1, 2, 12][choose(4)] {
                b.add_b3().set_x(i as u32);
            }
        } else {
            b.add_b1().set_x(100 + i as u8);
        }
    }
    let v = v.close().unwrap();
    let items: Vec<Vec<String>> =
        v.iter().map(|i| i.map(|r| text(&r)).collect()).collect();
    let check_view = |s: String, name: &str, items: &[Vec<String>]| {
        check(s.starts_with(name), "the kind of the container is shown");
        let shown = if items.len() > 10 { &items[..10] } else { items };
        let flat: Vec<String> = shown.iter().flatten().cloned().collect();
        let grouped: Vec<String> =
            shown.iter().enumerate().map(|(k, i)| format!("({}, [{}])", k, i.join(", "))).collect();
        check(in_order(&s, &grouped).is_some(), "the items are shown with their positions");
        check(s.contains(&format!("len: {},", items.len())), "the number of items is shown");
        let Some(rest) = in_order(&s, &flat) else {
            check(false, "the first items are shown in order");
            return;
        };
        check(s.matches("x: ").count() == flat.len(), "no other item is shown");
        check(rest.contains("...") == (items.len() > 10), "an ellipsis stands for what is left out");
    };
    check_view(text(&v), "MultiArrayView", &items);
    let mut it = v.iter();
    check_view(text(&it), "MultiArrayViewIter", &items);
    if n > 0 {
        let s = text(v.at(n - 1));
        check(in_order(&s, &items[n - 1]).is_some(), "an item shows its records");
        check(s.matches("x: ").count() == items[n - 1].len(), "an item shows nothing else");
        it.next();
        check_view(text(&it), "MultiArrayViewIter", &items[1..]);
        check(it.len() == n - 1, "showing an iterator does not advance it");
    }
    cover(0);
}
/// Writers and storages.
#[no_mangle]
pub fn c22_writers() {
    begin(1);
    let s = storage(param(0) as usize);
    let mut v = create_external_vector::<B3>(&*s, "v", "schema").unwrap();
    let n = choose(13);
    for i in 0..n {
        check(text(&v).contains(&format!("len: {} ", i)), "a writer shows the number of records");
        v.grow().unwrap();
    }
    check(text(&v).contains(&format!("len: {} ", n)), "a writer shows the number of records");
    v.close().unwrap();
    s.create_output_stream("h.schema").unwrap().borrow_mut().write_all(b"schema").unwrap();
    let stream = s.create_output_stream("h").unwrap();
    let mut h = ResourceHandle::try_new(&*s, "h".into(), "schema".into(), stream).unwrap();
    check(text(&h).contains("is_open: true"), "a resource writer shows whether it is open");
    for k in 1..4 {
        h.write(&[0; 77][..n]).unwrap();
        check(text(&h).contains(&format!("size_in_bytes: {} ", k * n)), "a resource writer shows its size");
    }
    h.close().unwrap();
    check(text(&h).contains("is_open: false"), "a resource writer shows whether it is open");
    check(text(&MemoryDescriptor::default()).contains("size: 0"), "a descriptor shows its size");
    // errors
    match s.read("missing", "schema") {
        Err(e) => {
            check(text(&e).contains("missing"), "an error names the resource");
            check(format!("{}", e).contains("missing"), "an error names the resource");
        }
        Ok(_) => check(false, "a missing resource"),
    }
    match s.read("v", "other") {
        Err(e) => {
            let t = format!("{}", e);
            check(t.contains("\"v\""), "a mismatch names the resource");
            check(t.contains("-schema") && t.contains("+other"), "a mismatch shows the difference");
        }
        Ok(_) => check(false, "another schema"),
    }
    cover(0);
}
/// Writers of more than is kept in memory.
#[no_mangle]
pub fn c22_large() {
    begin(1);
    let s = storage(param(0) as usize);
    let mut v = create_external_vector::<M17>(&*s, "v", "schema").unwrap();
    for i in 0..4 {
        check(text(&v).contains(&format!("len: {} ", i)), "a writer shows the number of records");
        v.grow().unwrap();
    }
    check(text(&v).contains("len: 4 "), "a writer shows the number of records");
    v.close().unwrap();
    cover(0);
}
/// An archive with any subset of its optional parts.
#[no_mangle]
pub fn c22_archive() {
    begin(1);
    let s = storage(param(0) as usize);
    let b = ArchBuilder::new(s.clone()).unwrap();
    crate::arch::required_parts(&b);
    let with = choose(2) == 1;
    if with {
        b.set_s(&[1, 2, 3]).unwrap();
        let mut v: Vector<B8> = Vector::new();
        for i in 0..12 {
            v.grow().set_x(1000 + i);
        }
        b.set_w(&v.as_view()).unwrap();
    }
    let a = Arch::open(s as Rc<dyn ResourceStorage>).unwrap();
    let t = text(&a);
    check(t.starts_with("Arch"), "an archive shows its type");
    let names = [" a: ", " b: ", " v: ", " w: ", " mv: ", " mw: ", " r: ", " s: ", " sub: ", " osub: "];
    let names: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    check(in_order(&t, &names).is_some(), "an archive shows all of its parts");
    check(t.contains(&format!(" a: {}", text(a.a()))), "a record of an archive");
    check(t.contains(&format!(" b: {}", text(a.b()))), "an optional record of an archive");
    check(t.contains(&format!(" v: {}", text(a.v()))), "a vector of an archive");
    check(t.contains(&format!(" w: {}", text(a.w()))), "an optional vector of an archive");
    check(t.contains(&format!(" mv: {}", text(a.mv()))), "a multivector of an archive");
    check(t.contains(&format!(" mw: {}", text(a.mw()))), "an optional multivector of an archive");
    check(t.contains(&format!(" sub: {}", text(a.sub()))), "a subarchive");
    check(t.contains("1009") == with && !t.contains("1010"), "a preview of an optional vector");
    cover(0);
}
/// Containers and items that are much longer than what is shown.
#[no_mangle]
pub fn c22_long() {
    begin(1);
    let n = param(0) as usize;
    let mut v: Vector<B1> = Vector::with_len(n);
    let i = [0, 9, 10, n - 1][choose(4)];
    v.at_mut(i).set_x([0, 9, 99, 255][choose(4)]);
    let first: Vec<String> = v.as_view().iter().take(11).map(text).collect();
    for s in [text(&v), text(v.as_view()), text(v.as_view().iter())] {
        check(s.contains(&format!("len: {},", n)), "the number of records is shown");
        let rest = in_order(&s, &first[..10]);
        check(rest.map_or(false, |r| r.contains("...")), "the first records are shown, and an ellipsis");
        check(s.matches("x: ").count() == 10, "no other record is shown");
    }
    let s = storage(0);
    let mut m = create_multi_vector::<Idx32, Var>(&*s, "mv", "schema").unwrap();
    let many = choose(12.min(n as u64));
    for k in 0..n {
        let mut b = m.grow().unwrap();
        for _ in 0..if k == many { 40 } else { k % 2 } {
            b.add_b1().set_x(k as u8);
        }
    }
    let m = m.close().unwrap();
    for s in [text(&m), text(m.iter())] {
        check(s.contains(&format!("len: {},", n)), "the number of items is shown");
        let shown: usize = (0..10).map(|k| if k == many { 40 } else { k % 2 }).sum();
        check(s.matches("x: ").count() == shown, "the first items are shown");
        check(s.ends_with("... }") || s.contains("..."), "an ellipsis stands for what is left out");
    }
    check(text(m.at(many)).matches("x: ").count() == 40, "an item is shown");
    cover(0);
}
