//! C17: opening archives. C18: what builders wrote. C12: what they store.
use crate::ext::*;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::collections::BTreeMap;
use std::io;
use std::sync::atomic::{AtomicBool, Ordering};

record!(Head, RefHead, MutHead, 15,
    (0, x, set_x, u8, 0, 8), (1, y, set_y, i64, 8, 64), (2, z, set_z, u64, 72, 48));
define_archive!(Sub, SubBuilder, "schema of Sub";
    ;
    (vec, set_vec, start_vec, B3, "schema of vec", true);
    ;
    (raw, set_raw, "schema of raw", false);
);
define_archive!(Arch, ArchBuilder, "schema of Arch";
    (a, set_a, Head, "schema of a", false),
    (b, set_b, Head, "schema of b", true);
    (v, set_v, start_v, B3, "schema of v", false),
    (w, set_w, start_w, B8, "schema of w", true);
    (mv, start_mv, Var, "schema of mv", mv_index, Idx16, false),
    (mw, start_mw, Var, "schema of mw", mw_index, Idx16, true);
    (r, set_r, "schema of r", false),
    (s, set_s, "schema of s", true);
    (sub, Sub, SubBuilder, "schema of sub", false),
    (osub, Sub, SubBuilder, "schema of osub", true)
);
define_archive!(Empty, EmptyBuilder, "schema of Empty";
    ; ; ; ;
);

/// Names, schemas and least sizes of all resources.
const ALL: [(&str, &str, usize); 17] = [
    ("Arch.archive", "schema of Arch", 0),
    ("a", "schema of a", 15),
    ("v", "schema of v", 0),
    ("mv_index", "index(schema of mv)", 0),
    ("mv", "schema of mv", 0),
    ("r", "schema of r", 0),
    ("sub/Sub.archive", "schema of Sub", 0),
    ("sub/raw", "schema of raw", 0),
    // optional
    ("b", "schema of b", 15),
    ("w", "schema of w", 0),
    ("mw_index", "index(schema of mw)", 0),
    ("mw", "schema of mw", 0),
    ("s", "schema of s", 0),
    ("osub/Sub.archive", "schema of Sub", 0),
    ("osub/raw", "schema of raw", 0),
    ("osub/vec", "schema of vec", 0),
    ("sub/vec", "schema of vec", 0),
];
const REQUIRED: usize = 8;

type Files = BTreeMap<String, Vec<u8>>;

/// What an archive contains: the stored bytes of every part.
#[derive(Clone)]
pub struct Content {
    a: Vec<u8>,
    b: Vec<u8>,
    v: Vec<u8>,
    w: Vec<u8>,
    mv: Vec<Vec<(u8, Vec<u8>)>>,
    mw: Vec<Vec<(u8, Vec<u8>)>>,
    r: Vec<u8>,
    s: Vec<u8>,
    sub: Vec<u8>,
    osub: Vec<u8>,
    vec: Vec<u8>,
}
fn arbitrary(n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    fill(&mut b);
    b
}
/// How much there is of everything; the bytes are arbitrary.
pub fn content(size: usize) -> Content {
    let rec = |t: u8| (t, arbitrary([1, 2, 0, 0, 0, 0, 0, 3][t as usize]));
    Content {
        a: arbitrary(15),
        b: arbitrary(15),
        v: arbitrary(3 * size),
        w: arbitrary(8 * (size / 2)),
        mv: match size {
            0 => vec![],
            1 => vec![vec![rec(7), rec(0)]],
            _ => vec![vec![], vec![rec(1), rec(7)], vec![]],
        },
        mw: match size {
            0 => vec![vec![]],
            1 => vec![],
            _ => vec![vec![rec(0)], vec![rec(1)]],
        },
        r: arbitrary(size),
        s: arbitrary(2 - size),
        sub: arbitrary(size),
        osub: arbitrary(1),
        vec: arbitrary(3),
    }
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut f = (b.len() as u64).to_le_bytes().to_vec();
    f.extend_from_slice(b);
    f.extend_from_slice(&[0; 8]);
    f
}
fn items(m: &[Vec<(u8, Vec<u8>)>]) -> (Vec<u8>, Vec<u8>) {
    let (mut i, mut d) = (vec![0, 0], vec![]);
    for item in m {
        for (t, b) in item {
            d.push(*t);
            d.extend_from_slice(b);
        }
        i.extend_from_slice(&(d.len() as u16).to_le_bytes());
    }
    (i, d)
}
/// What is to be found in the storage of the whole archive.
fn files(c: &Content) -> Files {
    let ((mi, md), (wi, wd)) = (items(&c.mv), items(&c.mw));
    let data: [&[u8]; 17] = [
        &[], &c.a, &c.v, &mi, &md, &c.r, &[], &c.sub, &c.b, &c.w, &wi, &wd, &c.s, &[], &c.osub, &c.vec, &c.vec,
    ];
    let mut f = Files::new();
    for ((n, s, _), d) in ALL.iter().zip(data.iter()) {
        f.insert(n.to_string(), frame(d));
        f.insert(format!("{}.schema", n), s.as_bytes().to_vec());
    }
    f
}
fn payload<'a>(f: &'a Files, n: &str) -> &'a [u8] {
    &f[n][8..f[n].len() - 8]
}
/// Puts files into a storage.
fn install(kind: usize, f: &Files) -> Storage {
    let s = storage(kind);
    let d = tmpdir().join("data");
    if kind == 1 {
        std::fs::create_dir(&d).unwrap();
        for x in ["sub", "osub"] {
            if f.keys().any(|n| n.starts_with(x)) {
                std::fs::create_dir(d.join(x)).unwrap();
            }
        }
    }
    for (n, b) in f {
        if kind == 1 {
            std::fs::write(d.join(n), b).unwrap();
        } else {
            s.create_output_stream(n).unwrap().borrow_mut().write_all(b).unwrap();
        }
    }
    s
}
/// Whether a resource is well-formed, has its schema and is large enough.
fn valid(f: &Files, n: &str) -> bool {
    let (_, want, least) = ALL.iter().find(|a| a.0 == n).unwrap();
    match (f.get(n), f.get(&format!("{}.schema", n))) {
        (Some(d), Some(s)) => {
            d.len() >= 16
                && d[..8] == ((d.len() - 16) as u64).to_le_bytes()
                && *s == want.as_bytes()
                && d.len() - 16 >= *least
        }
        _ => false,
    }
}
fn record_is<T: Rec>(r: &<T as Struct<'_>>::Item, b: &[u8]) {
    let want = T::create(b);
    for k in 0..T::FIELDS.len() {
        check(T::get(r, k) == T::get(&want, k), "field of a record");
    }
}
fn sub_is(s: &Sub, f: &Files, at: &str) {
    let n = |x: &str| format!("{}/{}", at, x);
    check(*s.raw() == *payload(f, &n("raw")), "raw data of a subarchive");
    let v = s.vec();
    check(v.is_some() == valid(f, &n("vec")), "presence in a subarchive");
    if let Some(v) = v {
        check(*v.as_bytes() == *payload(f, &n("vec")), "vector of a subarchive");
    }
}
/// An open archive against what is stored.
fn archive_is(a: &Arch, f: &Files) {
    record_is::<Head>(&a.a(), payload(f, "a"));
    check(*a.v().as_bytes() == *payload(f, "v"), "vector");
    check(a.v().len() == payload(f, "v").len() / 3, "length of a vector");
    check(a.mv().len() == (payload(f, "mv_index").len() / 2).saturating_sub(1), "number of items");
    check(*a.r() == *payload(f, "r"), "raw data");
    sub_is(a.sub(), f, "sub");
    check(a.b().is_some() == valid(f, "b"), "presence of a record");
    if let Some(b) = a.b() {
        record_is::<Head>(&b, payload(f, "b"));
    }
    check(a.w().is_some() == valid(f, "w"), "presence of a vector");
    if let Some(w) = a.w() {
        check(*w.as_bytes() == *payload(f, "w"), "optional vector");
    }
    check(a.mw().is_some() == (valid(f, "mw") && valid(f, "mw_index")), "presence of a multivector");
    if let Some(m) = a.mw() {
        check(m.len() == (payload(f, "mw_index").len() / 2).saturating_sub(1), "number of items");
    }
    check(a.s().is_some() == valid(f, "s"), "presence of raw data");
    if let Some(s) = a.s() {
        check(*s == *payload(f, "s"), "optional raw data");
    }
    let sub = valid(f, "osub/Sub.archive") && valid(f, "osub/raw");
    check(a.osub().is_some() == sub, "presence of a subarchive");
    if let Some(s) = a.osub() {
        sub_is(s, f, "osub");
    }
}
/// Items of the multivectors.
fn items_are(a: &Arch, c: &Content) {
    multi_is(&a.mv(), &c.mv);
    if let Some(m) = a.mw() {
        multi_is(&m, &c.mw);
    }
}
fn multi_is(m: &MultiArrayView<Idx16, Var>, want: &[Vec<(u8, Vec<u8>)>]) {
    check(m.len() == want.len(), "number of items");
    for (i, w) in want.iter().enumerate() {
        check(item_is(m.at(i), w), "item");
    }
}
fn judge(s: Storage, f: &Files, covers: bool) {
    let want = ALL[..REQUIRED].iter().all(|a| valid(f, a.0));
    match Arch::open(s.clone()) {
        Ok(a) => {
            check(want, "opens only if all required parts are valid");
            archive_is(&a, f);
            if covers {
                cover(0);
            }
        }
        Err(_) => {
            check(!want, "opens if all required parts are valid");
            if covers {
                cover(1);
            }
        }
    }
    // opening and reading change nothing
    if param(0) == 1 {
        stored(1, &s, f);
    }
}
/// Something about the resource `n` is changed.
fn damage(f: &mut Files, n: usize, how: usize, c: &Content) {
    let (n, schema, least) = ALL[n];
    let sn = format!("{}.schema", n);
    let len = f[n].len();
    match how {
        0 => {
            f.remove(n);
        }
        1 => {
            f.remove(&sn);
        }
        2 => {
            let h = arbitrary(8);
            f.get_mut(n).unwrap()[..8].copy_from_slice(&h);
        }
        3 => {
            let cut = choose(len as u64 + 1);
            f.get_mut(n).unwrap().truncate(cut)
        }
        4 => {
            let more = arbitrary(1 + 7 * choose(2));
            f.get_mut(n).unwrap().extend_from_slice(&more)
        }
        5 => {
            // any byte of the schema is anything
            let at = choose(schema.len() as u64);
            let was = f[&sn][at];
            f.get_mut(&sn).unwrap()[at] = match choose(4) {
                0 => was,
                1 => was ^ 0x20,
                2 => 0xff,
                // anything else in front
                _ if at == 0 => sym(8) as u8,
                _ => b'\n',
            };
        }
        6 => {
            let s = f.get_mut(&sn).unwrap();
            match choose(4) {
                0 => s.push(b' '),
                1 => s.clear(),
                2 => {
                    s.pop();
                }
                _ => s.push(0x80),
            }
        }
        // well-formed, with another size
        7 => {
            let k = choose(if least > 0 { 18 } else { 4 });
            f.insert(n.into(), frame(&arbitrary(k)));
        }
        // content of another resource
        8 => {
            f.insert(n.into(), frame(&c.a[..3]));
        }
        10 => f.get_mut(n).unwrap()[0] ^= 1,
        _ => {
            // the padding does not matter
            let p = arbitrary(8);
            f.get_mut(n).unwrap()[len - 8..].copy_from_slice(&p);
        }
    }
}
/// One resource is damaged in any way: those number 2 * param(1) and after.
#[no_mangle]
pub fn c17_damage() {
    begin(2);
    let c = content(1);
    let mut f = files(&c);
    let first = 3 * param(1);
    let n = first as usize + choose(3.min(17 - first));
    let how = choose(10);
    damage(&mut f, n, how, &c);
    judge(install(param(0) as usize, &f), &f, n < REQUIRED || how == 3);
    // optional parts only ever open
    if first as usize >= REQUIRED {
        cover(0);
        cover(1);
    }
}
/// Two resources are damaged.
#[no_mangle]
pub fn c17_pairs() {
    begin(2);
    let c = content(param(1) as usize);
    let mut f = files(&c);
    let n = choose(17);
    let m = choose(n as u64 + 1);
    damage(&mut f, n, [0, 1, 10][choose(3)], &c);
    if m < n {
        damage(&mut f, m, [1, 0, 10][choose(3)], &c);
    }
    judge(install(param(0) as usize, &f), &f, true);
}
/// Every subset of the optional resources; at most one required one missing.
#[no_mangle]
pub fn c17_subsets() {
    begin(2);
    let c = content(2);
    let mut f = files(&c);
    let mask = choose(1 << (17 - REQUIRED));
    for (i, (n, _, _)) in ALL[REQUIRED..].iter().enumerate() {
        if mask >> i & 1 == 1 {
            f.remove(*n);
            f.remove(&format!("{}.schema", n));
        }
    }
    let m = choose(REQUIRED as u64 + 1);
    if m < REQUIRED {
        f.remove(ALL[m].0);
    }
    let s = install(param(0) as usize, &f);
    judge(s, &f, true);
}
/// Signatures: other archives, repeated creation.
#[no_mangle]
pub fn c17_create() {
    begin(4);
    let kind = param(0) as usize;
    let s = storage(kind);
    check(Arch::open(s.clone()).is_err(), "nothing to open");
    check(Empty::open(s.clone()).is_err(), "nothing to open");
    let e = choose(2) == 0;
    if e {
        check(EmptyBuilder::new(s.clone()).is_ok(), "creating an empty archive");
        check(Empty::open(later(kind, s.clone())).is_ok(), "opening an empty archive");
        cover(0);
    }
    // something of that name
    let have = choose(3);
    let raw = arbitrary(3);
    if have == 1 {
        s.create_output_stream("Arch.archive").unwrap().borrow_mut().write_all(&raw).unwrap();
    }
    if have == 2 {
        let b = ArchBuilder::new(s.clone()).unwrap();
        b.set_r(&raw).unwrap();
    }
    match ArchBuilder::new(s.clone()) {
        Ok(b) => {
            check(have == 0, "an existing archive is not created again");
            b.set_r(&raw).unwrap();
            check(*s.read("r", "schema of r").unwrap() == raw[..], "raw data");
            cover(1);
        }
        Err(ResourceStorageError::Io(x, n)) => {
            check(have != 0, "an archive can be created");
            check(x.kind() == io::ErrorKind::AlreadyExists, "kind of the error");
            check(n == "Arch.archive", "name in the error");
            cover(2);
        }
        Err(_) => check(false, "kind of the error"),
    }
    if have == 1 {
        check(*s.read_resource("Arch.archive").unwrap() == raw[..], "nothing is changed");
        check(!s.exists("Arch.archive.schema"), "nothing is created");
    }
    if have == 2 {
        check(s.read("Arch.archive", "schema of Arch").unwrap().is_empty(), "nothing is changed");
        check(*s.read("r", "schema of r").unwrap() == raw[..], "nothing is changed");
    }
    check(s.exists("Empty.archive") == e, "archives are independent");
    match EmptyBuilder::new(s.clone()) {
        Ok(_) => check(!e, "an existing archive is not created again"),
        Err(ResourceStorageError::Io(x, _)) => {
            check(e && x.kind() == io::ErrorKind::AlreadyExists, "kind of the error")
        }
        Err(_) => check(false, "kind of the error"),
    }
    check(Empty::open(s.clone()).is_ok(), "opening an empty archive");
    if have < 2 {
        check(Arch::open(s).is_err(), "an incomplete archive");
        cover(3);
    }
}

// ---- C18 --------------------------------------------------------------------
fn add(b: &mut BuildVar, t: u8, d: &[u8]) {
    match t {
        0 => B1::fill(&mut b.add_b1(), &B1::create(d)),
        1 => B2::fill(&mut b.add_b2(), &B2::create(d)),
        _ => B3::fill(&mut b.add_b3(), &B3::create(d)),
    }
}
fn sub_parts(b: &SubBuilder, raw: &[u8], vec: Option<&[u8]>) -> bool {
    b.set_raw(raw).is_ok() && vec.map_or(true, |v| b.set_vec(&ArrayView::new(v)).is_ok())
}
/// Set while the process is dead and only thinks it continues.
pub static GHOST: AtomicBool = AtomicBool::new(false);
/// Writes part `k`; streamed or at once.
pub fn part(b: &ArchBuilder, k: usize, c: &Content, stream: bool) -> bool {
    macro_rules! stream {
        ($start:ident, $t:ident, $d:expr) => {{
            let Ok(mut x) = b.$start() else { return false };
            for d in $d.chunks($t::SIZE_IN_BYTES) {
                let Ok(mut m) = x.grow() else { return false };
                $t::fill(&mut m, &$t::create(d));
            }
            match x.close() {
                Ok(v) => {
                    if !GHOST.load(Ordering::Relaxed) {
                        check(*v.as_bytes() == $d[..], "returned array");
                    }
                    true
                }
                Err(_) => false,
            }
        }};
    }
    macro_rules! multi {
        ($start:ident, $m:expr) => {{
            let Ok(mut x) = b.$start() else { return false };
            for item in &$m {
                let Ok(mut i) = x.grow() else { return false };
                for (t, d) in item {
                    add(&mut i, *t, d);
                }
            }
            match x.close() {
                Ok(v) => {
                    if !GHOST.load(Ordering::Relaxed) {
                        multi_is(&v, &$m);
                    }
                    true
                }
                Err(_) => false,
            }
        }};
    }
    match k {
        0 => b.set_a(Head::create(&c.a)).is_ok(),
        1 => b.set_b(Head::create(&c.b)).is_ok(),
        2 if stream => stream!(start_v, B3, c.v),
        2 => b.set_v(&ArrayView::new(&c.v)).is_ok(),
        3 if stream => stream!(start_w, B8, c.w),
        3 => b.set_w(&ArrayView::new(&c.w)).is_ok(),
        4 => multi!(start_mv, c.mv),
        5 => multi!(start_mw, c.mw),
        6 => b.set_r(&c.r).is_ok(),
        7 => b.set_s(&c.s).is_ok(),
        8 => match b.sub() {
            Ok(s) => sub_parts(&s, &c.sub, Some(&c.vec)),
            _ => false,
        },
        _ => match b.osub() {
            Ok(s) => sub_parts(&s, &c.osub, Some(&c.vec)),
            _ => false,
        },
    }
}
/// Resources of the optional parts.
const PARTS: [(usize, &[&str]); 5] =
    [(1, &["b"]), (3, &["w"]), (5, &["mw", "mw_index"]), (7, &["s"]), (9, &["osub/Sub.archive", "osub/raw", "osub/vec"])];
/// Files of an archive without some optional parts.
fn files_without(c: &Content, absent: &dyn Fn(usize) -> bool) -> Files {
    let mut f = files(c);
    for (k, names) in PARTS {
        if absent(k) {
            for n in names {
                f.remove(*n);
                f.remove(&format!("{}.schema", n));
            }
        }
    }
    f
}
/// Exactly these are stored.
fn stored(kind: usize, s: &Storage, f: &Files) {
    for (n, b) in f {
        if kind == 1 {
            match std::fs::read(tmpdir().join("data").join(n)) {
                Ok(x) => check(x == *b, "stored bytes"),
                Err(_) => check(false, "a stored resource"),
            }
        } else {
            match s.read_resource(n) {
                Ok(x) => check(*x == b[..], "stored bytes"),
                Err(_) => check(false, "a stored resource"),
            }
        }
    }
    for (n, _, _) in ALL {
        check(s.exists(n) == f.contains_key(n), "existence");
        let n = format!("{}.schema", n);
        check(s.exists(&n) == f.contains_key(&n), "existence of a schema");
    }
    if kind == 1 {
        check(fs_count().1 == f.len() as u64, "no other file");
    }
}
/// What builders store, in every detail.
#[no_mangle]
pub fn c12_archive() {
    begin(1);
    let kind = param(0) as usize;
    let c = content(choose(3));
    let s = storage(kind);
    let b = ArchBuilder::new(s.clone()).unwrap();
    let stream = choose(2) == 0;
    let absent = choose(12);
    for k in 0..10 {
        if k != absent {
            check(part(&b, k, &c, stream), "writing succeeds");
        }
    }
    let mut f = files_without(&c, &|k| k == absent);
    for (k, names) in [(0, &["a"][..]), (2, &["v"]), (4, &["mv", "mv_index"]), (6, &["r"]), (8, &["sub/Sub.archive", "sub/raw", "sub/vec"])] {
        if k == absent {
            for n in names {
                f.remove(*n);
                f.remove(&format!("{}.schema", n));
            }
        }
    }
    stored(kind, &s, &f);
    cover(0);
}
/// Parts in any rotation, forwards or backwards; opened in several ways.
#[no_mangle]
pub fn c18_orders() {
    begin(3);
    let kind = param(0) as usize;
    let c = content(choose(3));
    let first = choose(10);
    let back = choose(2) == 1;
    let absent = choose(3);
    let stream = choose(2) == 0;
    let f = files_without(&c, &|k| match absent {
        0 => false,
        1 => true,
        _ => k == 3 || k == 9,
    });
    let s = storage(kind);
    {
        let b = ArchBuilder::new(s.clone()).unwrap();
        let c2 = b.clone();
        for k in 0..10 {
            let k = (first + if back { 10 - k } else { k }) % 10;
            let skip = PARTS.iter().any(|p| p.0 == k) && (absent == 1 || absent == 2 && (k == 3 || k == 9));
            if !skip {
                check(part(if k % 2 == 0 { &b } else { &c2 }, k, &c, stream), "writing succeeds");
            }
        }
    }
    let how = choose(3);
    let s = if how == 0 { s } else { later(kind, s) };
    match Arch::open(s) {
        Ok(a) => {
            archive_is(&a, &f);
            items_are(&a, &c);
            let b = a.clone();
            if how == 2 {
                drop(a);
            }
            archive_is(&b, &f);
            items_are(&b, &c);
        }
        Err(_) => check(false, "the archive opens"),
    }
    cover(how as u32);
}
/// An archive with plenty in every part.
#[no_mangle]
pub fn c18_large() {
    begin(1);
    large(param(0) as usize, param(1) as usize)
}
/// The same with every number of elements.
#[no_mangle]
pub fn c18_count() {
    begin(1);
    large(param(0) as usize, choose(131))
}
fn large(kind: usize, n: usize) {
    let bytes = |k: usize, x: u32| {
        let mut b: Vec<u8> = (0..k).map(|i| ((i as u32 ^ x).wrapping_mul(2_654_435_761) >> 24) as u8).collect();
        for i in [0, 1, 255, 256, k / 2, k.wrapping_sub(1)] {
            if i < k {
                b[i] = sym(8) as u8;
            }
        }
        b
    };
    let mut c = content(0);
    c.v = bytes(3 * n, 1);
    c.w = bytes(8 * n, 2);
    c.r = bytes(13 * n, 3);
    c.s = bytes(n, 4);
    c.sub = bytes(5 * n, 5);
    c.osub = bytes(n + 1, 6);
    c.vec = bytes(3 * n, 7);
    c.mv = (0..n).map(|i| (0..i % 4).map(|k| ([1, 7, 0, 1][k], bytes([2, 3, 1, 2][k], i as u32))).collect()).collect();
    c.mw = vec![(0..n).map(|i| (7, vec![i as u8, 1, (i >> 8) as u8])).collect()];
    let stream = choose(2) == 0;
    let f = files(&c);
    let s = storage(kind);
    {
        let b = ArchBuilder::new(s.clone()).unwrap();
        for k in 0..10 {
            check(part(&b, k, &c, stream), "writing succeeds");
        }
    }
    match Arch::open(later(kind, s)) {
        Ok(a) => {
            archive_is(&a, &f);
            items_are(&a, &c);
        }
        Err(_) => check(false, "the archive opens"),
    }
    cover(0);
}
/// All streamed parts are open at the same time.
#[no_mangle]
pub fn c18_together() {
    begin(1);
    let kind = param(0) as usize;
    let c = content(2);
    let s = storage(kind);
    let b = ArchBuilder::new(s.clone()).unwrap();
    {
        let mut v = b.start_v().unwrap();
        let mut w = b.start_w().unwrap();
        let mut mv = b.start_mv().unwrap();
        let mut mw = b.start_mw().unwrap();
        let sub = b.sub().unwrap();
        let mut sv = sub.start_vec().unwrap();
        let (mut iv, mut iw, mut im, mut in_) = (0, 0, 0, 0);
        // interleaved appends
        for t in 0..7 {
            let k = if t < 3 { choose(4) } else { t % 4 };
            match k {
                0 if iv < c.v.len() / 3 => {
                    B3::fill(&mut v.grow().unwrap(), &B3::create(&c.v[3 * iv..]));
                    iv += 1;
                }
                1 if iw < c.w.len() / 8 => {
                    B8::fill(&mut w.grow().unwrap(), &B8::create(&c.w[8 * iw..]));
                    iw += 1;
                }
                2 if im < c.mv.len() => {
                    let mut i = mv.grow().unwrap();
                    for (t, d) in &c.mv[im] {
                        add(&mut i, *t, d);
                    }
                    im += 1;
                }
                3 if in_ < c.mw.len() => {
                    let mut i = mw.grow().unwrap();
                    for (t, d) in &c.mw[in_] {
                        add(&mut i, *t, d);
                    }
                    in_ += 1;
                }
                _ => (),
            }
        }
        B3::fill(&mut sv.grow().unwrap(), &B3::create(&c.vec));
        sub.set_raw(&c.sub).unwrap();
        for i in iv..c.v.len() / 3 {
            B3::fill(&mut v.grow().unwrap(), &B3::create(&c.v[3 * i..]));
        }
        for i in iw..c.w.len() / 8 {
            B8::fill(&mut w.grow().unwrap(), &B8::create(&c.w[8 * i..]));
        }
        for (m, x, from) in [(&mut mv, &c.mv, im), (&mut mw, &c.mw, in_)] {
            for item in &x[from..] {
                let mut i = m.grow().unwrap();
                for (t, d) in item {
                    add(&mut i, *t, d);
                }
            }
        }
        match choose(3) {
            0 => {
                v.close().unwrap();
                w.close().unwrap();
                mv.close().unwrap();
                mw.close().unwrap();
                sv.close().unwrap();
            }
            1 => {
                sv.close().unwrap();
                mw.close().unwrap();
                v.close().unwrap();
                mv.close().unwrap();
                w.close().unwrap();
            }
            _ => {
                let x = mv.close().unwrap();
                let y = v.close().unwrap();
                w.close().unwrap();
                sv.close().unwrap();
                mw.close().unwrap();
                multi_is(&x, &c.mv);
                check(*y.as_bytes() == c.v[..], "returned array");
            }
        }
    }
    for k in [0, 1, 6, 7, 9] {
        check(part(&b, k, &c, true), "writing succeeds");
    }
    drop(b);
    let f = files(&c);
    stored(kind, &s, &f);
    match Arch::open(later(kind, s)) {
        Ok(a) => {
            archive_is(&a, &f);
            items_are(&a, &c);
        }
        Err(_) => check(false, "the archive opens"),
    }
    cover(0);
}
/// Data outlives every other handle; everything is released in the end.
#[no_mangle]
pub fn c18_lifetime() {
    begin(4);
    let kind = param(0) as usize;
    let c = content(1);
    let f = files(&c);
    let before = resources();
    {
        let s = install(kind, &f);
        let a = Arch::open(s.clone()).unwrap();
        drop(s);
        match choose(4) {
            0 => {
                let b = a.clone();
                drop(a);
                let d = b.clone();
                drop(b);
                archive_is(&d, &f);
                items_are(&d, &c);
                cover(0);
            }
            1 => {
                // a part of the archive is left
                let x = a.sub().clone();
                let y = a.osub().clone().unwrap();
                drop(a);
                sub_is(&x, &f, "sub");
                drop(x);
                sub_is(&y, &f, "osub");
                cover(1);
            }
            2 => {
                // another archive of the same storage
                let t = later(kind, storage(kind));
                let b = if kind == 1 { Arch::open(t).ok() } else { None };
                let (v, r) = (a.v(), a.r());
                drop(b);
                check(*v.as_bytes() == c.v[..] && *r == c.r[..], "data of the archive");
                cover(2);
            }
            _ => {
                let (v, w, m) = (a.v(), a.w().unwrap(), a.mv());
                for _ in 0..3 {
                    archive_is(&a.clone(), &f);
                }
                check(*v.as_bytes() == c.v[..] && *w.as_bytes() == c.w[..], "vectors");
                multi_is(&m, &c.mv);
                cover(3);
            }
        }
    }
    let after = resources();
    check(after.0 == before.0, "memory is released");
    check(after.1 == before.1, "files are closed");
    check(after.2 == before.2, "mappings are released");
}

// ---- C13, C14 ---------------------------------------------------------------
/// Writes the whole archive.
pub fn run(s: &Storage, c: &Content, carry: bool) -> bool {
    let Ok(b) = ArchBuilder::new(s.clone()) else { return false };
    let mut ok = true;
    for k in [0, 9, 3, 2, 4, 6, 8, 1] {
        ok &= part(&b, k, c, k == 3);
        if !ok && !carry {
            return false;
        }
    }
    ok
}
/// Whether all of it opens; whatever opens is what was written.
pub fn opens(s: &Storage, c: &Content) -> bool {
    let Ok(a) = Arch::open(s.clone()) else { return false };
    let f = files(c);
    record_is::<Head>(&a.a(), &c.a);
    check(*a.v().as_bytes() == c.v[..], "vector");
    check(*a.r() == c.r[..], "raw data");
    multi_is(&a.mv(), &c.mv);
    check(*a.sub().raw() == c.sub[..], "raw data of a subarchive");
    check(a.mw().is_none() && a.s().is_none(), "what was not written");
    if let Some(b) = a.b() {
        record_is::<Head>(&b, &c.b);
    }
    if let Some(w) = a.w() {
        check(*w.as_bytes() == c.w[..], "optional vector");
    }
    for v in [Some(a.sub()), a.osub().as_ref()].iter().flatten() {
        if let Some(v) = v.vec() {
            check(*v.as_bytes() == c.vec[..], "vector of a subarchive");
        }
    }
    if let Some(o) = a.osub() {
        check(*o.raw() == *payload(&f, "osub/raw"), "raw data of a subarchive");
    }
    a.b().is_some()
        && a.w().is_some()
        && a.sub().vec().is_some()
        && a.osub().as_ref().map_or(false, |o| o.vec().is_some())
}
/// An operation fails while an archive is opened.
#[no_mangle]
pub fn c13_archive() {
    begin(2);
    let c = content(1);
    let f = files(&c);
    let s = install(1, &f);
    fs_fault(0, 0, 0);
    match Arch::open(storage(1)) {
        Ok(a) => archive_is(&a, &f),
        Err(_) => check(false, "the archive opens"),
    }
    let n = fs_ops();
    fs_fault(choose(n) as u64 + 1, [EIO, ENOSPC, EINTR][choose(3)], 0);
    let a = Arch::open(storage(1));
    fs_fault(0, 0, 0);
    if let Ok(a) = a {
        // without an optional part at most
        record_is::<Head>(&a.a(), &c.a);
        check(*a.v().as_bytes() == c.v[..] && *a.r() == c.r[..], "required parts");
        multi_is(&a.mv(), &c.mv);
        check(*a.sub().raw() == c.sub[..], "raw data of a subarchive");
        if let Some(w) = a.w() {
            check(*w.as_bytes() == c.w[..], "optional vector");
        }
        if let Some(m) = a.mw() {
            multi_is(&m, &c.mw);
        }
        if let Some(x) = a.s() {
            check(*x == c.s[..], "optional raw data");
        }
        cover(0);
    } else {
        cover(1);
    }
    match Arch::open(s) {
        Ok(a) => archive_is(&a, &f),
        Err(_) => check(false, "the archive opens after the failure"),
    }
}
/// The required parts, all concrete.
pub fn required_parts(b: &ArchBuilder) {
    let mut a: StructBuf<Head> = StructBuf::new();
    a.get_mut().set_x(3);
    b.set_a(a.get()).unwrap();
    let mut v: Vector<B3> = Vector::with_len(2);
    v.at_mut(1).set_x(7);
    b.set_v(&v.as_view()).unwrap();
    let mut m = b.start_mv().unwrap();
    m.grow().unwrap().add_b3().set_x(5);
    m.grow().unwrap();
    m.close().unwrap();
    b.set_r(&[1, 2]).unwrap();
    b.sub().unwrap().set_raw(&[4]).unwrap();
}
