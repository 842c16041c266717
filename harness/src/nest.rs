//! C17, C18 for archives of another layout: nested, several parts of a kind, no records at the top.
use crate::ext::*;
use crate::rec::*;
use crate::sx::*;
use crate::view::*;
use flatdata::*;
use std::collections::BTreeMap;

record!(One, RefOne, MutOne, 4, (0, x, set_x, u32, 3, 24));
define_archive!(Leaf, LeafBuilder, "archive Leaf {\n    one : One;\n}\n";
    (one, set_one, One, "schema of one", false);
    ; ; ;
);
define_archive!(Mid, MidBuilder, "schema of \u{e9} Mid";
    ; ; ;
    (blob, set_blob, "schema of blob", true);
    (opt, Leaf, LeafBuilder, "schema of opt", true),
    (req, Leaf, LeafBuilder, "schema of req", false)
);
define_archive!(Top, TopBuilder, "schema of Top";
    ;
    (p, set_p, start_p, B3, "schema of p", false),
    (q, set_q, start_q, B3, "schema of q", false);
    (m, start_m, Var, "schema of m", m_index, Idx16, false),
    (n, start_n, Var, "schema of n", n_index, Idx40, false);
    ;
    (leaf, Leaf, LeafBuilder, "schema of leaf", true),
    (mid, Mid, MidBuilder, "schema of mid", false)
);
/// All resources, the required ones first.
const ALL: [&str; 15] = [
    "Top.archive", "p", "q", "m", "m_index", "n", "n_index", "mid/Mid.archive", "mid/req/Leaf.archive", "mid/req/one",
    "mid/blob", "mid/opt/Leaf.archive", "mid/opt/one", "leaf/Leaf.archive", "leaf/one",
];
const REQUIRED: usize = 10;

struct Values {
    p: [u32; 2],
    q: [u32; 1],
    m: u8,
    n: u16,
    one: [u32; 3],
    blob: Vec<u8>,
}
fn values() -> Values {
    let mut x = || sym(24) as u32;
    Values {
        p: [x(), x()],
        q: [x()],
        one: [x(), x(), x()],
        m: sym(8) as u8,
        n: sym(16) as u16,
        blob: vec![sym(8) as u8, 3],
    }
}
fn leaf(b: Result<LeafBuilder, ResourceStorageError>, v: u32) {
    let mut one: StructBuf<One> = StructBuf::new();
    one.get_mut().set_x(v);
    match b {
        Ok(b) => check(b.set_one(one.get()).is_ok(), "writing a record"),
        Err(_) => check(false, "creating a subarchive"),
    }
}
/// The optional parts in `have`, parts of a kind in either order.
fn build(s: Storage, v: &Values, have: usize, back: bool) {
    let b = TopBuilder::new(s).unwrap();
    let third = |b: &TopBuilder| {
        let mid = b.mid().unwrap();
        if !back {
            leaf(mid.req(), v.one[0]);
        }
        if have & 1 != 0 {
            leaf(mid.opt(), v.one[1]);
        }
        if have & 2 != 0 {
            mid.set_blob(&v.blob).unwrap();
        }
        if back {
            leaf(mid.req(), v.one[0]);
        }
        if have & 4 != 0 {
            leaf(b.leaf(), v.one[2]);
        }
    };
    if back {
        third(&b);
    }
    let (mut p, mut q) = (b.start_p().unwrap(), b.start_q().unwrap());
    let (mut m, mut n) = (b.start_m().unwrap(), b.start_n().unwrap());
    p.grow().unwrap().set_x(v.p[0]);
    q.grow().unwrap().set_x(v.q[0]);
    p.grow().unwrap().set_x(v.p[1]);
    m.grow().unwrap().add_b1().set_x(v.m);
    n.grow().unwrap();
    n.grow().unwrap().add_b2().set_x(v.n);
    if back {
        n.close().unwrap();
        m.close().unwrap();
        q.close().unwrap();
        p.close().unwrap();
    } else {
        p.close().unwrap();
        q.close().unwrap();
        m.close().unwrap();
        n.close().unwrap();
        third(&b);
    }
}
fn is(t: &Top, v: &Values, have: usize) {
    check(t.p().len() == 2 && t.p().at(0).x() == v.p[0] && t.p().at(1).x() == v.p[1], "first vector");
    check(t.q().len() == 1 && t.q().at(0).x() == v.q[0], "second vector");
    check(t.m().len() == 1 && item_is(t.m().at(0), &[(0, vec![v.m])]), "first multivector");
    check(t.n().len() == 2 && item_is(t.n().at(0), &[]), "second multivector");
    check(item_is(t.n().at(1), &[(1, v.n.to_le_bytes().to_vec())]), "second multivector");
    check(t.mid().req().one().x() == v.one[0], "nested subarchive");
    check(t.mid().opt().is_some() == (have & 1 != 0), "presence of a nested subarchive");
    check(t.mid().opt().as_ref().map_or(true, |l| l.one().x() == v.one[1]), "optional nested subarchive");
    check(t.mid().blob().is_some() == (have & 2 != 0), "presence of raw data in a subarchive");
    check(t.mid().blob().map_or(true, |b| *b == v.blob[..]), "raw data in a subarchive");
    check(t.leaf().is_some() == (have & 4 != 0), "presence of a subarchive");
    check(t.leaf().as_ref().map_or(true, |l| l.one().x() == v.one[2]), "subarchive");
}
#[no_mangle]
pub fn c18_nested() {
    begin(1);
    let kind = param(0) as usize;
    let root = storage(kind);
    let inner = choose(2) == 1;
    let at = |s: Storage| if inner { s.subdir("in") } else { s };
    let v = values();
    let (have, back) = (choose(8), choose(2) == 1);
    build(at(root.clone()), &v, have, back);
    let s = at(later(kind, root));
    match Top::open(s.clone()) {
        Ok(t) => is(&t, &v, have),
        Err(_) => check(false, "the archive opens"),
    }
    // parts on their own
    match (Mid::open(s.subdir("mid")), Leaf::open(s.subdir("mid/req"))) {
        (Ok(m), Ok(l)) => {
            check(m.req().one().x() == v.one[0] && l.one().x() == v.one[0], "subarchives opened directly");
        }
        _ => check(false, "a subarchive opens"),
    }
    cover(0);
}
/// One resource of the archive is missing or damaged.
#[no_mangle]
pub fn c17_nested() {
    begin(2);
    let kind = param(0) as usize;
    let v = values();
    let mut files = BTreeMap::new();
    {
        let s = storage(0);
        build(s.clone(), &v, 7, false);
        for n in ALL {
            for n in [n.to_string(), format!("{}.schema", n)] {
                files.insert(n.clone(), s.read_resource(&n).unwrap().to_vec());
            }
        }
    }
    let k = choose(ALL.len() as u64);
    let schema = format!("{}.schema", ALL[k]);
    match choose(7) {
        0 => {
            files.remove(ALL[k]);
        }
        1 => {
            files.remove(&schema);
        }
        2 => files.get_mut(ALL[k]).unwrap().truncate(15),
        3 => files.get_mut(&schema).unwrap().push(b'x'),
        4 => {
            files.get_mut(&schema).unwrap().pop();
        }
        5 => {
            let h = 1 + below(255) as u8;
            let f = files.get_mut(ALL[k]).unwrap();
            f[choose(8)] ^= h;
        }
        // all of a subarchive
        _ => {
            let dir = match ALL[k].rfind('/') {
                Some(i) => &ALL[k][..=i],
                None => "",
            };
            files.retain(|n, _| !n.starts_with(dir));
        }
    }
    let s = storage(kind);
    for (n, b) in &files {
        s.create_output_stream(n).unwrap().borrow_mut().write_all(b).unwrap();
    }
    let have = match k {
        10 => 5,
        11 | 12 => 6,
        _ => 3,
    };
    // without blob all of mid was removed
    let gone = k == 10 && !files.contains_key("mid/req/one");
    match Top::open(later(kind, s)) {
        Ok(t) => {
            check(k >= REQUIRED && !gone, "opens only if all required parts are valid");
            is(&t, &v, have);
            cover(0);
        }
        Err(_) => {
            check(k < REQUIRED || gone, "an invalid optional part does not matter");
            cover(1);
        }
    }
}
/// A part that exists is not created again.
#[no_mangle]
pub fn c17_again() {
    begin(1);
    let kind = param(0) as usize;
    let s = storage(kind);
    let b = TopBuilder::new(s.clone()).unwrap();
    let v = sym(24) as u32;
    leaf(b.leaf(), v);
    let mid = b.mid().unwrap();
    if choose(2) == 0 {
        leaf(mid.opt(), v);
    }
    let again = |r: Result<LeafBuilder, ResourceStorageError>| match r {
        Err(ResourceStorageError::Io(e, n)) => {
            check(e.kind() == std::io::ErrorKind::AlreadyExists, "kind of the error");
            check(n == "Leaf.archive", "name in the error");
        }
        _ => check(false, "a subarchive is not created again"),
    };
    again(b.leaf());
    again(b.clone().leaf());
    let s = later(kind, s);
    again(LeafBuilder::new(s.subdir("leaf")));
    match b.mid() {
        Err(ResourceStorageError::Io(e, n)) => {
            check(e.kind() == std::io::ErrorKind::AlreadyExists && n == "Mid.archive", "the error")
        }
        _ => check(false, "a subarchive is not created again"),
    }
    leaf(mid.req(), v);
    check(Leaf::open(s.subdir("leaf")).unwrap().one().x() == v, "nothing is changed");
    check(Mid::open(s.subdir("mid")).unwrap().req().one().x() == v, "nothing is changed");
    cover(0);
}
