//! Environment: LLVM intrinsics, allocator, C library, a small file system,
//! the unwinder, and the harness interface (`sx_*`).
use crate::exec::*;
use crate::expr::*;
use crate::parse::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Node {
    Dir,
    File(u64),
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub obj: u64,
    pub pos: u64,
    pub write: bool,
    pub read: bool,
    pub append: bool,
    pub dir: bool,
}
/// In-memory file system; file contents are engine objects.
#[derive(Clone, Debug)]
pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub fds: BTreeMap<u64, Fd>,
    pub next_fd: u64,
    /// fail the n-th counted operation from now (0: never)
    pub fault: u64,
    pub fault_kind: u64,
    pub fault_arg: u64,
    pub zeros: u64,
    /// looking a path up counts, too
    pub stats: bool,
    /// the process is "dead": nothing reaches the file system any more
    pub crashed: bool,
    pub maps: i64,
    pub ops: u64,
}
/// What becomes of a counted operation.
pub enum Gate {
    Go(u64), // carry it out, on at most this many bytes
    Skip,    // pretend
    Fail(u64),
}
impl Fs {
    pub fn new() -> Fs {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".to_string(), Node::Dir);
        nodes.insert("/w".to_string(), Node::Dir);
        Fs { nodes, fds: BTreeMap::new(), next_fd: 3, fault: 0, fault_kind: 0, fault_arg: 0, zeros: 0, stats: false, crashed: false, maps: 0, ops: 0 }
    }
    fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".to_string(),
            Some(i) => p[..i].to_string(),
        }
    }
}
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

const ENOENT: u64 = 2;
const EIO: u64 = 5;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOSYS: u64 = 38;
const NEG: u64 = !0;

fn next(v: V) -> R<Flow> {
    Ok(Flow::Next(v))
}
fn c(v: u64) -> R<Flow> {
    Ok(Flow::Next(V::C(v)))
}
fn c32(v: u64) -> R<Flow> {
    Ok(Flow::Next(V::C(v & 0xffff_ffff)))
}
impl Engine {
    fn arg(&mut self, st: &mut State, a: &[V], i: usize) -> R<u64> {
        self.concrete(st, &a[i].clone(), 64)
    }
    fn arg32(&mut self, st: &mut State, a: &[V], i: usize) -> R<u64> {
        self.concrete(st, &a[i].clone(), 32)
    }
    fn name_of(&self, c: &CallI) -> &'static str {
        match &c.callee {
            Callee::Sym(s) => self.prog.syms[*s as usize].name,
            _ => "",
        }
    }
    fn int_suffix(&self, c: &CallI) -> u32 {
        let n = self.name_of(c);
        for p in n.rsplit('.') {
            if let Some(d) = p.strip_prefix('i') {
                if let Ok(w) = d.parse() {
                    return w;
                }
            }
            if let Some(d) = p.strip_prefix('v') {
                if let Some((_, w)) = d.split_once('i') {
                    if let Ok(w) = w.parse() {
                        return w;
                    }
                }
            }
        }
        die(&format!("width of {}", n))
    }
    fn errno(&mut self, st: &mut State, e: u64) -> R<()> {
        if st.errno == 0 {
            st.errno = self.alloc(st, 4, 4, Kind::Global, 0);
        }
        let a = st.errno;
        self.store_int(st, a, 4, &V::C(e))
    }
    fn fail(&mut self, st: &mut State, e: u64) -> R<Flow> {
        self.errno(st, e)?;
        c(NEG)
    }
    fn fail32(&mut self, st: &mut State, e: u64) -> R<Flow> {
        self.errno(st, e)?;
        c32(NEG)
    }
    /// Counts an operation on the file system and decides its fate. Kinds:
    /// 0 EIO, 1 short write of `arg` bytes, 2 crash after `arg` bytes,
    /// 3 EINTR, 4 ENOSPC from now on, 5 writes of at most `arg` bytes from
    /// now on; + 16: looking a path up counts, too.
    fn gate(&mut self, st: &mut State, write: bool, n: u64) -> R<Gate> {
        if st.fs.crashed {
            return Ok(Gate::Skip);
        }
        st.fs.ops += 1;
        if st.fs.fault == 0 {
            return Ok(Gate::Go(n));
        }
        st.fs.fault -= 1;
        if st.fs.fault != 0 {
            return Ok(Gate::Go(n));
        }
        Ok(match st.fs.fault_kind {
            1 if write => Gate::Go(n.min(st.fs.fault_arg)),
            1 => Gate::Go(n),
            2 => {
                st.fs.crashed = true;
                if write && st.fs.fault_arg > 0 && n > 0 {
                    Gate::Go(n.min(st.fs.fault_arg))
                } else {
                    Gate::Skip
                }
            }
            3 => Gate::Fail(4),
            4 => {
                st.fs.fault = 1;
                Gate::Fail(28)
            }
            5 => {
                st.fs.fault = 1;
                if write && n > 0 && st.fs.fault_arg == 0 {
                    st.fs.zeros += 1;
                    if st.fs.zeros > 20_000 {
                        return Err(Sig::Violation("hang".into(), "writes go on that take nothing".into()));
                    }
                }
                Gate::Go(if write { n.min(st.fs.fault_arg) } else { n })
            }
            _ => Gate::Fail(EIO),
        })
    }
    fn heap_alloc(&mut self, st: &mut State, n: u64, align: u64, fill: u8) -> R<u64> {
        // zeroed memory takes none here until it is used
        let most = if fill == 0 { (1 << SLOT) - 0x20000 } else { 1 << 30 };
        if n > most {
            return inconclusive(format!("too much allocated at once ({} bytes)", n));
        }
        st.live_heap += 1;
        Ok(self.alloc(st, n, align, Kind::Heap, fill))
    }
    fn heap_free(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = p >> SLOT;
        match st.mem.get(&id) {
            Some(o) if o.kind == Kind::Heap && o.base == p => {
                st.mem.remove(&id);
                st.live_heap -= 1;
                Ok(())
            }
            _ => Err(Sig::Violation("memory".into(), format!("invalid or double free of {:#x}", p))),
        }
    }
    fn heap_realloc(&mut self, st: &mut State, p: u64, n: u64, align: u64) -> R<u64> {
        let id = p >> SLOT;
        let old = match st.mem.get(&id) {
            Some(o) if o.kind == Kind::Heap && o.base == p => o.data.len() as u64,
            _ => {
                return Err(Sig::Violation("memory".into(), format!("invalid realloc of {:#x}", p)))
            }
        };
        let q = self.heap_alloc(st, n, align, 0xA5)?;
        self.copy(st, q, p, old.min(n))?;
        self.heap_free(st, p)?;
        Ok(q)
    }
    fn rust_str(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let b = self.bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn new_input(&mut self, st: &mut State, w: u32) -> Ex {
        let k = st.inputs.len() as u32;
        let e = self.pool.var_id(k * 256 + w, w);
        st.inputs.push((e, w));
        e
    }
    fn file_size(&self, st: &State, obj: u64) -> u64 {
        st.mem[&obj].data.len() as u64
    }
    fn put_stat(&mut self, st: &mut State, buf: u64, node: &Node) -> R<()> {
        self.fill(st, buf, &V::C(0), 144)?;
        let (mode, size, ino) = match node {
            Node::Dir => (0o040755, 4096, 1),
            Node::File(o) => (0o100644, self.file_size(st, *o), *o),
        };
        self.store_int(st, buf + 8, 8, &V::C(ino))?;
        self.store_int(st, buf + 16, 8, &V::C(1))?;
        self.store_int(st, buf + 24, 4, &V::C(mode))?;
        self.store_int(st, buf + 48, 8, &V::C(size))?;
        self.store_int(st, buf + 56, 8, &V::C(4096))
    }
    fn file_write(&mut self, st: &mut State, obj: u64, pos: u64, buf: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.range(st, buf, n, false)?;
        let end = (pos + n) as usize;
        if end as u64 > 1 << 30 {
            return inconclusive("file size".into());
        }
        let o = self.obj_mut(st, obj);
        if o.data.len() < end {
            o.data.resize(end, 0);
        }
        let base = o.base;
        self.copy(st, base + pos, buf, n)
    }
    fn open(&mut self, st: &mut State, path: String, flags: u64) -> R<Flow> {
        let p = norm(&path);
        match self.gate(st, false, 0)? {
            Gate::Fail(x) => return self.fail32(st, x),
            Gate::Skip if flags & 0x240 != 0 => {
                // a file nobody will ever see
                let a = self.alloc(st, 0, 4096, Kind::File, 0);
                let fd = st.fs.next_fd;
                st.fs.next_fd += 1;
                st.fs.fds.insert(
                    fd,
                    Fd { obj: a >> SLOT, pos: 0, write: true, read: true, append: false, dir: false },
                );
                return c32(fd);
            }
            _ => {}
        }
        let acc = flags & 3;
        let (creat, excl, trunc) = (flags & 0x40 != 0, flags & 0x80 != 0, flags & 0x200 != 0);
        let node = st.fs.nodes.get(&p).cloned();
        let obj = match node {
            Some(Node::Dir) => {
                if acc != 0 || creat {
                    return self.fail32(st, EISDIR);
                }
                let fd = st.fs.next_fd;
                st.fs.next_fd += 1;
                st.fs.fds.insert(
                    fd,
                    Fd { obj: 0, pos: 0, write: false, read: true, append: false, dir: true },
                );
                return c32(fd);
            }
            Some(Node::File(o)) => {
                if creat && excl {
                    return self.fail32(st, EEXIST);
                }
                if trunc && acc != 0 {
                    let f = self.obj_mut(st, o);
                    f.data.clear();
                    f.sym.clear();
                }
                o
            }
            None => {
                if !creat {
                    return self.fail32(st, ENOENT);
                }
                match st.fs.nodes.get(&Fs::parent(&p)) {
                    Some(Node::Dir) => {}
                    Some(_) => return self.fail32(st, ENOTDIR),
                    None => return self.fail32(st, ENOENT),
                }
                let a = self.alloc(st, 0, 4096, Kind::File, 0);
                st.fs.nodes.insert(p, Node::File(a >> SLOT));
                a >> SLOT
            }
        };
        let fd = st.fs.next_fd;
        st.fs.next_fd += 1;
        st.fs.fds.insert(
            fd,
            Fd {
                obj,
                pos: 0,
                write: acc != 0,
                read: acc != 1,
                append: flags & 0x400 != 0,
                dir: false,
            },
        );
        c32(fd)
    }
    fn pop_count(&mut self, x: Ex, w: u32) -> Ex {
        let mut s = self.pool.konst(0, w);
        for i in 0..w {
            let b = self.pool.extract(x, i, 1);
            let z = self.pool.zext(b, w);
            s = self.pool.bin(Op::Add, s, z);
        }
        s
    }
    fn overflow(&mut self, op: Op, signed: bool, w: u32, a: &V, b: &V) -> (V, V) {
        let r = self.bin(op, w, a, b);
        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
        if ww > 128 {
            die("overflow check above 64 bits");
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let (x, y) = if signed {
            (self.pool.sext(x, ww), self.pool.sext(y, ww))
        } else {
            (self.pool.zext(x, ww), self.pool.zext(y, ww))
        };
        let f = self.pool.bin(op, x, y);
        let lo = self.pool.extract(f, 0, w);
        let back =
            if signed { self.pool.sext(lo, ww) } else { self.pool.zext(lo, ww) };
        let eq = self.pool.bin(Op::Eq, f, back);
        let o = self.pool.not(eq);
        (r, self.val(o))
    }

    pub fn find_native(&self, n: &str) -> Option<Native> {
        if let Some(i) = n.strip_prefix("llvm.") {
            return Some(intrinsic(i));
        }
        if n.starts_with("_R") {
            if n.contains("___rustc") {
                if n.ends_with("12___rust_alloc") {
                    return Some(|e, st, a, _| {
                        let n = e.arg(st, a, 0)?;
                        let al = e.arg(st, a, 1)?;
                        let p = e.heap_alloc(st, n, al, 0xA5)?;
                        c(p)
                    });
                }
                if n.ends_with("19___rust_alloc_zeroed") {
                    return Some(|e, st, a, _| {
                        let n = e.arg(st, a, 0)?;
                        let al = e.arg(st, a, 1)?;
                        let p = e.heap_alloc(st, n, al, 0)?;
                        c(p)
                    });
                }
                if n.ends_with("14___rust_dealloc") {
                    return Some(|e, st, a, _| {
                        let p = e.arg(st, a, 0)?;
                        e.heap_free(st, p)?;
                        c(0)
                    });
                }
                if n.ends_with("14___rust_realloc") {
                    return Some(|e, st, a, _| {
                        let p = e.arg(st, a, 0)?;
                        let al = e.arg(st, a, 2)?;
                        let n = e.arg(st, a, 3)?;
                        let p = e.heap_realloc(st, p, n, al)?;
                        c(p)
                    });
                }
                if n.contains("no_alloc_shim_is_unstable") {
                    return Some(|_, _, _, _| c(0));
                }
            }
            if n.contains("3fmt3num") && (n.ends_with("7Display3fmt") || n.ends_with("5Debug3fmt")) {
                // rendering of a symbolic integer inside a message: elided,
                // except where messages are what is checked
                return Some(|e, st, a, _| {
                    if e.render {
                        return Ok(Flow::Body);
                    }
                    let p = e.arg(st, a, 0)?;
                    let (id, off) = e.range(st, p, 1, false)?;
                    let o = &st.mem[&id];
                    if o.sym.range(off as u64..off as u64 + 8).next().is_some() {
                        return c(0);
                    }
                    Ok(Flow::Body)
                });
            }
            return None;
        }
        let f: Native = match n {
            // ---- harness interface
            "sx_sym" => |e, st, a, _| {
                let w = e.arg32(st, a, 0)? as u32;
                let x = e.new_input(st, w);
                let r = e.pool.zext(x, 64);
                next(e.val(r))
            },
            "sx_bytes" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let n = e.arg(st, a, 1)?;
                if n > 0 {
                    e.range(st, p, n, true)?;
                }
                for i in 0..n {
                    let x = e.new_input(st, 8);
                    e.store_int(st, p + i, 1, &V::S(x))?;
                }
                c(0)
            },
            "sx_concrete" => |e, st, a, _| {
                let v = e.arg(st, a, 0)?;
                c(v)
            },
            "sx_assume" => |e, st, a, _| {
                e.assume(st, &a[0])?;
                c(0)
            },
            "sx_assert" => |e, st, a, _| {
                let p = e.arg(st, a, 1)?;
                let n = e.arg(st, a, 2)?;
                let m = e.rust_str(st, p, n)?;
                e.require(st, &a[0], "assert", &m)?;
                c(0)
            },
            "sx_note" => |_, st, a, _| {
                let k = match &a[0] {
                    V::C(k) => *k,
                    _ => 0,
                };
                st.notes.push((k, a[1].clone()));
                c(0)
            },
            "sx_cover" => |e, st, a, _| {
                let k = e.arg32(st, a, 0)?;
                st.covers.insert(k);
                c(0)
            },
            "sx_expect" => |e, st, a, _| {
                st.expect = e.arg32(st, a, 0)?;
                c(0)
            },
            "sx_panic_at" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let n = e.arg(st, a, 1)?;
                let l = e.arg32(st, a, 2)?;
                let f = e.rust_str(st, p, n)?;
                let f = match f.find("/src/") {
                    Some(_) => f.rsplit('/').next().unwrap().to_string(),
                    None => f,
                };
                st.panic_at = format!("{}:{}", f, l);
                c(0)
            },
            "sx_tmpdir" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                for (i, b) in b"/w".iter().enumerate() {
                    e.store_int(st, p + i as u64, 1, &V::C(*b as u64))?;
                }
                c(2)
            },
            "sx_fs_fault" => |e, st, a, _| {
                st.fs.fault = e.arg(st, a, 0)?;
                let kind = e.arg(st, a, 1)?;
                st.fs.fault_kind = kind & 15;
                st.fs.stats = kind & 16 != 0;
                st.fs.fault_arg = e.arg(st, a, 2)?;
                st.fs.ops = 0;
                st.fs.crashed = false;
                c(0)
            },
            "sx_param" => |e, st, a, _| {
                let k = e.arg32(st, a, 0)? as usize;
                c(e.params.get(k).copied().unwrap_or(0))
            },
            "sx_maps" => |_, st, _, _| c(st.fs.maps as u64),
            "sx_fs_ops" => |_, st, _, _| c(st.fs.ops),
            "sx_fs_count" => |_, st, _, _| {
                let dirs = st.fs.nodes.values().filter(|n| matches!(n, Node::Dir)).count() as u64;
                c(((dirs - 2) << 32) + st.fs.nodes.len() as u64 - dirs)
            },
            "sx_live_heap" => |_, st, _, _| c(st.live_heap as u64),
            "sx_open_fds" => |_, st, _, _| c(st.fs.fds.len() as u64),
            "sx_is_model" => |_, _, _, _| c(1),
            // ---- allocator
            "malloc" => |e, st, a, _| {
                let n = e.arg(st, a, 0)?;
                let p = e.heap_alloc(st, n, 16, 0xA5)?;
                c(p)
            },
            "calloc" => |e, st, a, _| {
                let n = e.arg(st, a, 0)? * e.arg(st, a, 1)?;
                let p = e.heap_alloc(st, n, 16, 0)?;
                c(p)
            },
            "free" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                if p != 0 {
                    e.heap_free(st, p)?;
                }
                c(0)
            },
            "realloc" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let n = e.arg(st, a, 1)?;
                let p = if p == 0 {
                    e.heap_alloc(st, n, 16, 0xA5)?
                } else {
                    e.heap_realloc(st, p, n, 16)?
                };
                c(p)
            },
            // ---- memory
            "memcpy" | "memmove" => |e, st, a, _| {
                let n = e.arg(st, a, 2)?;
                let d = e.arg(st, a, 0)?;
                let s = e.arg(st, a, 1)?;
                e.copy(st, d, s, n)?;
                c(d)
            },
            "memset" => |e, st, a, _| {
                let n = e.arg(st, a, 2)?;
                let d = e.arg(st, a, 0)?;
                let v = e.cast(CastK::Trunc, 32, 8, &a[1]);
                e.fill(st, d, &v, n)?;
                c(d)
            },
            "memcmp" | "bcmp" => |e, st, a, ci| {
                let n = e.arg(st, a, 2)?;
                let p = e.arg(st, a, 0)?;
                let q = e.arg(st, a, 1)?;
                if n == 0 {
                    return c(0);
                }
                let (pi, po) = e.range(st, p, n, false)?;
                let (qi, qo) = e.range(st, q, n, false)?;
                let (po_, qo_) = (st.mem[&pi].clone(), st.mem[&qi].clone());
                let n = n as usize;
                if po_.sym.is_empty() && qo_.sym.is_empty() {
                    let r = po_.data[po..po + n].cmp(&qo_.data[qo..qo + n]);
                    return c32(r as i32 as u64);
                }
                let ordered = e.name_of(ci) != "bcmp";
                let mut r = e.pool.konst(0, 32);
                let one = e.pool.konst(1, 32);
                let minus = e.pool.konst(NEG as u128, 32);
                let syms = |o: &Obj, at: usize| -> Vec<usize> {
                    o.sym.range(at as u64..(at + n) as u64).map(|(k, _)| *k as usize - at).collect()
                };
                let mut at = syms(&po_, po);
                at.extend(syms(&qo_, qo));
                at.sort_unstable();
                at.dedup();
                // from the back: concrete stretches between symbolic bytes
                let mut end = n;
                for i in at.iter().rev().map(|i| Some(*i)).chain(Some(None)) {
                    let from = i.map_or(0, |i| i + 1);
                    if from < end {
                        let (x, y) = (&po_.data[po + from..po + end], &qo_.data[qo + from..qo + end]);
                        match x.cmp(y) {
                            std::cmp::Ordering::Equal => (),
                            std::cmp::Ordering::Less if ordered => r = minus,
                            _ => r = one,
                        }
                    }
                    let Some(i) = i else { break };
                    end = i;
                    let x = match po_.sym.get(&((po + i) as u64)) {
                        Some(v) => *v,
                        None => e.pool.konst(po_.data[po + i] as u128, 8),
                    };
                    let y = match qo_.sym.get(&((qo + i) as u64)) {
                        Some(v) => *v,
                        None => e.pool.konst(qo_.data[qo + i] as u128, 8),
                    };
                    let eq = e.pool.bin(Op::Eq, x, y);
                    let ne = if ordered {
                        let lt = e.pool.bin(Op::Ult, x, y);
                        e.pool.ite(lt, minus, one)
                    } else {
                        one
                    };
                    r = e.pool.ite(eq, r, ne);
                }
                next(e.val(r))
            },
            "strlen" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let mut n = 0;
                loop {
                    let b = e.load_int(st, p + n, 1)?;
                    let z = e.icmp(Pred::Eq, 8, &b, &V::C(0));
                    if e.decide(st, &z)? {
                        return c(n);
                    }
                    n += 1;
                }
            },
            "memchr" | "memrchr" => |e, st, a, ci| {
                let p = e.arg(st, a, 0)?;
                let k = e.cast(CastK::Trunc, 32, 8, &a[1]);
                let n = e.arg(st, a, 2)?;
                let rev = e.name_of(ci) == "memrchr";
                for j in 0..n {
                    let i = if rev { n - 1 - j } else { j };
                    let b = e.load_int(st, p + i, 1)?;
                    let z = e.icmp(Pred::Eq, 8, &b, &k);
                    if e.decide(st, &z)? {
                        return c(p + i);
                    }
                }
                c(0)
            },
            // ---- process
            "abort" => |_, st, _, _| {
                Err(Sig::Violation("abort".into(), format!("process abort (last panic at {})", st.panic_at)))
            },
            "exit" | "_exit" => {
                |_, _, _, _| Err(Sig::Violation("abort".into(), "process exit".into()))
            }
            "getenv" | "secure_getenv" => |_, _, _, _| c(0),
            "__errno_location" => |e, st, _, _| {
                if st.errno == 0 {
                    st.errno = e.alloc(st, 4, 4, Kind::Global, 0);
                }
                c(st.errno)
            },
            "__cxa_thread_atexit_impl" => |_, _, _, _| c(0),
            "pthread_self" => |_, _, _, _| c(1),
            "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => {
                |_, _, _, _| c(0)
            }
            "pthread_getspecific" => |_, _, _, _| c(0),
            "sysconf" => |_, _, _, _| c(4096),
            "getpagesize" => |_, _, _, _| c32(4096),
            "dlsym" => |_, _, _, _| c(0),
            "sched_yield" => |_, _, _, _| c(0),
            "gettid" | "getpid" => |_, _, _, _| c32(4242),
            "getcwd" => |e, st, _, _| {
                e.errno(st, ENOENT)?;
                c(0)
            },
            "syscall" => |e, st, a, _| {
                let n = e.arg(st, a, 0)?;
                if n == 186 {
                    return c(4242); // gettid
                }
                if n == 332 {
                    return e.fail(st, ENOSYS); // statx: std falls back to stat64
                }
                inconclusive(format!("system call {}", n))
            },
            "statx" => |e, st, _, _| e.fail32(st, ENOSYS),
            // fixed seeds; whatever follows from others is the standard library's
            "getrandom" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let n = e.arg(st, a, 1)?;
                for i in 0..n {
                    e.store_int(st, p + i, 1, &V::C((i * 37 + 11) & 0xff))?;
                }
                c(n)
            },
            "getentropy" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let n = e.arg(st, a, 1)?;
                for i in 0..n {
                    e.store_int(st, p + i, 1, &V::C((i * 37 + 11) & 0xff))?;
                }
                c32(0)
            },
            "clock_gettime" => |e, st, a, _| {
                let p = e.arg(st, a, 1)?;
                e.store_int(st, p, 8, &V::C(1_700_000_000))?;
                e.store_int(st, p + 8, 8, &V::C(0))?;
                c32(0)
            },
            "madvise" | "posix_madvise" | "msync" | "posix_fadvise64" | "posix_fadvise" | "flock" => {
                |_, _, _, _| c32(0)
            }
            "strerror_r" | "__xpg_strerror_r" => |e, st, a, _| {
                let (x, p) = (e.arg32(st, a, 0)?, e.arg(st, a, 1)?);
                let text: &[u8] = match x {
                    2 => b"No such file or directory\0",
                    4 => b"Interrupted system call\0",
                    5 => b"Input/output error\0",
                    9 => b"Bad file descriptor\0",
                    12 => b"Cannot allocate memory\0",
                    13 => b"Permission denied\0",
                    17 => b"File exists\0",
                    20 => b"Not a directory\0",
                    21 => b"Is a directory\0",
                    22 => b"Invalid argument\0",
                    28 => b"No space left on device\0",
                    _ => b"Unknown error\0",
                };
                for (i, b) in text.iter().enumerate() {
                    e.store_int(st, p + i as u64, 1, &V::C(*b as u64))?;
                }
                c32(0)
            },
            // ---- unwinder
            "_Unwind_RaiseException" => |e, st, a, _| {
                let x = e.arg(st, a, 0)?;
                if !e.has_handler(st) {
                    return Err(Sig::Violation(
                        "panic".into(),
                        format!("uncaught panic at {}", st.panic_at),
                    ));
                }
                e.unwind(st, x)?;
                Ok(Flow::Moved)
            },
            "_Unwind_Resume" => |e, st, a, _| {
                let x = e.arg(st, a, 0)?;
                e.pop_frame(st);
                e.unwind(st, x)?;
                Ok(Flow::Moved)
            },
            "_Unwind_DeleteException" => |_, _, _, _| c(0),
            "_Unwind_Backtrace" => |_, _, _, _| c32(5),
            // ---- files
            "write" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                let buf = e.arg(st, a, 1)?;
                let n = e.arg(st, a, 2)?;
                if fd <= 2 {
                    return c(n);
                }
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => return e.fail(st, EBADF),
                };
                if !f.write || f.dir {
                    return e.fail(st, EBADF);
                }
                let full = n;
                let n = match e.gate(st, true, n)? {
                    Gate::Fail(x) => return e.fail(st, x),
                    Gate::Skip => return c(n),
                    Gate::Go(n) => n,
                };
                let pos = if f.append { e.file_size(st, f.obj) } else { f.pos };
                e.file_write(st, f.obj, pos, buf, n)?;
                st.fs.fds.get_mut(&fd).unwrap().pos = pos + n;
                c(if st.fs.crashed { full } else { n })
            },
            "pwrite64" | "pwrite" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                let buf = e.arg(st, a, 1)?;
                let n = e.arg(st, a, 2)?;
                let pos = e.arg(st, a, 3)?;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) if f.write && !f.dir => f.clone(),
                    _ => return e.fail(st, EBADF),
                };
                let full = n;
                let n = match e.gate(st, true, n)? {
                    Gate::Fail(x) => return e.fail(st, x),
                    Gate::Skip => return c(n),
                    Gate::Go(n) => n,
                };
                e.file_write(st, f.obj, pos, buf, n)?;
                c(if st.fs.crashed { full } else { n })
            },
            "writev" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                let iov = e.arg(st, a, 1)?;
                let cnt = e.arg32(st, a, 2)?;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) if f.write && !f.dir => f.clone(),
                    _ => return e.fail(st, EBADF),
                };
                let mut full = 0;
                for i in 0..cnt {
                    let n = e.load_int(st, iov + 16 * i + 8, 8)?;
                    full += e.concrete(st, &n, 64)?;
                }
                let mut left = match e.gate(st, true, full)? {
                    Gate::Fail(x) => return e.fail(st, x),
                    Gate::Skip => return c(full),
                    Gate::Go(n) => n,
                };
                let mut pos = if f.append { e.file_size(st, f.obj) } else { f.pos };
                let mut total = 0;
                for i in 0..cnt {
                    let b = e.load_int(st, iov + 16 * i, 8)?;
                    let b = e.concrete(st, &b, 64)?;
                    let n = e.load_int(st, iov + 16 * i + 8, 8)?;
                    let n = e.concrete(st, &n, 64)?.min(left);
                    left -= n;
                    e.file_write(st, f.obj, pos, b, n)?;
                    pos += n;
                    total += n;
                }
                st.fs.fds.get_mut(&fd).unwrap().pos = pos;
                c(if st.fs.crashed { full } else { total })
            },
            "read" | "pread64" | "pread" => |e, st, a, ci| {
                let fd = e.arg32(st, a, 0)?;
                let buf = e.arg(st, a, 1)?;
                let n = e.arg(st, a, 2)?;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => return e.fail(st, EBADF),
                };
                if f.dir {
                    return e.fail(st, EISDIR);
                }
                if !f.read {
                    return e.fail(st, EBADF);
                }
                if let Gate::Fail(x) = e.gate(st, false, n)? {
                    return e.fail(st, x);
                }
                let p = e.name_of(ci).starts_with("pread");
                let pos = if p { e.arg(st, a, 3)? } else { f.pos };
                let size = e.file_size(st, f.obj);
                let k = n.min(size.saturating_sub(pos));
                if k > 0 {
                    let base = st.mem[&f.obj].base;
                    e.copy(st, buf, base + pos, k)?;
                }
                if !p {
                    st.fs.fds.get_mut(&fd).unwrap().pos = pos + k;
                }
                c(k)
            },
            "lseek64" | "lseek" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                let off = e.arg(st, a, 1)? as i64;
                let wh = e.arg32(st, a, 2)?;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => return e.fail(st, EBADF),
                };
                if let Gate::Fail(x) = e.gate(st, false, 0)? {
                    return e.fail(st, x);
                }
                let base = match wh {
                    0 => 0,
                    1 => f.pos as i64,
                    _ => e.file_size(st, f.obj) as i64,
                };
                let to = base + off;
                if to < 0 {
                    return e.fail(st, EINVAL);
                }
                st.fs.fds.get_mut(&fd).unwrap().pos = to as u64;
                c(to as u64)
            },
            "ftruncate64" | "ftruncate" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                let n = e.arg(st, a, 1)? as usize;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) if f.write && !f.dir => f.clone(),
                    _ => return e.fail32(st, EINVAL),
                };
                match e.gate(st, false, 0)? {
                    Gate::Fail(x) => return e.fail32(st, x),
                    Gate::Skip => return c32(0),
                    _ => {}
                }
                let o = e.obj_mut(st, f.obj);
                o.data.resize(n, 0);
                let ks: Vec<u64> = o.sym.range(n as u64..).map(|(k, _)| *k).collect();
                for k in ks {
                    o.sym.remove(&k);
                }
                c32(0)
            },
            "fsync" | "fdatasync" => |e, st, _, _| {
                if let Gate::Fail(x) = e.gate(st, false, 0)? {
                    return e.fail32(st, x);
                }
                c32(0)
            },
            "close" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                if st.fs.fds.remove(&fd).is_none() {
                    return e.fail32(st, EBADF);
                }
                c32(0)
            },
            "fcntl" | "fcntl64" | "fchmod" | "chmod" => |_, _, _, _| c32(0),
            "open64" | "open" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let fl = e.arg32(st, a, 1)?;
                let path = e.cstring(st, p)?;
                e.open(st, path, fl)
            },
            "stat64" | "lstat64" | "stat" | "lstat" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let b = e.arg(st, a, 1)?;
                let path = norm(&e.cstring(st, p)?);
                if st.fs.stats {
                    if let Gate::Fail(x) = e.gate(st, false, 0)? {
                        return e.fail32(st, x);
                    }
                }
                match st.fs.nodes.get(&path).cloned() {
                    Some(n) => {
                        e.put_stat(st, b, &n)?;
                        c32(0)
                    }
                    None => match st.fs.nodes.get(&Fs::parent(&path)) {
                        Some(Node::File(_)) => e.fail32(st, ENOTDIR),
                        _ => e.fail32(st, ENOENT),
                    },
                }
            },
            "fstat64" | "fstat" => |e, st, a, _| {
                let fd = e.arg32(st, a, 0)?;
                let b = e.arg(st, a, 1)?;
                let f = match st.fs.fds.get(&fd) {
                    Some(f) => f.clone(),
                    None => return e.fail32(st, EBADF),
                };
                if let Gate::Fail(x) = e.gate(st, false, 0)? {
                    return e.fail32(st, x);
                }
                let n = if f.dir { Node::Dir } else { Node::File(f.obj) };
                e.put_stat(st, b, &n)?;
                c32(0)
            },
            "access" | "faccessat" => |e, st, a, ci| {
                let i = if e.name_of(ci) == "access" { 0 } else { 1 };
                let p = e.arg(st, a, i)?;
                let path = norm(&e.cstring(st, p)?);
                if st.fs.nodes.contains_key(&path) {
                    c32(0)
                } else {
                    e.fail32(st, ENOENT)
                }
            },
            "mkdir" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let path = norm(&e.cstring(st, p)?);
                match e.gate(st, false, 0)? {
                    Gate::Fail(x) => return e.fail32(st, x),
                    Gate::Skip => return c32(0),
                    _ => {}
                }
                if st.fs.nodes.contains_key(&path) {
                    return e.fail32(st, EEXIST);
                }
                match st.fs.nodes.get(&Fs::parent(&path)) {
                    Some(Node::Dir) => {}
                    Some(_) => return e.fail32(st, ENOTDIR),
                    None => return e.fail32(st, ENOENT),
                }
                st.fs.nodes.insert(path, Node::Dir);
                c32(0)
            },
            "unlink" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let path = norm(&e.cstring(st, p)?);
                match e.gate(st, false, 0)? {
                    Gate::Fail(x) => return e.fail32(st, x),
                    Gate::Skip => return c32(0),
                    _ => {}
                }
                match st.fs.nodes.get(&path) {
                    Some(Node::File(_)) => {
                        // the contents stay reachable through descriptors and mappings
                        st.fs.nodes.remove(&path);
                        c32(0)
                    }
                    Some(_) => e.fail32(st, EISDIR),
                    None => e.fail32(st, ENOENT),
                }
            },
            "rename" => |e, st, a, _| {
                let p = e.arg(st, a, 0)?;
                let q = e.arg(st, a, 1)?;
                let from = norm(&e.cstring(st, p)?);
                let to = norm(&e.cstring(st, q)?);
                match e.gate(st, false, 0)? {
                    Gate::Fail(x) => return e.fail32(st, x),
                    Gate::Skip => return c32(0),
                    _ => {}
                }
                match st.fs.nodes.get(&Fs::parent(&to)) {
                    Some(Node::Dir) => {}
                    _ => return e.fail32(st, ENOENT),
                }
                match st.fs.nodes.remove(&from) {
                    Some(n) => {
                        st.fs.nodes.insert(to, n);
                        c32(0)
                    }
                    None => e.fail32(st, ENOENT),
                }
            },
            "mmap64" | "mmap" => |e, st, a, _| {
                let len = e.arg(st, a, 1)?;
                let fd = e.arg32(st, a, 4)?;
                let off = e.arg(st, a, 5)?;
                if len == 0 || off != 0 {
                    e.errno(st, EINVAL)?;
                    return c(NEG);
                }
                let f = match st.fs.fds.get(&fd) {
                    Some(f) if !f.dir && f.read => f.clone(),
                    _ => {
                        e.errno(st, EBADF)?;
                        return c(NEG);
                    }
                };
                if let Gate::Fail(x) = e.gate(st, false, 0)? {
                    e.errno(st, x)?;
                    return c(NEG);
                }
                let p = e.alloc(st, 0, 4096, Kind::Map(f.obj), 0);
                st.fs.maps += 1;
                c(p)
            },
            "munmap" => |_, st, a, _| {
                let p = match &a[0] {
                    V::C(p) => *p,
                    _ => return inconclusive("munmap".into()),
                };
                match st.mem.remove(&(p >> SLOT)) {
                    Some(_) => {
                        st.fs.maps -= 1;
                        c32(0)
                    }
                    None => Err(Sig::Violation("memory".into(), "invalid munmap".into())),
                }
            },
            _ => return None,
        };
        Some(f)
    }
}

fn intrinsic(i: &str) -> Native {
    let head: String = i
        .split('.')
        .take_while(|p| {
            !(p.len() > 1
                && (p.starts_with('i') || p.starts_with('v') || p.starts_with('p'))
                && p[1..].bytes().next().map_or(false, |c| c.is_ascii_digit()))
        })
        .collect::<Vec<_>>()
        .join(".");
    match head.as_str() {
        "memcpy" | "memmove" | "memcpy.inline" => |e, st, a, _| {
            let n = e.arg(st, a, 2)?;
            if n == 0 {
                return c(0);
            }
            let d = e.arg(st, a, 0)?;
            let s = e.arg(st, a, 1)?;
            e.copy(st, d, s, n)?;
            c(0)
        },
        "memset" | "memset.inline" => |e, st, a, _| {
            let n = e.arg(st, a, 2)?;
            if n == 0 {
                return c(0);
            }
            let d = e.arg(st, a, 0)?;
            e.fill(st, d, &a[1], n)?;
            c(0)
        },
        "umin" | "umax" | "smin" | "smax" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let n = e.name_of(ci);
            let p = match &n[5..9] {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                _ => Pred::Sgt,
            };
            if let V::A(_) = a[0] {
                let r = e.lanewise(&a[0], &a[1], |s, x, y| {
                    let q = s.icmp(p, w, x, y);
                    s.select(&q, x, y, w)
                });
                return next(r);
            }
            let q = e.icmp(p, w, &a[0], &a[1]);
            next(e.select(&q, &a[0], &a[1], w))
        },
        "abs" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let n = e.bin(Op::Sub, w, &V::C(0), &a[0]);
            let q = e.icmp(Pred::Slt, w, &a[0], &V::C(0));
            next(e.select(&q, &n, &a[0], w))
        },
        "ctpop" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let x = e.ex(&a[0], w);
            let r = e.pop_count(x, w);
            next(e.val(r))
        },
        "ctlz" | "cttz" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let lead = e.name_of(ci).contains("ctlz");
            let x = e.ex(&a[0], w);
            let mut r = e.pool.konst(w as u128, w);
            for k in 0..w {
                let bit = if lead { k } else { w - 1 - k };
                let b = e.pool.extract(x, bit, 1);
                let n = if lead { w - 1 - bit } else { bit };
                let v = e.pool.konst(n as u128, w);
                r = e.pool.ite(b, v, r);
            }
            next(e.val(r))
        },
        "bswap" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let x = e.ex(&a[0], w);
            let mut acc: Option<Ex> = None;
            for k in 0..w / 8 {
                let b = e.pool.extract(x, 8 * k, 8);
                acc = Some(match acc {
                    None => b,
                    Some(a) => e.pool.concat(a, b),
                });
            }
            next(e.val(acc.unwrap()))
        },
        "bitreverse" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let x = e.ex(&a[0], w);
            let mut acc: Option<Ex> = None;
            for k in 0..w {
                let b = e.pool.extract(x, k, 1);
                acc = Some(match acc {
                    None => b,
                    Some(a) => e.pool.concat(a, b),
                });
            }
            next(e.val(acc.unwrap()))
        },
        "fshl" | "fshr" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let left = e.name_of(ci).contains("fshl");
            let wk = V::C(w as u64);
            let s = e.bin(Op::URem, w, &a[2], &wk);
            let z = e.icmp(Pred::Eq, w, &s, &V::C(0));
            let inv = e.bin(Op::Sub, w, &wk, &s);
            let (hi, lo, dflt) = if left {
                let h = e.bin(Op::Shl, w, &a[0], &s);
                let l = e.bin(Op::LShr, w, &a[1], &inv);
                (h, l, a[0].clone())
            } else {
                let h = e.bin(Op::Shl, w, &a[0], &inv);
                let l = e.bin(Op::LShr, w, &a[1], &s);
                (h, l, a[1].clone())
            };
            let r = e.bin(Op::Or, w, &hi, &lo);
            next(e.select(&z, &dflt, &r, w))
        },
        "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow"
        | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let n = e.name_of(ci);
            let op = match &n[6..9] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let (r, o) = e.overflow(op, &n[5..6] == "s", w, &a[0], &a[1]);
            next(V::A(Rc::new(vec![r, o])))
        },
        "uadd.sat" | "usub.sat" => |e, _, a, ci| {
            let w = e.int_suffix(ci);
            let n = e.name_of(ci);
            let add = n.contains("uadd");
            let (r, o) = e.overflow(if add { Op::Add } else { Op::Sub }, false, w, &a[0], &a[1]);
            let k = if add { mask(w) as u64 } else { 0 };
            next(e.select(&o, &V::C(k), &r, w))
        },
        "ucmp" | "scmp" => |e, _, a, ci| {
            let n = e.name_of(ci);
            // llvm.ucmp.i8.i64
            let w: u32 = n.rsplit(".i").next().unwrap().parse().unwrap();
            let rw = e.prog.bits(ci.ret);
            let p = if n.contains("ucmp") { Pred::Ult } else { Pred::Slt };
            let lt = e.icmp(p, w, &a[0], &a[1]);
            let eq = e.icmp(Pred::Eq, w, &a[0], &a[1]);
            let x = e.select(&eq, &V::C(0), &V::C(1), rw);
            next(e.select(&lt, &V::C(mask(rw) as u64), &x, rw))
        },
        "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" => {
            |_, _, a, _| next(a[0].clone())
        }
        "expect" | "expect.with.probability" | "ssa.copy" => |_, _, a, _| next(a[0].clone()),
        "is.constant" => |_, _, _, _| c(0),
        "ptrmask" => |e, _, a, _| next(e.bin(Op::And, 64, &a[0], &a[1])),
        "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl"
        | "invariant.start" | "invariant.end" | "prefetch" | "donothing" | "x86.sse2.pause"
        | "var.annotation" | "dbg.value" | "dbg.declare" | "fake.use" => |_, _, _, _| c(0),
        "trap" | "ubsantrap" | "debugtrap" => {
            |_, _, _, _| Err(Sig::Violation("abort".into(), "trap".into()))
        }
        "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" => {
            |e, _, a, ci| {
                let w = e.int_suffix(ci);
                let n = e.name_of(ci);
                let op = if n.contains(".or.") {
                    Op::Or
                } else if n.contains(".and.") {
                    Op::And
                } else if n.contains(".xor.") {
                    Op::Xor
                } else {
                    Op::Add
                };
                if let V::A(x) = &a[0] {
                    let mut r = x[0].clone();
                    for y in &x[1..] {
                        r = e.bin(op, w, &r, y);
                    }
                    return next(r);
                }
                die("vector.reduce")
            }
        }
        _ => |e, _, _, ci| inconclusive(format!("intrinsic {}", e.name_of(ci))),
    }
}

#[allow(dead_code)]
pub fn unused(_: BTreeSet<u64>) {}
