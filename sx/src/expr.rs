//! Hash-consed bit-vector expressions (width 1..=128).
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Sext,
    Extract, // imm = low bit, width = result width
    Concat,  // a: high, b: low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub imm: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

#[derive(Default)]
pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ex>,
    pub nvars: u32,
}

impl Pool {
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as Ex;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    pub fn konst(&mut self, v: u128, w: u32) -> Ex {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, w: u32) -> Ex {
        let id = self.nvars;
        self.nvars += 1;
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, imm: id as u128 })
    }
    pub fn var_id(&mut self, id: u32, w: u32) -> Ex {
        if id >= self.nvars {
            self.nvars = id + 1;
        }
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, imm: id as u128 })
    }
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
        // w: operand width
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (sx(x, w) >> s) as u128
            }
            Op::Eq => return (x == y) as u128,
            Op::Ult => return (x < y) as u128,
            Op::Ule => return (x <= y) as u128,
            Op::Slt => return (sx(x, w) < sx(y, w)) as u128,
            Op::Sle => return (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        };
        r & m
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let rw = if cmp { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = Self::fold(op, w, x, y);
            return self.konst(v, rw);
        }
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (ca, cb);
        // constants to the right of commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ca.is_some() || (cb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => {
                    return a
                }
                Op::And | Op::Mul if y == 0 => return self.konst(0, w),
                Op::And if y == m => return a,
                Op::Or if y == m => return self.konst(m, w),
                Op::Mul | Op::UDiv | Op::SDiv if y == 1 => return a,
                Op::URem if y == 1 => return self.konst(0, w),
                Op::Mul if y.is_power_of_two() => {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, k);
                }
                Op::UDiv if y.is_power_of_two() => {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, k);
                }
                Op::URem if y.is_power_of_two() => {
                    let k = self.konst(y - 1, w);
                    return self.bin(Op::And, a, k);
                }
                Op::Sub => {
                    let k = self.konst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                Op::Shl => {
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let lo = self.extract(a, 0, w - y as u32);
                    let z = self.konst(0, y as u32);
                    return self.concat(lo, z);
                }
                Op::LShr => {
                    if y >= w as u128 {
                        return self.konst(0, w);
                    }
                    let hi = self.extract(a, y as u32, w - y as u32);
                    return self.zext(hi, w);
                }
                Op::And if y.is_power_of_two_mask() => {
                    let k = 128 - y.leading_zeros();
                    let lo = self.extract(a, 0, k);
                    return self.zext(lo, w);
                }
                Op::And => {
                    // masks with zero low bits: split so that bytes stay apart
                    let tz = y.trailing_zeros();
                    if tz > 0 && (y >> tz).is_power_of_two_mask() {
                        let k = 128 - (y >> tz).leading_zeros();
                        let mid = self.extract(a, tz, k);
                        let z = self.konst(0, tz);
                        let c = self.concat(mid, z);
                        return self.zext(c, w);
                    }
                }
                Op::Ult if y == 0 => return self.konst(0, 1),
                Op::Ult if y == 1 => {
                    let z = self.konst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                Op::Ule if y == m => return self.konst(1, 1),
                Op::Add => {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(z) = self.as_const(n.b) {
                            let k = self.konst(z.wrapping_add(y), w);
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                }
                Op::Xor if w == 1 && y == 1 => {
                    // not
                    let n = self.n(a);
                    if n.op == Op::Xor && self.as_const(n.b) == Some(1) {
                        return n.a;
                    }
                }
                Op::Eq => {
                    if w == 1 {
                        if y == 1 {
                            return a;
                        }
                        let one = self.konst(1, 1);
                        return self.bin(Op::Xor, a, one);
                    }
                    let n = self.n(a);
                    match n.op {
                        Op::Concat => {
                            let wl = self.w(n.b);
                            let kh = self.konst(y >> wl, w - wl);
                            let kl = self.konst(y & mask(wl), wl);
                            let h = self.bin(Op::Eq, n.a, kh);
                            let l = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            if let (Some(p), Some(q)) = (self.as_const(n.b), self.as_const(n.c)) {
                                match (p == y, q == y) {
                                    (true, true) => return self.konst(1, 1),
                                    (false, false) => return self.konst(0, 1),
                                    (true, false) => return n.a,
                                    (false, true) => return self.not(n.a),
                                }
                            }
                        }
                        Op::Add => {
                            if let Some(z) = self.as_const(n.b) {
                                let k = self.konst(y.wrapping_sub(z), w);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            match op {
                Op::Sub if x == 0 => {}
                Op::Shl | Op::LShr | Op::UDiv | Op::URem if x == 0 => return self.konst(0, w),
                Op::Ule if x == 0 => return self.konst(1, 1),
                Op::Ult if x == m => return self.konst(0, 1),
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        // bitwise operators on concatenations with matching split points
        if matches!(op, Op::And | Op::Or | Op::Xor) {
            let (na, nb) = (self.n(a), self.n(b));
            let split = if na.op == Op::Concat {
                Some(self.w(na.b))
            } else if nb.op == Op::Concat {
                Some(self.w(nb.b))
            } else {
                None
            };
            if let Some(s) = split {
                // only when one side of the split is constant somewhere
                let has_const = |p: &Self, n: &Node| {
                    n.op == Op::Concat && (p.as_const(n.a).is_some() || p.as_const(n.b).is_some())
                };
                if has_const(self, &na) || has_const(self, &nb) || cb.is_some() {
                    let ah = self.extract(a, s, w - s);
                    let al = self.extract(a, 0, s);
                    let bh = self.extract(b, s, w - s);
                    let bl = self.extract(b, 0, s);
                    let h = self.bin(op, ah, bh);
                    let l = self.bin(op, al, bl);
                    return self.concat(h, l);
                }
            }
        }
        self.mk(Node { op, w: rw, a, b, c: 0, imm: 0 })
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let k = self.konst(mask(w), w);
        self.bin(Op::Xor, a, k)
    }
    pub fn ite(&mut self, c: Ex, t: Ex, e: Ex) -> Ex {
        if let Some(v) = self.as_const(c) {
            return if v != 0 { t } else { e };
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_const(t), self.as_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, e);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e, imm: 0 })
    }
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst((nh.imm << nl.w) | nl.imm, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.imm == nl.imm + nl.w as u128
        {
            return self.extract(nh.a, nl.imm as u32, w);
        }
        // right-associate: concat(concat(x,y),z) -> concat(x, concat(y,z))
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nl.op == Op::Concat {
            // fuse hi with the head of lo
            let nla = self.n(nl.a);
            if nh.op == Op::Extract
                && nla.op == Op::Extract
                && nh.a == nla.a
                && nh.imm == nla.imm + nla.w as u128
            {
                let f = self.extract(nh.a, nla.imm as u32, nh.w + nla.w);
                return self.concat(f, nl.b);
            }
            if nh.op == Op::Const && nla.op == Op::Const {
                let f = self.konst((nh.imm << nla.w) | nla.imm, nh.w + nla.w);
                return self.concat(f, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, imm: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.konst(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.as_const(a) {
            return self.konst(sx(v, aw) as u128, w);
        }
        self.mk(Node { op: Op::Sext, w, a, b: 0, c: 0, imm: 0 })
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.imm >> lo, w),
            Op::Extract => return self.extract(n.a, n.imm as u32 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                // distribute (cheap and keeps byte structure visible)
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Sext => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, imm: lo as u128 })
    }
    /// Value of `e` under `model` (missing variables are 0).
    pub fn eval(&self, e: Ex, model: &HashMap<u32, u128>, memo: &mut HashMap<Ex, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.imm,
            Op::Var => return model.get(&(n.imm as u32)).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Sext => sx(self.eval(n.a, model, memo), self.w(n.a)) as u128 & mask(n.w),
            Op::Extract => (self.eval(n.a, model, memo) >> n.imm) & mask(n.w),
            Op::Concat => {
                (self.eval(n.a, model, memo) << self.w(n.b)) | self.eval(n.b, model, memo)
            }
            _ => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                Self::fold(n.op, self.w(n.a), x, y)
            }
        };
        memo.insert(e, v);
        v
    }
    pub fn vars(&self, e: Ex, seen: &mut std::collections::HashSet<Ex>, out: &mut Vec<u32>) {
        let mut st = vec![e];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = &self.nodes[e as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.imm as u32),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                Op::Sext | Op::Extract => st.push(n.a),
                _ => st.extend([n.a, n.b]),
            }
        }
    }
}

trait MaskLike {
    fn is_power_of_two_mask(self) -> bool;
}
impl MaskLike for u128 {
    /// 0b0..01..1
    fn is_power_of_two_mask(self) -> bool {
        self != 0 && self != !0 && (self + 1).is_power_of_two()
    }
}
