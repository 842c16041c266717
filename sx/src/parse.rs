//! Lazy reader for textual LLVM IR: symbols of all modules are indexed up
//! front, function bodies and global initialisers are translated on demand.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}
#[derive(Clone, Debug)]
pub struct TyD {
    pub k: TyK,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

/// Runtime value: concrete (<= 64 bits), symbolic / wide, or aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(Ex),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Same,
    FpExt,
    FpTrunc,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(SymId),
    Ptr(Opnd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub callee: Callee,
    pub args: Vec<(Opnd, TyId)>,
    pub ret: TyId,
    pub invoke: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Op, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    FBin { op: u8, w: u32, dst: u32, a: Opnd, b: Opnd },
    ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opnd, b: Opnd },
    FCmp { p: String, w: u32, dst: u32, a: Opnd, b: Opnd },
    Cast { k: CastK, fw: u32, tw: u32, lanes: u32, dst: u32, a: Opnd },
    BitCast { from: TyId, to: TyId, dst: u32, a: Opnd },
    Select { ty: TyId, lanes: u32, dst: u32, c: Opnd, a: Opnd, b: Opnd },
    Load { ty: TyId, align: u64, dst: u32, p: Opnd },
    Store { ty: TyId, align: u64, v: Opnd, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, u64)> },
    Alloca { dst: u32, size: u64, n: Option<Opnd>, align: u64 },
    ExtractV { dst: u32, a: Opnd, path: Vec<u32> },
    InsertV { dst: u32, a: Opnd, v: Opnd, path: Vec<u32>, ty: TyId },
    ExtElt { dst: u32, a: Opnd, i: Opnd },
    InsElt { dst: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, m: Opnd },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { v: Opnd, w: u32, cases: Vec<(u64, u32)>, default: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    Call(CallI),
    LandingPad { dst: u32, cleanup: bool, catch: bool, filter: bool },
    Resume(Opnd),
    Rmw { op: String, w: u32, dst: u32, p: Opnd, v: Opnd },
    CmpXchg { ty: TyId, dst: u32, p: Opnd, a: Opnd, b: Opnd },
    Copy { dst: u32, a: Opnd },
    Nop,
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opnd)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub sym: SymId,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub type SymId = u32;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SymK {
    Func,
    Global,
    Alias,
    Decl,
}
#[derive(Clone, Debug)]
pub struct Sym {
    pub name: &'static str,
    pub module: u32,
    pub k: SymK,
    pub off: usize, // start of the line in the module text
}
pub const FIRST_ID: u64 = 16;
pub const SLOT: u32 = 34;
pub const BASE: u64 = 0x10000;
pub fn sym_addr(s: SymId) -> u64 {
    ((FIRST_ID + s as u64) << SLOT) + BASE
}

pub struct Module {
    pub name: String,
    pub text: &'static [u8],
    pub local: HashMap<&'static str, SymId>,
    pub types: HashMap<&'static str, usize>,
}
pub struct GlobalInit {
    pub bytes: Vec<u8>,
    pub konst: bool,
    pub align: u64,
}

#[derive(Default)]
pub struct Program {
    pub mods: Vec<Module>,
    pub syms: Vec<Sym>,
    pub ext: HashMap<&'static str, SymId>,
    pub tys: Vec<TyD>,
    ty_map: HashMap<TyK, TyId>,
    pub funcs: HashMap<SymId, Rc<Func>>,
}

pub fn die(m: &str) -> ! {
    eprintln!("sx: ENGINE {}", m);
    std::process::exit(3)
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
fn round(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Program {
    pub fn ty(&mut self, k: TyK) -> TyId {
        if let Some(&t) = self.ty_map.get(&k) {
            return t;
        }
        let mut offs = vec![];
        let (size, align) = match &k {
            TyK::Void | TyK::Other => (0, 1),
            TyK::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (round(b, a), a)
            }
            TyK::F32 => (4, 4),
            TyK::F64 => (8, 8),
            TyK::Ptr => (8, 8),
            TyK::Arr(n, t) => {
                let d = &self.tys[*t as usize];
                (d.size * n, d.align)
            }
            TyK::Vec(n, t) => {
                let d = &self.tys[*t as usize];
                let s = (d.size * *n as u64).next_power_of_two();
                (s, s.max(1))
            }
            TyK::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f {
                    let d = &self.tys[*t as usize];
                    let a = if *packed { 1 } else { d.align };
                    o = round(o, a);
                    offs.push(o);
                    o += d.size;
                    al = al.max(a);
                }
                (round(o, al), al)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(TyD { k: k.clone(), size, align, offs });
        self.ty_map.insert(k, id);
        id
    }
    pub fn td(&self, t: TyId) -> &TyD {
        &self.tys[t as usize]
    }
    /// Bit width of a scalar type.
    pub fn bits(&self, t: TyId) -> u32 {
        match self.td(t).k {
            TyK::Int(w) => w,
            TyK::F32 => 32,
            TyK::F64 | TyK::Ptr => 64,
            TyK::Vec(_, e) => self.bits(e),
            _ => die(&format!("bits of {:?}", self.td(t).k)),
        }
    }
    pub fn lanes(&self, t: TyId) -> u32 {
        match self.td(t).k {
            TyK::Vec(n, _) => n,
            _ => 0,
        }
    }

    pub fn add_module(&mut self, name: &str, text: &'static [u8]) {
        let m = self.mods.len() as u32;
        let mut local = HashMap::new();
        let mut types = HashMap::new();
        let mut i = 0;
        while i < text.len() {
            let mut e = i;
            while e < text.len() && text[e] != b'\n' {
                e += 1;
            }
            let line = &text[i..e];
            match line.first() {
                Some(b'@') => {
                    let mut l = Lex { t: text, i: i + 1, m };
                    let n = l.name();
                    l.ws();
                    l.expect(b'=');
                    let mut private = false;
                    let mut ext_decl = false;
                    let k = loop {
                        l.ws();
                        match l.word() {
                            "private" | "internal" => private = true,
                            "external" | "extern_weak" => ext_decl = true,
                            "alias" => break SymK::Alias,
                            "global" | "constant" => {
                                break if ext_decl { SymK::Decl } else { SymK::Global }
                            }
                            "" => {
                                // parenthesised attribute
                                l.skip_parens();
                            }
                            _ => {
                                l.ws();
                                if l.peek() == b'(' {
                                    l.skip_parens();
                                }
                            }
                        }
                    };
                    self.add_sym(m, &mut local, n, k, i, private);
                }
                Some(b'd') if line.starts_with(b"define ") || line.starts_with(b"declare ") => {
                    let at = line.iter().position(|c| *c == b'@').unwrap();
                    let mut l = Lex { t: text, i: i + at + 1, m };
                    let n = l.name();
                    let head = std::str::from_utf8(&line[..at]).unwrap();
                    let private = head.contains(" internal ") || head.contains(" private ");
                    let k = if line[2] == b'f' { SymK::Func } else { SymK::Decl };
                    self.add_sym(m, &mut local, n, k, i, private);
                }
                Some(b'%') => {
                    let mut l = Lex { t: text, i: i + 1, m };
                    let n = l.name();
                    l.ws();
                    l.expect(b'=');
                    l.ws();
                    l.word(); // type
                    types.insert(n, l.i);
                }
                _ => {}
            }
            i = e + 1;
        }
        self.mods.push(Module { name: name.to_string(), text, local, types });
    }
    fn add_sym(
        &mut self,
        m: u32,
        local: &mut HashMap<&'static str, SymId>,
        n: &'static str,
        k: SymK,
        off: usize,
        private: bool,
    ) {
        let id = self.syms.len() as SymId;
        let s = Sym { name: n, module: m, k, off };
        if private {
            self.syms.push(s);
            local.insert(n, id);
            return;
        }
        match self.ext.get(n) {
            None => {
                self.syms.push(s);
                self.ext.insert(n, id);
            }
            Some(&o) => {
                if self.syms[o as usize].k == SymK::Decl && k != SymK::Decl {
                    self.syms[o as usize] = s;
                }
            }
        }
    }
    pub fn lookup(&self, m: u32, n: &str) -> SymId {
        if let Some(s) = self.mods.get(m as usize).and_then(|x| x.local.get(n)) {
            return *s;
        }
        match self.ext.get(n) {
            Some(s) => *s,
            None => die(&format!("unknown symbol {}", n)),
        }
    }

    // ---- types and constants -------------------------------------------
    pub fn parse_ty(&mut self, l: &mut Lex) -> TyId {
        l.wsn();
        let mut t = match l.peek() {
            b'[' => {
                l.i += 1;
                l.wsn();
                let n: u64 = l.word().parse().unwrap();
                l.wsn();
                l.expect_word("x");
                let e = self.parse_ty(l);
                l.wsn();
                l.expect(b']');
                self.ty(TyK::Arr(n, e))
            }
            b'<' if l.t[l.i + 1] != b'{' => {
                l.i += 1;
                l.wsn();
                let n: u32 = l.word().parse().unwrap();
                l.wsn();
                l.expect_word("x");
                let e = self.parse_ty(l);
                l.wsn();
                l.expect(b'>');
                self.ty(TyK::Vec(n, e))
            }
            b'<' | b'{' => {
                let packed = l.peek() == b'<';
                l.i += 1 + packed as usize;
                let mut f = vec![];
                l.wsn();
                while l.peek() != b'}' {
                    f.push(self.parse_ty(l));
                    l.wsn();
                    l.eat(b',');
                    l.wsn();
                }
                l.i += 1;
                if packed {
                    l.expect(b'>');
                }
                self.ty(TyK::Struct(f, packed))
            }
            b'%' => {
                l.i += 1;
                let n = l.name();
                let off = self.mods[l.m as usize].types[n];
                let mut s = Lex { t: l.t, i: off, m: l.m };
                self.parse_ty(&mut s)
            }
            _ => {
                let w = l.word();
                match w {
                    "ptr" => self.ty(TyK::Ptr),
                    "void" => self.ty(TyK::Void),
                    "float" => self.ty(TyK::F32),
                    "double" => self.ty(TyK::F64),
                    "half" | "bfloat" | "fp128" | "x86_fp80" | "metadata" | "label" | "token"
                    | "x86_amx" | "opaque" => self.ty(TyK::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        self.ty(TyK::Int(w[1..].parse().unwrap()))
                    }
                    _ => l.fail(&format!("type expected, found {:?}", w)),
                }
            }
        };
        // function type
        let save = l.i;
        l.ws();
        if l.peek() == b'(' {
            l.skip_parens();
            l.ws();
            if l.peek() == b'*' {
                l.i += 1;
            }
            let _ = &mut t;
        } else {
            l.i = save;
        }
        t
    }
    fn is_ty_start(l: &Lex) -> bool {
        match l.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => {
                let mut x = Lex { t: l.t, i: l.i, m: l.m };
                let w = x.word();
                w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => {
                let mut x = Lex { t: l.t, i: l.i, m: l.m };
                matches!(
                    x.word(),
                    "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "fp128"
                        | "x86_fp80" | "bfloat" | "token"
                )
            }
        }
    }
    /// Skip attribute words (with optional arguments) until a type starts.
    fn skip_attrs_to_ty(&mut self, l: &mut Lex) {
        loop {
            l.ws();
            if Self::is_ty_start(l) {
                return;
            }
            let w = l.word();
            if w.is_empty() {
                l.fail("attribute or type expected");
            }
            l.ws();
            if l.peek() == b'(' {
                l.skip_parens();
            } else if w == "align" {
                l.ws();
                l.word();
            }
        }
    }
    /// Skip attributes between a parameter's type and its value.
    fn skip_param_attrs(&mut self, l: &mut Lex) {
        loop {
            l.ws();
            let save = l.i;
            let c = l.peek();
            if !(c.is_ascii_lowercase()) {
                return;
            }
            let w = l.word();
            match w {
                "align" => {
                    l.ws();
                    l.word();
                }
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "writeonly"
                | "readnone" | "zeroext" | "signext" | "inreg" | "returned" | "immarg"
                | "nofree" | "swiftself" | "swifterror" | "allocalign" | "allocptr" | "writable"
                | "dead_on_unwind" | "dead_on_return" | "noext" | "nest" => {
                    l.ws();
                    if l.peek() == b'(' {
                        l.skip_parens();
                    }
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "captures" | "range"
                | "initializes" | "byval" | "nofpclass" | "elementtype" | "byref" | "alignstack" => {
                    l.ws();
                    l.skip_parens();
                }
                _ => {
                    l.i = save;
                    return;
                }
            }
        }
    }

    pub fn zero(&self, t: TyId) -> V {
        match &self.td(t).k {
            TyK::Arr(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            TyK::Vec(n, e) => {
                let z = self.zero(*e);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            TyK::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            _ => V::C(0),
        }
    }
    fn wide(&self, pool: &mut Pool, v: u128, w: u32) -> V {
        if w <= 64 {
            V::C((v & mask(w)) as u64)
        } else {
            V::S(pool.konst(v, w))
        }
    }
    /// Constant of type `t`.
    pub fn konst(&mut self, l: &mut Lex, t: TyId, pool: &mut Pool) -> V {
        l.wsn();
        match l.peek() {
            b'@' => {
                l.i += 1;
                let n = l.name();
                V::C(self.resolve_addr(l.m, n))
            }
            b'[' | b'{' => {
                let close = if l.peek() == b'[' { b']' } else { b'}' };
                l.i += 1;
                self.elems(l, close, pool)
            }
            b'<' => {
                l.i += 1;
                if l.peek() == b'{' {
                    l.i += 1;
                    let v = self.elems(l, b'}', pool);
                    l.expect(b'>');
                    v
                } else {
                    self.elems(l, b'>', pool)
                }
            }
            b'c' if l.t[l.i + 1] == b'"' => {
                l.i += 1;
                let s = l.cstr();
                V::A(Rc::new(s.into_iter().map(|b| V::C(b as u64)).collect()))
            }
            _ => {
                let w = l.word();
                match w {
                    "null" | "zeroinitializer" | "undef" | "poison" | "none" => self.zero(t),
                    "true" => V::C(1),
                    "false" => V::C(0),
                    "splat" => {
                        l.ws();
                        l.expect(b'(');
                        let et = self.parse_ty(l);
                        let v = self.konst(l, et, pool);
                        l.ws();
                        l.expect(b')');
                        let n = match self.td(t).k {
                            TyK::Vec(n, _) => n as usize,
                            TyK::Arr(n, _) => n as usize,
                            _ => l.fail("splat"),
                        };
                        V::A(Rc::new(vec![v; n]))
                    }
                    "getelementptr" => {
                        loop {
                            l.ws();
                            if l.peek() == b'(' {
                                break;
                            }
                            let w = l.word();
                            l.ws();
                            if w == "inrange" {
                                l.skip_parens();
                            }
                        }
                        l.expect(b'(');
                        let et = self.parse_ty(l);
                        l.ws();
                        l.expect(b',');
                        let pt = self.parse_ty(l);
                        let base = self.kint(l, pt, pool) as u64;
                        let mut a = base;
                        let mut cur = et;
                        let mut first = true;
                        l.ws();
                        while l.eat(b',') {
                            let it = self.parse_ty(l);
                            let iw = self.bits(it);
                            let v = sx(self.kint(l, it, pool), iw) as i64;
                            l.ws();
                            a = a.wrapping_add(self.gep_step(&mut cur, &mut first, v) as u64);
                        }
                        l.expect(b')');
                        V::C(a)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" => {
                        l.ws();
                        l.expect(b'(');
                        let ft = self.parse_ty(l);
                        let v = self.kint(l, ft, pool);
                        l.ws();
                        l.expect_word("to");
                        let tt = self.parse_ty(l);
                        l.ws();
                        l.expect(b')');
                        let w = self.bits(tt);
                        self.wide(pool, v, w)
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                        let op = match w {
                            "add" => Op::Add,
                            "sub" => Op::Sub,
                            "mul" => Op::Mul,
                            "xor" => Op::Xor,
                            "and" => Op::And,
                            _ => Op::Or,
                        };
                        while l.peek() != b'(' {
                            l.ws();
                            l.word();
                            l.ws();
                        }
                        l.expect(b'(');
                        let ft = self.parse_ty(l);
                        let a = self.kint(l, ft, pool);
                        l.ws();
                        l.expect(b',');
                        let ft2 = self.parse_ty(l);
                        let b = self.kint(l, ft2, pool);
                        l.ws();
                        l.expect(b')');
                        let bw = self.bits(ft);
                        self.wide(pool, Pool::fold(op, bw, a, b), bw)
                    }
                    "dso_local_equivalent" | "no_cfi" => self.konst(l, t, pool),
                    _ => {
                        // number
                        match self.td(t).k {
                            TyK::F32 => {
                                let d = l.float(w);
                                V::C((d as f32).to_bits() as u64)
                            }
                            TyK::F64 => {
                                let d = l.float(w);
                                V::C(d.to_bits())
                            }
                            TyK::Other => V::C(0),
                            _ => {
                                let bw = self.bits(t);
                                let v: u128 = if let Some(r) = w.strip_prefix('-') {
                                    match r.parse::<u128>() {
                                        Ok(x) => x.wrapping_neg(),
                                        _ => l.fail(&format!("number {:?}", w)),
                                    }
                                } else {
                                    match w.parse::<u128>() {
                                        Ok(x) => x,
                                        _ => l.fail(&format!("number {:?}", w)),
                                    }
                                };
                                self.wide(pool, v, bw)
                            }
                        }
                    }
                }
            }
        }
    }
    fn kint(&mut self, l: &mut Lex, t: TyId, pool: &mut Pool) -> u128 {
        match self.konst(l, t, pool) {
            V::C(x) => x as u128,
            V::S(e) => pool.as_const(e).unwrap(),
            _ => l.fail("integer constant expected"),
        }
    }
    fn elems(&mut self, l: &mut Lex, close: u8, pool: &mut Pool) -> V {
        let mut v = vec![];
        l.wsn();
        while l.peek() != close {
            let t = self.parse_ty(l);
            v.push(self.konst(l, t, pool));
            l.wsn();
            l.eat(b',');
            l.wsn();
        }
        l.i += 1;
        V::A(Rc::new(v))
    }
    fn gep_step(&mut self, cur: &mut TyId, first: &mut bool, v: i64) -> i64 {
        if *first {
            *first = false;
            return v.wrapping_mul(self.td(*cur).size as i64);
        }
        let d = self.td(*cur).clone();
        match d.k {
            TyK::Struct(f, _) => {
                *cur = f[v as usize];
                d.offs[v as usize] as i64
            }
            TyK::Arr(_, e) | TyK::Vec(_, e) => {
                *cur = e;
                v.wrapping_mul(self.td(e).size as i64)
            }
            _ => die("gep into scalar"),
        }
    }
    /// Follows aliases.
    pub fn canon(&mut self, mut s: SymId) -> SymId {
        while self.syms[s as usize].k == SymK::Alias {
            let sym = self.syms[s as usize].clone();
            let text = self.mods[sym.module as usize].text;
            let mut l = Lex { t: text, i: sym.off + 1, m: sym.module };
            l.name();
            loop {
                l.ws();
                if l.word() == "alias" {
                    break;
                }
                if l.peek() == b'=' {
                    l.i += 1;
                }
            }
            self.parse_ty(&mut l);
            l.ws();
            l.expect(b',');
            l.ws();
            self.parse_ty(&mut l);
            l.ws();
            l.expect(b'@');
            let n = l.name();
            s = self.lookup(sym.module, n);
        }
        s
    }
    fn resolve_addr(&mut self, m: u32, n: &str) -> u64 {
        let s = self.lookup(m, n);
        let s = self.canon(s);
        sym_addr(s)
    }
    pub fn put(&self, out: &mut [u8], t: TyId, v: &V, pool: &Pool) {
        let d = self.td(t);
        match (&d.k, v) {
            (TyK::Arr(_, e), V::A(x)) => {
                let s = self.td(*e).size as usize;
                for (i, y) in x.iter().enumerate() {
                    self.put(&mut out[i * s..], *e, y, pool);
                }
            }
            (TyK::Vec(_, e), V::A(x)) => {
                let s = self.td(*e).size as usize;
                for (i, y) in x.iter().enumerate() {
                    self.put(&mut out[i * s..], *e, y, pool);
                }
            }
            (TyK::Struct(f, _), V::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    self.put(&mut out[d.offs[i] as usize..], f[i], y, pool);
                }
            }
            (_, V::C(c)) => {
                let n = d.size as usize;
                let b = (*c as u128).to_le_bytes();
                out[..n].copy_from_slice(&b[..n]);
            }
            (_, V::S(e)) => {
                let n = d.size as usize;
                let b = pool.as_const(*e).unwrap().to_le_bytes();
                out[..n].copy_from_slice(&b[..n]);
            }
            _ => die("constant shape"),
        }
    }
    /// Initial bytes of a defined global.
    pub fn global_init(&mut self, s: SymId, pool: &mut Pool) -> GlobalInit {
        let sym = self.syms[s as usize].clone();
        let text = self.mods[sym.module as usize].text;
        let mut l = Lex { t: text, i: sym.off + 1, m: sym.module };
        l.name();
        l.ws();
        l.expect(b'=');
        let konst = loop {
            l.ws();
            match l.word() {
                "global" => break false,
                "constant" => break true,
                _ => {
                    l.ws();
                    if l.peek() == b'(' {
                        l.skip_parens();
                    }
                }
            }
        };
        let t = self.parse_ty(&mut l);
        let v = self.konst(&mut l, t, pool);
        let mut bytes = vec![0u8; self.td(t).size as usize];
        self.put(&mut bytes, t, &v, pool);
        let mut align = self.td(t).align;
        let rest = l.rest_of_line();
        if let Some(p) = rest.find(", align ") {
            let r: String =
                rest[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            align = r.parse().unwrap();
        }
        GlobalInit { bytes, konst, align }
    }

    // ---- functions ------------------------------------------------------
    pub fn func(&mut self, s: SymId, pool: &mut Pool) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&s) {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(s, pool));
        self.funcs.insert(s, f.clone());
        f
    }
    fn parse_func(&mut self, s: SymId, pool: &mut Pool) -> Func {
        let sym = self.syms[s as usize].clone();
        let text = self.mods[sym.module as usize].text;
        let mut l = Lex { t: text, i: sym.off, m: sym.module };
        let mut fp = FnP { regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 };
        while l.peek() != b'@' {
            l.i += 1;
        }
        l.i += 1;
        let name = l.name();
        l.expect(b'(');
        let mut nparams = 0;
        loop {
            l.ws();
            if l.eat(b')') {
                break;
            }
            if l.peek() == b'.' {
                l.i += 3;
                continue;
            }
            self.parse_ty(&mut l);
            self.skip_param_attrs(&mut l);
            l.ws();
            if l.peek() == b'%' {
                l.i += 1;
                let n = l.name();
                fp.reg(n);
            } else {
                fp.reg(Box::leak(format!("{}", nparams).into_boxed_str()));
            }
            nparams += 1;
            l.ws();
            l.eat(b',');
        }
        // to the body
        l.next_line();
        // number unnamed values: labels are textual, registers by name
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<u32> = None;
        loop {
            l.wsn();
            if l.peek() == b'}' {
                break;
            }
            if l.peek() == b';' {
                l.next_line();
                continue;
            }
            // label?
            let save = l.i;
            if l.peek() != b'%' {
                let n = if l.peek() == b'"' { l.name() } else { l.word() };
                if !n.is_empty() && l.peek() == b':' {
                    let b = fp.label(n);
                    while blocks.len() <= b as usize {
                        blocks.push(Block::default());
                    }
                    cur = Some(b);
                    l.next_line();
                    continue;
                }
                l.i = save;
            }
            let b = match cur {
                Some(b) => b,
                None => {
                    // unnamed entry block: its number follows the parameters
                    let n: &'static str = Box::leak(format!("{}", nparams).into_boxed_str());
                    let b = fp.label(n);
                    while blocks.len() <= b as usize {
                        blocks.push(Block::default());
                    }
                    cur = Some(b);
                    b
                }
            };
            self.parse_ins(&mut l, &mut fp, b, &mut blocks, pool);
            l.next_line();
        }
        while blocks.len() < fp.nlabels as usize {
            blocks.push(Block::default());
        }
        Func { name: name.into(), sym: s, nparams, nregs: fp.regs.len() as u32, blocks }
    }
    fn opnd(&mut self, l: &mut Lex, fp: &mut FnP, t: TyId, pool: &mut Pool) -> Opnd {
        l.ws();
        if l.peek() == b'%' {
            l.i += 1;
            let n = l.name();
            Opnd::R(fp.reg(n))
        } else if l.peek() == b'!' {
            // metadata operand
            while l.peek() != b',' && l.peek() != b')' {
                l.i += 1;
            }
            Opnd::K(V::C(0))
        } else {
            Opnd::K(self.konst(l, t, pool))
        }
    }
    fn ty_opnd(&mut self, l: &mut Lex, fp: &mut FnP, pool: &mut Pool) -> (TyId, Opnd) {
        let t = self.parse_ty(l);
        let o = self.opnd(l, fp, t, pool);
        (t, o)
    }
    fn lbl(&mut self, l: &mut Lex, fp: &mut FnP) -> u32 {
        l.wsn();
        l.expect_word("label");
        l.ws();
        l.expect(b'%');
        let n = l.name();
        fp.label(n)
    }
    fn parse_ins(
        &mut self,
        l: &mut Lex,
        fp: &mut FnP,
        blk: u32,
        blocks: &mut Vec<Block>,
        pool: &mut Pool,
    ) {
        let mut dst = None;
        if l.peek() == b'%' {
            l.i += 1;
            let n = l.name();
            dst = Some(fp.reg(n));
            l.ws();
            l.expect(b'=');
            l.ws();
        }
        let mut w = l.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            l.ws();
            w = l.word();
        }
        let d = dst.unwrap_or(0);
        let ins = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" => {
                l.skip_flags(&["nuw", "nsw", "exact", "disjoint"]);
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let b = self.opnd(l, fp, t, pool);
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                Ins::Bin { op, w: self.bits(t), lanes: self.lanes(t), dst: d, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                l.skip_flags(FAST);
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let b = self.opnd(l, fp, t, pool);
                Ins::FBin { op: w.as_bytes()[1], w: self.bits(t), dst: d, a, b }
            }
            "fneg" => {
                l.skip_flags(FAST);
                let (t, a) = self.ty_opnd(l, fp, pool);
                let w = self.bits(t);
                Ins::Bin { op: Op::Xor, w, lanes: 0, dst: d, a, b: Opnd::K(V::C(1 << (w - 1))) }
            }
            "icmp" => {
                l.skip_flags(&["samesign"]);
                l.ws();
                let p = match l.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => l.fail(x),
                };
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let b = self.opnd(l, fp, t, pool);
                Ins::ICmp { p, w: self.bits(t), lanes: self.lanes(t), dst: d, a, b }
            }
            "fcmp" => {
                l.skip_flags(FAST);
                l.ws();
                let p = l.word().to_string();
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let b = self.opnd(l, fp, t, pool);
                Ins::FCmp { p, w: self.bits(t), dst: d, a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "fpext" | "fptrunc"
            | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "addrspacecast" | "ptrtoaddr" => {
                l.skip_flags(&["nneg", "nuw", "nsw"]);
                l.skip_flags(FAST);
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.ws();
                l.expect_word("to");
                let tt = self.parse_ty(l);
                if w == "bitcast" {
                    Ins::BitCast { from: t, to: tt, dst: d, a }
                } else {
                    let k = match w {
                        "zext" => CastK::Zext,
                        "sext" => CastK::Sext,
                        "trunc" => CastK::Trunc,
                        "fpext" => CastK::FpExt,
                        "fptrunc" => CastK::FpTrunc,
                        "uitofp" => CastK::UiToFp,
                        "sitofp" => CastK::SiToFp,
                        "fptoui" => CastK::FpToUi,
                        "fptosi" => CastK::FpToSi,
                        _ => {
                            let (x, y) = (self.bits(t), self.bits(tt));
                            if x < y {
                                CastK::Zext
                            } else if x > y {
                                CastK::Trunc
                            } else {
                                CastK::Same
                            }
                        }
                    };
                    Ins::Cast { k, fw: self.bits(t), tw: self.bits(tt), lanes: self.lanes(t), dst: d, a }
                }
            }
            "select" => {
                l.skip_flags(FAST);
                let (ct, c) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, b) = self.ty_opnd(l, fp, pool);
                Ins::Select { ty: t, lanes: self.lanes(ct), dst: d, c, a, b }
            }
            "load" => {
                l.skip_flags(&["atomic", "volatile"]);
                let t = self.parse_ty(l);
                l.comma();
                let (_, p) = self.ty_opnd(l, fp, pool);
                let align = l.align_in_line(self.td(t).align);
                Ins::Load { ty: t, align, dst: d, p }
            }
            "store" => {
                l.skip_flags(&["atomic", "volatile"]);
                let (t, v) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, p) = self.ty_opnd(l, fp, pool);
                let align = l.align_in_line(self.td(t).align);
                Ins::Store { ty: t, align, v, p }
            }
            "getelementptr" => {
                l.skip_flags(&["inbounds", "nuw", "nusw"]);
                let et = self.parse_ty(l);
                l.comma();
                let (_, base) = self.ty_opnd(l, fp, pool);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                loop {
                    l.ws();
                    if l.peek() != b',' {
                        break;
                    }
                    let save = l.i;
                    l.i += 1;
                    l.ws();
                    if l.peek() == b'!' {
                        l.i = save;
                        break;
                    }
                    let (it, o) = self.ty_opnd(l, fp, pool);
                    let iw = self.bits(it);
                    match o {
                        Opnd::K(V::C(c)) => {
                            let v = sx(c as u128, iw) as i64;
                            off = off.wrapping_add(self.gep_step(&mut cur, &mut first, v));
                        }
                        o => {
                            let scale = self.gep_step(&mut cur, &mut first, 1);
                            idx.push((o, iw, scale as u64));
                        }
                    }
                }
                Ins::Gep { dst: d, base, off, idx }
            }
            "alloca" => {
                l.skip_flags(&["inalloca"]);
                let t = self.parse_ty(l);
                let size = self.td(t).size;
                let mut align = self.td(t).align;
                let mut n = None;
                l.ws();
                while l.eat(b',') {
                    l.ws();
                    if l.peek() == b'!' {
                        break;
                    }
                    if l.t[l.i..].starts_with(b"align") {
                        l.word();
                        l.ws();
                        align = l.word().parse().unwrap();
                    } else {
                        let (_, o) = self.ty_opnd(l, fp, pool);
                        n = Some(o);
                    }
                    l.ws();
                }
                Ins::Alloca { dst: d, size, n, align }
            }
            "extractvalue" => {
                let (_, a) = self.ty_opnd(l, fp, pool);
                let path = l.path();
                Ins::ExtractV { dst: d, a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, v) = self.ty_opnd(l, fp, pool);
                let path = l.path();
                Ins::InsertV { dst: d, a, v, path, ty }
            }
            "extractelement" => {
                let (_, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, i) = self.ty_opnd(l, fp, pool);
                Ins::ExtElt { dst: d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, v) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, i) = self.ty_opnd(l, fp, pool);
                Ins::InsElt { dst: d, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, b) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, m) = self.ty_opnd(l, fp, pool);
                Ins::Shuffle { dst: d, a, b, m }
            }
            "phi" => {
                l.skip_flags(FAST);
                let t = self.parse_ty(l);
                let mut inc = vec![];
                loop {
                    l.ws();
                    l.expect(b'[');
                    let v = self.opnd(l, fp, t, pool);
                    l.comma();
                    l.ws();
                    l.expect(b'%');
                    let n = l.name();
                    inc.push((fp.label(n), v));
                    l.ws();
                    l.expect(b']');
                    let save = l.i;
                    l.ws();
                    if !l.eat(b',') {
                        break;
                    }
                    l.ws();
                    if l.peek() != b'[' {
                        l.i = save;
                        break;
                    }
                }
                blocks[blk as usize].phis.push(Phi { dst: d, inc });
                return;
            }
            "br" => {
                l.ws();
                if l.t[l.i..].starts_with(b"label") {
                    Ins::Br(self.lbl(l, fp))
                } else {
                    let (_, c) = self.ty_opnd(l, fp, pool);
                    l.comma();
                    let a = self.lbl(l, fp);
                    l.comma();
                    let b = self.lbl(l, fp);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_opnd(l, fp, pool);
                l.comma();
                let default = self.lbl(l, fp);
                l.ws();
                l.expect(b'[');
                let mut cases = vec![];
                loop {
                    l.wsn();
                    if l.eat(b']') {
                        break;
                    }
                    let ct = self.parse_ty(l);
                    let c = self.kint(l, ct, pool) as u64;
                    l.comma();
                    let b = self.lbl(l, fp);
                    cases.push((c, b));
                }
                Ins::Switch { v, w: self.bits(t), cases, default }
            }
            "ret" => {
                let t = self.parse_ty(l);
                if self.td(t).k == TyK::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.opnd(l, fp, t, pool)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "freeze" => {
                let (_, a) = self.ty_opnd(l, fp, pool);
                Ins::Copy { dst: d, a }
            }
            "resume" => {
                let (_, a) = self.ty_opnd(l, fp, pool);
                Ins::Resume(a)
            }
            "landingpad" => {
                self.parse_ty(l);
                let (mut cleanup, mut catch, mut filter) = (false, false, false);
                loop {
                    let save = l.i;
                    l.wsn();
                    match l.word() {
                        "cleanup" => cleanup = true,
                        "catch" => {
                            catch = true;
                            l.to_eol();
                        }
                        "filter" => {
                            filter = true;
                            l.to_eol();
                        }
                        _ => {
                            l.i = save;
                            break;
                        }
                    }
                }
                // stay on the last line of the instruction
                Ins::LandingPad { dst: d, cleanup, catch, filter }
            }
            "call" | "invoke" => {
                l.skip_flags(FAST);
                // calling convention and return attributes
                self.skip_attrs_to_ty(l);
                let ret = self.parse_ty(l);
                l.ws();
                let callee = if l.eat(b'@') {
                    let n = l.name();
                    if n.starts_with("llvm.") {
                        Callee::Sym(self.lookup(l.m, n))
                    } else {
                        let s = self.lookup(l.m, n);
                        Callee::Sym(self.canon(s))
                    }
                } else if l.eat(b'%') {
                    let n = l.name();
                    Callee::Ptr(Opnd::R(fp.reg(n)))
                } else {
                    let save = l.i;
                    let w = l.word();
                    if w == "asm" {
                        loop {
                            l.ws();
                            if l.peek() == b'"' {
                                break;
                            }
                            l.word();
                        }
                        let a = l.name().to_string();
                        l.ws();
                        l.expect(b',');
                        l.ws();
                        l.name();
                        Callee::Asm(a)
                    } else {
                        l.i = save;
                        let pt = self.ty(TyK::Ptr);
                        let v = self.konst(l, pt, pool);
                        Callee::Ptr(Opnd::K(v))
                    }
                };
                l.ws();
                l.expect(b'(');
                let mut args = vec![];
                loop {
                    l.ws();
                    if l.eat(b')') {
                        break;
                    }
                    let t = self.parse_ty(l);
                    self.skip_param_attrs(l);
                    if self.td(t).k == TyK::Other {
                        // metadata: skip
                        let mut depth = 0;
                        loop {
                            let c = l.peek();
                            if depth == 0 && (c == b',' || c == b')') {
                                break;
                            }
                            if c == b'(' {
                                depth += 1;
                            }
                            if c == b')' {
                                depth -= 1;
                            }
                            l.i += 1;
                        }
                        args.push((Opnd::K(V::C(0)), t));
                    } else {
                        let o = self.opnd(l, fp, t, pool);
                        args.push((o, t));
                    }
                    l.ws();
                    l.eat(b',');
                }
                let mut invoke = None;
                if w == "invoke" {
                    // function attributes, then `to label`
                    loop {
                        l.wsn();
                        if l.peek() == b'#' {
                            while !l.peek().is_ascii_whitespace() {
                                l.i += 1;
                            }
                            continue;
                        }
                        if l.peek() == b'[' {
                            l.skip_brackets();
                            continue;
                        }
                        let x = l.word();
                        if x == "to" {
                            break;
                        }
                        if x.is_empty() {
                            l.fail("invoke");
                        }
                        if l.peek() == b'(' {
                            l.skip_parens();
                        }
                    }
                    let a = self.lbl(l, fp);
                    l.wsn();
                    l.expect_word("unwind");
                    let b = self.lbl(l, fp);
                    invoke = Some((a, b));
                }
                Ins::Call(CallI { dst, callee, args, ret, invoke })
            }
            "atomicrmw" => {
                l.skip_flags(&["volatile"]);
                l.ws();
                let op = l.word().to_string();
                let (_, p) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (t, v) = self.ty_opnd(l, fp, pool);
                Ins::Rmw { op, w: self.bits(t), dst: d, p, v }
            }
            "cmpxchg" => {
                l.skip_flags(&["weak", "volatile"]);
                let (_, p) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (t, a) = self.ty_opnd(l, fp, pool);
                l.comma();
                let (_, b) = self.ty_opnd(l, fp, pool);
                Ins::CmpXchg { ty: t, dst: d, p, a, b }
            }
            _ => l.fail(&format!("instruction {:?}", w)),
        };
        blocks[blk as usize].ins.push(ins);
    }
}

const FAST: &[&str] =
    &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];

struct FnP {
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
    nlabels: u32,
}
impl FnP {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'static str) -> u32 {
        let k = self.nlabels;
        let r = *self.labels.entry(n).or_insert(k);
        if r == k {
            self.nlabels += 1;
        }
        r
    }
}

#[derive(Clone)]
pub struct Lex {
    pub t: &'static [u8],
    pub i: usize,
    pub m: u32,
}
impl Lex {
    fn peek(&self) -> u8 {
        *self.t.get(self.i).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn wsn(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("{:?} expected", c as char));
        }
    }
    fn comma(&mut self) {
        self.ws();
        self.expect(b',');
        self.ws();
    }
    fn fail(&self, m: &str) -> ! {
        let s = self.t[..self.i].iter().rposition(|c| *c == b'\n').map(|x| x + 1).unwrap_or(0);
        let e = (self.i + 200).min(self.t.len());
        die(&format!(
            "parse: {} at col {} of {:?}",
            m,
            self.i - s,
            String::from_utf8_lossy(&self.t[s..e])
        ))
    }
    /// Identifier-like word (also numbers and floats).
    fn word(&mut self) -> &'static str {
        let s = self.i;
        while is_id(self.peek()) || (self.peek() == b'+' && self.i > s) {
            self.i += 1;
        }
        std::str::from_utf8(&self.t[s..self.i]).unwrap()
    }
    /// Name after a sigil: plain or quoted.
    fn name(&mut self) -> &'static str {
        if self.peek() == b'"' {
            self.i += 1;
            let s = self.i;
            while self.peek() != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.t[s..self.i]).unwrap();
            self.i += 1;
            r
        } else {
            self.word()
        }
    }
    fn expect_word(&mut self, w: &str) {
        let x = self.word();
        if x != w {
            self.fail(&format!("{:?} expected, found {:?}", w, x));
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.expect(b'"');
        let mut v = vec![];
        while self.peek() != b'"' {
            if self.peek() == b'\\' && self.t[self.i + 1] == b'\\' {
                v.push(b'\\');
                self.i += 2;
            } else if self.peek() == b'\\' {
                let h = std::str::from_utf8(&self.t[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                v.push(self.peek());
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn skip_group(&mut self, o: u8, c: u8) {
        let mut d = 0;
        loop {
            let x = self.peek();
            if x == b'"' {
                self.i += 1;
                while self.peek() != b'"' {
                    self.i += 1;
                }
            }
            if x == o {
                d += 1;
            }
            if x == c {
                d -= 1;
            }
            if x == 0 {
                self.fail("unbalanced");
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn skip_parens(&mut self) {
        self.skip_group(b'(', b')')
    }
    fn skip_brackets(&mut self) {
        self.skip_group(b'[', b']')
    }
    fn skip_flags(&mut self, f: &[&str]) {
        loop {
            self.ws();
            let save = self.i;
            let w = self.word();
            if !f.contains(&w) {
                self.i = save;
                return;
            }
        }
    }
    fn float(&self, w: &str) -> f64 {
        if let Some(h) = w.strip_prefix("0x") {
            match u64::from_str_radix(h, 16) {
                Ok(b) => f64::from_bits(b),
                _ => self.fail("float"),
            }
        } else {
            match w.parse::<f64>() {
                Ok(v) => v,
                _ => self.fail("float"),
            }
        }
    }
    fn rest_of_line(&self) -> &'static str {
        let mut e = self.i;
        while e < self.t.len() && self.t[e] != b'\n' {
            e += 1;
        }
        std::str::from_utf8(&self.t[self.i..e]).unwrap_or("")
    }
    fn align_in_line(&self, dflt: u64) -> u64 {
        let r = self.rest_of_line();
        match r.find(", align ") {
            Some(p) => {
                let s: String = r[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                s.parse().unwrap()
            }
            None => dflt,
        }
    }
    fn path(&mut self) -> Vec<u32> {
        let mut v = vec![];
        loop {
            self.ws();
            let save = self.i;
            if !self.eat(b',') {
                return v;
            }
            self.ws();
            match self.word().parse() {
                Ok(n) => v.push(n),
                _ => {
                    self.i = save;
                    return v;
                }
            }
        }
    }
    fn to_eol(&mut self) {
        while self.peek() != b'\n' && self.peek() != 0 {
            self.i += 1;
        }
    }
    fn next_line(&mut self) {
        self.to_eol();
        self.i += 1;
    }
}
