//! Textual LLVM IR: types, lexer, lazy function parser.
//! Functions are decoded only when they are first executed.
use std::collections::HashMap;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32),
    Array(u64, TyId),
    Vector(u64, TyId),
    Struct(bool, Vec<TyId>),
    Opaque,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Int(&'a str),
    Word(&'a str),
    P(u8),
    Str(&'a str),
    CStr(&'a str),
    Meta,
    Attr,
    Nl,
    Label(&'a str),
    Dots,
    Eof,
}

pub struct Lexer<'a> {
    s: &'a [u8],
    pub p: usize,
    line_start: bool,
}
fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lexer<'a> {
    pub fn new(s: &'a str) -> Self {
        Lexer { s: s.as_bytes(), p: 0, line_start: true }
    }
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        self.p += 1;
        let a = self.p;
        while self.s[self.p] != b'"' {
            self.p += 1;
        }
        let r = self.st(a, self.p);
        self.p += 1;
        r
    }
    fn name(&mut self) -> &'a str {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            return self.quoted();
        }
        let a = self.p;
        while self.p < self.s.len() && is_name(self.s[self.p]) {
            self.p += 1;
        }
        self.st(a, self.p)
    }
    pub fn next(&mut self) -> Tok<'a> {
        loop {
            if self.p >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || c == b'\r' {
                self.p += 1;
                self.line_start = false;
                continue;
            }
            if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            if c == b'\n' {
                self.p += 1;
                self.line_start = true;
                return Tok::Nl;
            }
            let ls = self.line_start;
            self.line_start = false;
            match c {
                b'%' => {
                    self.p += 1;
                    return Tok::Local(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return Tok::Global(self.name());
                }
                b'!' => {
                    self.p += 1;
                    if self.p < self.s.len() && is_name(self.s[self.p]) {
                        self.name();
                        if self.p < self.s.len() && self.s[self.p] == b'(' {
                            let mut d = 0;
                            while self.p < self.s.len() {
                                match self.s[self.p] {
                                    b'(' => d += 1,
                                    b')' => {
                                        d -= 1;
                                        if d == 0 {
                                            self.p += 1;
                                            break;
                                        }
                                    }
                                    _ => {}
                                }
                                self.p += 1;
                            }
                        }
                        return Tok::Meta;
                    }
                    if self.p < self.s.len() && self.s[self.p] == b'"' {
                        self.quoted();
                        return Tok::Meta;
                    }
                    if self.p < self.s.len() && self.s[self.p] == b'{' {
                        let mut d = 0;
                        while self.p < self.s.len() {
                            match self.s[self.p] {
                                b'{' => d += 1,
                                b'}' => {
                                    d -= 1;
                                    if d == 0 {
                                        self.p += 1;
                                        break;
                                    }
                                }
                                _ => {}
                            }
                            self.p += 1;
                        }
                        return Tok::Meta;
                    }
                    return Tok::Meta;
                }
                b'#' => {
                    self.p += 1;
                    self.name();
                    return Tok::Attr;
                }
                b'"' => {
                    let q = self.quoted();
                    if ls && self.p < self.s.len() && self.s[self.p] == b':' {
                        self.p += 1;
                        return Tok::Label(q);
                    }
                    return Tok::Str(q);
                }
                b'.' if self.s[self.p..].starts_with(b"...") => {
                    self.p += 3;
                    return Tok::Dots;
                }
                _ => {}
            }
            if c == b'c' && self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' {
                self.p += 1;
                return Tok::CStr(self.quoted());
            }
            if is_name(c) {
                let a = self.p;
                let n = self.name();
                if ls && self.p < self.s.len() && self.s[self.p] == b':' {
                    self.p += 1;
                    return Tok::Label(n);
                }
                if c.is_ascii_digit() || (c == b'-' && self.p > a + 1) {
                    // floats such as 1.000000e+00
                    if self.p < self.s.len() && self.s[self.p] == b'+' {
                        self.p += 1;
                        self.name();
                        return Tok::Int(self.st(a, self.p));
                    }
                    return Tok::Int(n);
                }
                return Tok::Word(n);
            }
            self.p += 1;
            return Tok::P(c);
        }
    }
}

/// Constants after evaluation
#[derive(Clone, Debug)]
pub enum Cst {
    I(u64),
    Big(u128),
    Agg(Vec<Cst>),
    Zero,
    Undef,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    C(u32), // index into Func.consts
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt, Freeze }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32), // function id (defined or declared)
    Ind(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, d: u32, ty: TyId, w: u32, a: Opd, b: Opd },
    Icmp { p: Pred, d: u32, ty: TyId, w: u32, a: Opd, b: Opd },
    Fcmp { p: String, d: u32, ty: TyId, a: Opd, b: Opd },
    FNeg { d: u32, ty: TyId, a: Opd },
    Cast { op: CastOp, d: u32, from: TyId, to: TyId, a: Opd },
    Load { d: u32, ty: TyId, p: Opd },
    Store { ty: TyId, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Box<[(Opd, i64, u32)]> },
    Select { d: u32, ty: TyId, c: Opd, a: Opd, b: Opd, vec: bool },
    Alloca { d: u32, size: u64, n: Option<(Opd, u32)> },
    Call { d: u32, ty: TyId, callee: Callee, args: Box<[(TyId, Opd)]>, normal: u32 },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { ty: TyId, v: Opd, def: u32, cases: Box<[(u64, u32)]> },
    Ret { ty: TyId, v: Option<Opd> },
    Unreachable,
    ExtractValue { d: u32, a: Opd, idx: Box<[u32]>, ty: TyId },
    InsertValue { d: u32, ty: TyId, a: Opd, v: Opd, idx: Box<[u32]> },
    ExtractElem { d: u32, ty: TyId, a: Opd, i: Opd },
    InsertElem { d: u32, ty: TyId, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: TyId, a: Opd, b: Opd, mask: Box<[i32]> },
    Rmw { d: u32, op: RmwOp, ty: TyId, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: TyId, p: Opd, c: Opd, n: Opd },
    Nop,
    Bad(String),
}
pub const NOREG: u32 = u32::MAX;
pub const NOBLK: u32 = u32::MAX;

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub consts: Vec<(TyId, Cst)>,
}

#[derive(Clone, Debug)]
pub enum GKind {
    Global(u32),
    Func(u32),
    Alias(String),
}

pub struct GlobalDef {
    pub name: String,
    pub start: usize, // offset just after '='
    pub tls: bool,
    pub external: bool,
    pub constant: bool,
    pub ty: TyId,
    pub size: u64,
}
pub struct FnDef {
    pub name: String,
    pub start: usize, // offset of 'define' / 'declare'
    pub body: Option<(usize, usize)>,
}

pub const FN_BASE: u64 = 0x6fff_ffff;
pub fn global_addr(g: u32) -> u64 {
    ((g as u64) + 1) << 32
}
pub fn fn_addr(f: u32) -> u64 {
    (FN_BASE << 32) + ((f as u64) + 1) * 16
}
pub fn addr_fn(a: u64) -> Option<u32> {
    if a >> 32 == FN_BASE && a & 15 == 0 && a as u32 > 0 {
        Some(((a & 0xffff_ffff) / 16 - 1) as u32)
    } else {
        None
    }
}

pub struct Module {
    pub text: &'static str,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    named_src: HashMap<String, usize>,
    lay: Vec<Option<Layout>>,
    pub syms: HashMap<String, GKind>,
    pub globals: Vec<GlobalDef>,
    pub fns: Vec<FnDef>,
}

type R<T> = Result<T, String>;

struct Ps<'m> {
    lx: Lexer<'static>,
    t: Tok<'static>,
    m: &'m mut Module,
}

impl Module {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.lay.push(None);
        self.tymap.insert(t, i);
        i
    }
    pub fn load(text: &'static str) -> Module {
        let mut m = Module {
            text,
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            named_src: HashMap::new(),
            lay: vec![],
            syms: HashMap::new(),
            globals: vec![],
            fns: vec![],
        };
        m.intern(Ty::Void);
        let b = text.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = text[p..].find('\n').map(|x| p + x).unwrap_or(b.len());
            let line = &text[p..e];
            if line.starts_with('%') {
                let mut lx = Lexer::new(text);
                lx.p = p;
                if let Tok::Local(n) = lx.next() {
                    lx.next(); // =
                    lx.next(); // type
                    m.named_src.insert(n.to_string(), lx.p);
                }
            } else if line.starts_with('@') {
                let mut lx = Lexer::new(text);
                lx.p = p;
                if let Tok::Global(n) = lx.next() {
                    lx.next();
                    let at = lx.p;
                    let rest = &text[at..e];
                    if rest.contains(" alias ") && !rest.contains(" constant ") && !rest.contains(" global ") {
                        let t = rest.rfind('@').map(|i| rest[i + 1..].to_string()).unwrap_or_default();
                        let t = t.split(|c: char| c == ',' || c == ' ').next().unwrap().trim_matches('"').to_string();
                        m.syms.insert(n.to_string(), GKind::Alias(t));
                    } else {
                        let id = m.globals.len() as u32;
                        m.globals.push(GlobalDef {
                            name: n.to_string(),
                            start: at,
                            tls: rest.contains("thread_local"),
                            external: rest.starts_with(" external") || rest.starts_with(" extern_weak"),
                            constant: false,
                            ty: 0,
                            size: 0,
                        });
                        m.syms.insert(n.to_string(), GKind::Global(id));
                    }
                }
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let mut lx = Lexer::new(text);
                lx.p = p + at;
                let n = if let Tok::Global(n) = lx.next() { n } else { panic!("fn name") };
                let id = m.fns.len() as u32;
                let mut body = None;
                let mut ne = e;
                if line.starts_with("define") {
                    let end = text[e..].find("\n}").map(|x| e + x).unwrap_or(b.len());
                    body = Some((e, end + 1));
                    ne = end + 2;
                }
                m.fns.push(FnDef { name: n.to_string(), start: p, body });
                m.syms.insert(n.to_string(), GKind::Func(id));
                p = ne + 1;
                continue;
            }
            p = e + 1;
        }
        m
    }
    pub fn layout(&mut self, t: TyId) -> Layout {
        if let Some(l) = &self.lay[t as usize] {
            return l.clone();
        }
        let l = match self.tys[t as usize].clone() {
            Ty::Void | Ty::Opaque => Layout { size: 0, align: 1, offs: vec![] },
            Ty::Int(w) => {
                let by = (w as u64 + 7) / 8;
                let al = by.next_power_of_two().min(16);
                Layout { size: (by + al - 1) / al * al, align: al, offs: vec![] }
            }
            Ty::Ptr => Layout { size: 8, align: 8, offs: vec![] },
            Ty::F32 => Layout { size: 4, align: 4, offs: vec![] },
            Ty::F64 => Layout { size: 8, align: 8, offs: vec![] },
            Ty::FOther(w) => Layout { size: (w / 8) as u64, align: ((w / 8) as u64).next_power_of_two(), offs: vec![] },
            Ty::Array(n, e) => {
                let l = self.layout(e);
                Layout { size: l.size * n, align: l.align, offs: vec![] }
            }
            Ty::Vector(n, e) => {
                let bits = match self.tys[e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.layout(e).size * 8,
                };
                let by = (bits * n + 7) / 8;
                Layout { size: by, align: by.next_power_of_two(), offs: vec![] }
            }
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                let mut al = 1;
                let mut offs = vec![];
                for f in fs {
                    let l = self.layout(f);
                    if !packed {
                        o = (o + l.align - 1) / l.align * l.align;
                        al = al.max(l.align);
                    }
                    offs.push(o);
                    o += l.size;
                }
                o = (o + al - 1) / al * al;
                Layout { size: o, align: al, offs }
            }
        };
        self.lay[t as usize] = Some(l.clone());
        l
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::FOther(w) => w,
            _ => 0,
        }
    }
    fn named_ty(&mut self, n: &str) -> R<TyId> {
        if let Some(&t) = self.named.get(n) {
            return Ok(t);
        }
        let src = *self.named_src.get(n).ok_or_else(|| format!("named type {n}"))?;
        let t = {
            let mut ps = Ps::at(self, src);
            ps.ty()?
        };
        self.named.insert(n.to_string(), t);
        Ok(t)
    }
    pub fn sym_addr(&mut self, n: &str) -> R<u64> {
        match self.syms.get(n).cloned() {
            Some(GKind::Global(g)) => Ok(global_addr(g)),
            Some(GKind::Func(f)) => Ok(fn_addr(f)),
            Some(GKind::Alias(t)) => self.sym_addr(&t),
            None => Err(format!("unknown symbol @{n}")),
        }
    }
    /// Parse the type (and size) of every global
    pub fn prep_globals(&mut self) -> R<()> {
        for g in 0..self.globals.len() {
            let start = self.globals[g].start;
            let (ty, cons) = {
                let mut ps = Ps::at(self, start);
                let mut cons = false;
                loop {
                    match ps.t.clone() {
                        Tok::Word("global") => {
                            ps.adv();
                            break;
                        }
                        Tok::Word("constant") => {
                            cons = true;
                            ps.adv();
                            break;
                        }
                        Tok::Eof | Tok::Nl => return Err("global".into()),
                        _ => ps.adv(),
                    }
                }
                (ps.ty()?, cons)
            };
            let l = self.layout(ty);
            let gd = &mut self.globals[g];
            gd.ty = ty;
            gd.size = l.size;
            gd.constant = cons;
        }
        Ok(())
    }
    pub fn global_init(&mut self, g: usize) -> R<Cst> {
        if self.globals[g].external {
            return Ok(Cst::Zero);
        }
        let start = self.globals[g].start;
        let mut ps = Ps::at(self, start);
        loop {
            match ps.t.clone() {
                Tok::Word("global") | Tok::Word("constant") => {
                    ps.adv();
                    break;
                }
                _ => ps.adv(),
            }
        }
        let ty = ps.ty()?;
        ps.cst(ty)
    }
    pub fn cst_bytes(&mut self, t: TyId, c: &Cst, out: &mut [u8]) {
        let l = self.layout(t);
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::I(v) => {
                let n = (l.size as usize).min(8);
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Cst::Big(v) => {
                let n = (l.size as usize).min(16);
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Cst::Agg(vs) => match self.tys[t as usize].clone() {
                Ty::Array(_, e) | Ty::Vector(_, e) => {
                    let es = self.layout(e).size as usize;
                    for (i, v) in vs.iter().enumerate() {
                        self.cst_bytes(e, v, &mut out[i * es..(i + 1) * es]);
                    }
                }
                Ty::Struct(_, fs) => {
                    for (i, v) in vs.iter().enumerate() {
                        let o = l.offs[i] as usize;
                        let s = self.layout(fs[i]).size as usize;
                        self.cst_bytes(fs[i], v, &mut out[o..o + s]);
                    }
                }
                _ => {}
            },
        }
    }
    pub fn parse_fn(&mut self, f: u32) -> R<Func> {
        let start = self.fns[f as usize].start;
        let name = self.fns[f as usize].name.clone();
        let ps = Ps::at(self, start);
        ps.func(name)
    }
}

fn cst_trunc(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}
fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap_or(0)).wrapping_neg()
    } else if let Some(r) = s.strip_prefix("u0x") {
        u128::from_str_radix(r, 16).unwrap_or(0)
    } else {
        s.parse::<u128>().unwrap_or(0)
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    order: Vec<Block>,
    consts: Vec<(TyId, Cst)>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.order.len() as u32;
        self.blocks.insert(n.to_string(), r);
        self.order.push(Block::default());
        r
    }
}

impl<'m> Ps<'m> {
    fn at(m: &'m mut Module, p: usize) -> Ps<'m> {
        let mut lx = Lexer::new(m.text);
        lx.p = p;
        lx.line_start = p == 0 || m.text.as_bytes()[p - 1] == b'\n';
        let t = lx.next();
        Ps { lx, t, m }
    }
    fn adv(&mut self) {
        self.t = self.lx.next();
    }
    fn is_p(&self, c: u8) -> bool {
        self.t == Tok::P(c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.t, Tok::Word(x) if x == w)
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.is_p(c) {
            self.adv();
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} near {:?}", c as char, self.t, &self.m.text[self.lx.p.saturating_sub(100)..self.lx.p]))
        }
    }
    fn skip_nl(&mut self) {
        while self.t == Tok::Nl {
            self.adv();
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.t {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        self.adv();
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
            self.adv();
        }
    }
    fn is_ty_start(&self) -> bool {
        match self.t {
            Tok::Word(w) => {
                matches!(w, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "opaque")
                    || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<TyId> {
        let r = match self.t.clone() {
            Tok::Word(w) => {
                self.adv();
                match w {
                    "ptr" => {
                        if self.is_w("addrspace") {
                            self.adv();
                            self.skip_paren();
                        }
                        self.m.intern(Ty::Ptr)
                    }
                    "void" => self.m.intern(Ty::Void),
                    "float" => self.m.intern(Ty::F32),
                    "double" => self.m.intern(Ty::F64),
                    "half" | "bfloat" => self.m.intern(Ty::FOther(16)),
                    "x86_fp80" => self.m.intern(Ty::FOther(128)),
                    "fp128" => self.m.intern(Ty::FOther(128)),
                    "opaque" | "label" | "metadata" | "token" => self.m.intern(Ty::Opaque),
                    _ if w.starts_with('i') => {
                        let n = w[1..].parse::<u32>().map_err(|_| format!("type {w}"))?;
                        self.m.intern(Ty::Int(n))
                    }
                    _ => return Err(format!("type word {w} near {:?}", &self.m.text[self.lx.p.saturating_sub(100)..self.lx.p])),
                }
            }
            Tok::Local(n) => {
                self.adv();
                self.m.named_ty(n)?
            }
            Tok::P(b'[') => {
                self.adv();
                let n = self.num()?;
                self.adv(); // x
                let e = self.ty()?;
                self.expect(b']')?;
                self.m.intern(Ty::Array(n, e))
            }
            Tok::P(b'{') => {
                let fs = self.struct_fields()?;
                self.m.intern(Ty::Struct(false, fs))
            }
            Tok::P(b'<') => {
                self.adv();
                if self.is_p(b'{') {
                    let fs = self.struct_fields()?;
                    self.expect(b'>')?;
                    self.m.intern(Ty::Struct(true, fs))
                } else {
                    let n = self.num()?;
                    self.adv(); // x
                    let e = self.ty()?;
                    self.expect(b'>')?;
                    self.m.intern(Ty::Vector(n, e))
                }
            }
            ref t => return Err(format!("type at {:?}", t)),
        };
        Ok(r)
    }
    fn struct_fields(&mut self) -> R<Vec<TyId>> {
        self.expect(b'{')?;
        let mut v = vec![];
        while !self.is_p(b'}') {
            v.push(self.ty()?);
            if self.is_p(b',') {
                self.adv();
            }
        }
        self.adv();
        Ok(v)
    }
    fn num(&mut self) -> R<u64> {
        if let Tok::Int(s) = self.t {
            self.adv();
            Ok(parse_int(s) as u64)
        } else {
            Err(format!("number at {:?}", self.t))
        }
    }
    fn float_const(&self, s: &str, ty: TyId) -> u64 {
        let f = if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
        } else {
            s.parse::<f64>().unwrap_or(0.0)
        };
        match self.m.tys[ty as usize] {
            Ty::F32 => (f as f32).to_bits() as u64,
            _ => f.to_bits(),
        }
    }
    fn cst(&mut self, ty: TyId) -> R<Cst> {
        match self.t.clone() {
            Tok::Int(s) => {
                self.adv();
                match self.m.tys[ty as usize] {
                    Ty::Int(w) => {
                        let v = cst_trunc(parse_int(s), w);
                        if w > 64 { Ok(Cst::Big(v)) } else { Ok(Cst::I(v as u64)) }
                    }
                    _ => Ok(Cst::I(self.float_const(s, ty))),
                }
            }
            Tok::CStr(s) => {
                self.adv();
                let mut v = vec![];
                let b = s.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                        v.push(Cst::I(u64::from_str_radix(h, 16).unwrap()));
                        i += 3;
                    } else {
                        v.push(Cst::I(b[i] as u64));
                        i += 1;
                    }
                }
                Ok(Cst::Agg(v))
            }
            Tok::Global(n) => {
                self.adv();
                Ok(Cst::I(self.m.sym_addr(n)?))
            }
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if self.is_p(b'[') { b']' } else { b'}' };
                self.adv();
                let v = self.cst_list(close)?;
                Ok(Cst::Agg(v))
            }
            Tok::P(b'<') => {
                self.adv();
                if self.is_p(b'{') {
                    self.adv();
                    let v = self.cst_list(b'}')?;
                    self.expect(b'>')?;
                    Ok(Cst::Agg(v))
                } else {
                    let v = self.cst_list(b'>')?;
                    Ok(Cst::Agg(v))
                }
            }
            Tok::Word(w) => {
                self.adv();
                match w {
                    "true" => Ok(Cst::I(1)),
                    "false" | "null" => Ok(Cst::I(0)),
                    "none" => Ok(Cst::I(0)),
                    "zeroinitializer" => Ok(Cst::Zero),
                    "undef" | "poison" => Ok(Cst::Undef),
                    "getelementptr" => {
                        while !self.is_p(b'(') {
                            if self.is_w("inrange") {
                                self.adv();
                                self.skip_paren();
                            } else {
                                self.adv();
                            }
                        }
                        self.adv();
                        let et = self.ty()?;
                        self.expect(b',')?;
                        let pt = self.ty()?;
                        let base = self.cst(pt)?;
                        let mut idx = vec![];
                        while self.is_p(b',') {
                            self.adv();
                            let it = self.ty()?;
                            let c = self.cst(it)?;
                            let w = self.m.bits(it);
                            let v = if let Cst::I(v) = c { sext64(v, w) } else { 0 };
                            idx.push(v);
                        }
                        self.expect(b')')?;
                        let mut off = 0i64;
                        let mut t = et;
                        for (k, i) in idx.iter().enumerate() {
                            if k == 0 {
                                off += self.m.layout(t).size as i64 * i;
                            } else {
                                let (o, nt) = self.step(t, *i)?;
                                off += o;
                                t = nt;
                            }
                        }
                        let b = if let Cst::I(v) = base { v } else { 0 };
                        Ok(Cst::I(b.wrapping_add(off as u64)))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                        self.expect(b'(')?;
                        let ft = self.ty()?;
                        let v = self.cst(ft)?;
                        self.adv(); // to
                        let tt = self.ty()?;
                        self.expect(b')')?;
                        let (fw, tw) = (self.m.bits(ft), self.m.bits(tt));
                        Ok(match v {
                            Cst::I(x) => {
                                let x = if w == "sext" { sext64(x, fw) as u64 } else { x };
                                Cst::I(cst_trunc(x as u128, tw.max(1).min(64)) as u64)
                            }
                            o => o,
                        })
                    }
                    "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                        while !self.is_p(b'(') {
                            self.adv();
                        }
                        self.adv();
                        let t1 = self.ty()?;
                        let a = self.cst(t1)?;
                        self.expect(b',')?;
                        let t2 = self.ty()?;
                        let b = self.cst(t2)?;
                        self.expect(b')')?;
                        let (x, y) = match (a, b) {
                            (Cst::I(x), Cst::I(y)) => (x, y),
                            _ => (0, 0),
                        };
                        let r = match w {
                            "add" => x.wrapping_add(y),
                            "sub" => x.wrapping_sub(y),
                            "xor" => x ^ y,
                            "and" => x & y,
                            "or" => x | y,
                            "mul" => x.wrapping_mul(y),
                            _ => x.wrapping_shl(y as u32),
                        };
                        Ok(Cst::I(cst_trunc(r as u128, self.m.bits(t1)) as u64))
                    }
                    "splat" => {
                        self.expect(b'(')?;
                        let et = self.ty()?;
                        let c = self.cst(et)?;
                        self.expect(b')')?;
                        let n = match self.m.tys[ty as usize] {
                            Ty::Vector(n, _) => n,
                            _ => 1,
                        };
                        Ok(Cst::Agg(vec![c; n as usize]))
                    }
                    _ => Err(format!("const word {w}")),
                }
            }
            ref t => Err(format!("const at {:?}", t)),
        }
    }
    fn cst_list(&mut self, close: u8) -> R<Vec<Cst>> {
        let mut v = vec![];
        while !self.is_p(close) {
            let t = self.ty()?;
            v.push(self.cst(t)?);
            if self.is_p(b',') {
                self.adv();
            }
        }
        self.adv();
        Ok(v)
    }
    fn step(&mut self, t: TyId, i: i64) -> R<(i64, TyId)> {
        match self.m.tys[t as usize].clone() {
            Ty::Array(_, e) | Ty::Vector(_, e) => Ok((self.m.layout(e).size as i64 * i, e)),
            Ty::Struct(_, fs) => {
                let l = self.m.layout(t);
                Ok((l.offs[i as usize] as i64, fs[i as usize]))
            }
            _ => Err("gep step".into()),
        }
    }

    // ---- functions
    fn opd(&mut self, ty: TyId, cx: &mut FnCtx) -> R<Opd> {
        if let Tok::Local(n) = self.t {
            self.adv();
            return Ok(Opd::R(cx.reg(n)));
        }
        let c = self.cst(ty)?;
        Ok(match c {
            Cst::I(v) => Opd::K(v),
            Cst::Zero | Cst::Undef if matches!(self.m.tys[ty as usize], Ty::Int(w) if w <= 64) || matches!(self.m.tys[ty as usize], Ty::Ptr | Ty::F32 | Ty::F64) => Opd::K(0),
            c => {
                cx.consts.push((ty, c));
                Opd::C(cx.consts.len() as u32 - 1)
            }
        })
    }
    fn ty_opd(&mut self, cx: &mut FnCtx) -> R<(TyId, Opd)> {
        let t = self.ty()?;
        let o = self.opd(t, cx)?;
        Ok((t, o))
    }
    fn skip_attrs(&mut self) {
        // skip parameter / return attributes
        loop {
            match self.t.clone() {
                Tok::Word(w) => {
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "splat" | "asm" | "none" | "add" | "sub" | "xor" | "blockaddress" | "and" | "or" | "mul") {
                        return;
                    }
                    if self.is_ty_start() {
                        return;
                    }
                    self.adv();
                    if w == "align" {
                        if let Tok::Int(_) = self.t {
                            self.adv();
                        }
                    }
                    if self.is_p(b'(') {
                        self.skip_paren();
                    }
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.is_p(b'=') {
                        self.adv();
                        self.adv();
                    }
                }
                Tok::Attr => self.adv(),
                _ => return,
            }
        }
    }
    fn eol(&mut self) {
        while self.t != Tok::Nl && self.t != Tok::Eof {
            self.adv();
        }
    }
    fn label(&mut self, cx: &mut FnCtx) -> R<u32> {
        self.adv(); // 'label'
        if let Tok::Local(n) = self.t {
            self.adv();
            Ok(cx.blk(n))
        } else {
            Err("label".into())
        }
    }
    fn func(mut self, name: String) -> R<Func> {
        let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), order: vec![], consts: vec![] };
        // header
        while !matches!(self.t, Tok::Global(_)) {
            self.adv();
        }
        self.adv();
        self.expect(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !self.is_p(b')') {
            if self.t == Tok::Dots {
                self.adv();
                continue;
            }
            let _t = self.ty()?;
            self.skip_attrs();
            if let Tok::Local(n) = self.t {
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                params.push(cx.reg(n));
                self.adv();
            } else {
                params.push(cx.reg(&format!("$p{}", params.len())));
            }
            if self.is_p(b',') {
                self.adv();
            }
        }
        while !self.is_p(b'{') {
            self.adv();
        }
        self.adv();
        self.skip_nl();
        let mut cur: u32;
        if let Tok::Label(l) = self.t {
            cur = cx.blk(l);
            self.adv();
        } else {
            cur = cx.blk(&unnamed.to_string());
        }
        loop {
            self.skip_nl();
            match self.t.clone() {
                Tok::P(b'}') | Tok::Eof => break,
                Tok::Label(l) => {
                    cur = cx.blk(l);
                    self.adv();
                    continue;
                }
                _ => {}
            }
            let mut d = NOREG;
            if let Tok::Local(n) = self.t {
                d = cx.reg(n);
                self.adv();
                self.expect(b'=')?;
            }
            if let Tok::Word("phi") = self.t {
                self.adv();
                let t = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect(b'[')?;
                    let v = self.opd(t, &mut cx)?;
                    self.expect(b',')?;
                    if let Tok::Local(n) = self.t {
                        inc.push((cx.blk(n), v));
                    }
                    self.adv();
                    self.expect(b']')?;
                    if self.is_p(b',') {
                        self.adv();
                        if self.is_p(b'[') {
                            continue;
                        }
                    }
                    break;
                }
                self.eol();
                cx.order[cur as usize].phis.push(Phi { d, inc });
                continue;
            }
            let inst = match self.inst(d, &mut cx) {
                Ok(i) => i,
                Err(e) => {
                    // An instruction we cannot decode only matters if reached
                    Inst::Bad(e)
                }
            };
            self.eol();
            cx.order[cur as usize].insts.push(inst);
        }
        Ok(Func { name, nregs: cx.regs.len() as u32, params, blocks: cx.order, consts: cx.consts })
    }
    fn skip_flags(&mut self) {
        while let Tok::Word(w) = self.t {
            if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inrange") {
                self.adv();
                if w == "inrange" && self.is_p(b'(') {
                    self.skip_paren();
                }
            } else {
                break;
            }
        }
    }
    fn inst(&mut self, d: u32, cx: &mut FnCtx) -> R<Inst> {
        let w = match self.t.clone() {
            Tok::Word(w) => w,
            t => return Err(format!("inst at {:?}", t)),
        };
        self.adv();
        let bin = match w {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(op) = bin {
            self.skip_flags();
            let ty = self.ty()?;
            let a = self.opd(ty, cx)?;
            self.expect(b',')?;
            let b = self.opd(ty, cx)?;
            let wd = self.m.bits(ty);
            return Ok(Inst::Bin { op, d, ty, w: wd, a, b });
        }
        let cast = match w {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::BitCast),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            _ => None,
        };
        if let Some(op) = cast {
            self.skip_flags();
            let (from, a) = self.ty_opd(cx)?;
            self.adv(); // to
            let to = self.ty()?;
            return Ok(Inst::Cast { op, d, from, to, a });
        }
        match w {
            "freeze" => {
                let (t, a) = self.ty_opd(cx)?;
                Ok(Inst::Cast { op: CastOp::Freeze, d, from: t, to: t, a })
            }
            "fneg" => {
                self.skip_flags();
                let (t, a) = self.ty_opd(cx)?;
                Ok(Inst::FNeg { d, ty: t, a })
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.t.clone() {
                    Tok::Word(x) => match x {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                self.adv();
                let ty = self.ty()?;
                let a = self.opd(ty, cx)?;
                self.expect(b',')?;
                let b = self.opd(ty, cx)?;
                let wd = self.m.bits(ty);
                Ok(Inst::Icmp { p, d, ty, w: wd, a, b })
            }
            "fcmp" => {
                self.skip_flags();
                let p = if let Tok::Word(x) = self.t { x.to_string() } else { return Err("fcmp".into()) };
                self.adv();
                let ty = self.ty()?;
                let a = self.opd(ty, cx)?;
                self.expect(b',')?;
                let b = self.opd(ty, cx)?;
                Ok(Inst::Fcmp { p, d, ty, a, b })
            }
            "load" => {
                if self.is_w("atomic") {
                    self.adv();
                }
                self.skip_flags();
                let ty = self.ty()?;
                self.expect(b',')?;
                let (_, p) = self.ty_opd(cx)?;
                Ok(Inst::Load { d, ty, p })
            }
            "store" => {
                if self.is_w("atomic") {
                    self.adv();
                }
                self.skip_flags();
                let (ty, v) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, p) = self.ty_opd(cx)?;
                Ok(Inst::Store { ty, v, p })
            }
            "getelementptr" => {
                self.skip_flags();
                let et = self.ty()?;
                self.expect(b',')?;
                let (bt, base) = self.ty_opd(cx)?;
                if matches!(self.m.tys[bt as usize], Ty::Vector(..)) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut terms: Vec<(Opd, i64, u32)> = vec![];
                let mut t = et;
                let mut k = 0;
                while self.is_p(b',') {
                    self.adv();
                    if self.t == Tok::Meta {
                        break;
                    }
                    let (it, o) = self.ty_opd(cx)?;
                    let iw = self.m.bits(it);
                    if k == 0 {
                        let sz = self.m.layout(t).size as i64;
                        match o {
                            Opd::K(v) => off = off.wrapping_add(sext64(v, iw).wrapping_mul(sz)),
                            o => terms.push((o, sz, iw)),
                        }
                    } else {
                        match o {
                            Opd::K(v) => {
                                let (o2, nt) = self.step(t, sext64(v, iw))?;
                                off = off.wrapping_add(o2);
                                t = nt;
                            }
                            o => {
                                let (sz, nt) = match self.m.tys[t as usize].clone() {
                                    Ty::Array(_, e) | Ty::Vector(_, e) => (self.m.layout(e).size as i64, e),
                                    _ => return Err("gep".into()),
                                };
                                terms.push((o, sz, iw));
                                t = nt;
                            }
                        }
                    }
                    k += 1;
                }
                Ok(Inst::Gep { d, base, off, terms: terms.into() })
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (ty, a) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, b) = self.ty_opd(cx)?;
                let vec = matches!(self.m.tys[ct as usize], Ty::Vector(..));
                Ok(Inst::Select { d, ty, c, a, b, vec })
            }
            "alloca" => {
                if self.is_w("inalloca") {
                    self.adv();
                }
                let t = self.ty()?;
                let size = self.m.layout(t).size;
                let mut n = None;
                if self.is_p(b',') {
                    self.adv();
                    if self.is_ty_start() {
                        let (nt, o) = self.ty_opd(cx)?;
                        n = Some((o, self.m.bits(nt)));
                    }
                }
                Ok(Inst::Alloca { d, size, n })
            }
            "tail" | "musttail" | "notail" => {
                self.adv(); // call
                self.call(d, cx, false)
            }
            "call" => self.call(d, cx, false),
            "invoke" => self.call(d, cx, true),
            "br" => {
                if self.is_w("label") {
                    let b = self.label(cx)?;
                    Ok(Inst::Br(b))
                } else {
                    let (_, c) = self.ty_opd(cx)?;
                    self.expect(b',')?;
                    let t = self.label(cx)?;
                    self.expect(b',')?;
                    let f = self.label(cx)?;
                    Ok(Inst::CondBr { c, t, f })
                }
            }
            "switch" => {
                let (ty, v) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let def = self.label(cx)?;
                self.expect(b'[')?;
                self.skip_nl();
                let mut cases = vec![];
                while !self.is_p(b']') {
                    let t = self.ty()?;
                    let c = self.cst(t)?;
                    self.expect(b',')?;
                    let l = self.label(cx)?;
                    if let Cst::I(c) = c {
                        cases.push((c, l));
                    } else {
                        return Err("switch const".into());
                    }
                    self.skip_nl();
                }
                self.adv();
                Ok(Inst::Switch { ty, v, def, cases: cases.into() })
            }
            "ret" => {
                if self.is_w("void") {
                    return Ok(Inst::Ret { ty: 0, v: None });
                }
                let (ty, v) = self.ty_opd(cx)?;
                Ok(Inst::Ret { ty, v: Some(v) })
            }
            "unreachable" => Ok(Inst::Unreachable),
            "extractvalue" => {
                let (ty, a) = self.ty_opd(cx)?;
                let mut idx = vec![];
                while self.is_p(b',') {
                    self.adv();
                    if let Tok::Int(_) = self.t {
                        idx.push(self.num()? as u32);
                    }
                }
                Ok(Inst::ExtractValue { d, a, idx: idx.into(), ty })
            }
            "insertvalue" => {
                let (ty, a) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, v) = self.ty_opd(cx)?;
                let mut idx = vec![];
                while self.is_p(b',') {
                    self.adv();
                    if let Tok::Int(_) = self.t {
                        idx.push(self.num()? as u32);
                    }
                }
                Ok(Inst::InsertValue { d, ty, a, v, idx: idx.into() })
            }
            "extractelement" => {
                let (ty, a) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, i) = self.ty_opd(cx)?;
                Ok(Inst::ExtractElem { d, ty, a, i })
            }
            "insertelement" => {
                let (ty, a) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, v) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, i) = self.ty_opd(cx)?;
                Ok(Inst::InsertElem { d, ty, a, v, i })
            }
            "shufflevector" => {
                let (ty, a) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, b) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let mt = self.ty()?;
                let m = self.cst(mt)?;
                let n = match self.m.tys[mt as usize] {
                    Ty::Vector(n, _) => n,
                    _ => 0,
                };
                let mask: Vec<i32> = match m {
                    Cst::Agg(v) => v.iter().map(|c| if let Cst::I(x) = c { *x as i32 } else { -1 }).collect(),
                    Cst::Zero => vec![0; n as usize],
                    _ => vec![-1; n as usize],
                };
                Ok(Inst::Shuffle { d, ty, a, b, mask: mask.into() })
            }
            "atomicrmw" => {
                self.skip_flags();
                let op = match self.t.clone() {
                    Tok::Word(x) => match x {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => return Err("rmw".into()),
                    },
                    _ => return Err("rmw".into()),
                };
                self.adv();
                let (_, p) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (ty, v) = self.ty_opd(cx)?;
                Ok(Inst::Rmw { d, op, ty, p, v })
            }
            "cmpxchg" => {
                if self.is_w("weak") {
                    self.adv();
                }
                self.skip_flags();
                let (_, p) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (ty, c) = self.ty_opd(cx)?;
                self.expect(b',')?;
                let (_, n) = self.ty_opd(cx)?;
                Ok(Inst::CmpXchg { d, ty, p, c, n })
            }
            "fence" => Ok(Inst::Nop),
            "landingpad" => {
                // swallow the clauses (own lines)
                Ok(Inst::Bad("landingpad".into()))
            }
            "cleanup" | "catch" | "filter" | "to" => Ok(Inst::Nop),
            "resume" => Ok(Inst::Bad("resume".into())),
            _ => Err(format!("unknown instruction {w}")),
        }
    }
    fn call(&mut self, d: u32, cx: &mut FnCtx, invoke: bool) -> R<Inst> {
        // cc, attributes
        loop {
            match self.t.clone() {
                Tok::Word(w) if !self.is_ty_start() => {
                    self.adv();
                    if w == "align" || w == "cc" {
                        if let Tok::Int(_) = self.t {
                            self.adv();
                        }
                    }
                    if self.is_p(b'(') {
                        self.skip_paren();
                    }
                }
                Tok::Attr => self.adv(),
                _ => break,
            }
        }
        let ty = self.ty()?;
        if self.is_p(b'(') {
            self.skip_paren(); // function type
        }
        let mut is_asm = false;
        let callee = match self.t.clone() {
            Tok::Global(n) => {
                self.adv();
                let mut n = n.to_string();
                while let Some(GKind::Alias(t)) = self.m.syms.get(&n).cloned() {
                    n = t;
                }
                match self.m.syms.get(&n) {
                    Some(GKind::Func(f)) => Callee::Fn(*f),
                    _ => return Err(format!("callee {n}")),
                }
            }
            Tok::Local(n) => {
                self.adv();
                Callee::Ind(Opd::R(cx.reg(n)))
            }
            Tok::Word("asm") => {
                while !self.is_p(b'(') {
                    self.adv();
                }
                is_asm = true;
                Callee::Asm
            }
            Tok::Word(_) => {
                let pt = self.m.intern(Ty::Ptr);
                Callee::Ind(self.opd(pt, cx)?)
            }
            t => return Err(format!("callee {:?}", t)),
        };
        self.expect(b'(')?;
        let mut args = vec![];
        while !self.is_p(b')') {
            if let Tok::Word("metadata") = self.t {
                // debug/annotation call
                let mut depth = 0;
                loop {
                    match self.t {
                        Tok::P(b'(') => depth += 1,
                        Tok::P(b')') => {
                            if depth == 0 {
                                break;
                            }
                            depth -= 1;
                        }
                        Tok::Eof => break,
                        _ => {}
                    }
                    self.adv();
                }
                break;
            }
            let t = self.ty()?;
            self.skip_attrs();
            let o = self.opd(t, cx)?;
            args.push((t, o));
            if self.is_p(b',') {
                self.adv();
            }
        }
        self.adv();
        let mut normal = NOBLK;
        if invoke {
            // skip attrs and newline until "to"
            while !self.is_w("to") {
                if self.t == Tok::Eof {
                    return Err("invoke".into());
                }
                self.adv();
            }
            self.adv();
            normal = self.label(cx)?;
        }
        let _ = is_asm;
        Ok(Inst::Call { d, ty, callee, args: args.into(), normal })
    }
}

pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 || w == 0 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
