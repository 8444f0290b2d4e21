//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::smt::{CLit, Res, Sign, Smt};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    K(u64),
    E(E),
    A(Rc<Vec<Val>>),
}
use Val::K;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Box<HashMap<u32, (E, u8)>>>,
    pub stack: bool,
}
impl Obj {
    fn new(size: u64, stack: bool) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None, stack }
    }
}
#[derive(Clone)]
enum Slot {
    Lazy,
    Dead,
    Live(Rc<Obj>),
}
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Slot>>>,
    n: u32,
}
const CH: usize = 64;
impl Mem {
    fn push(&mut self, s: Slot) -> u32 {
        let i = self.n as usize;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(s);
        self.n += 1;
        i as u32
    }
    fn slot(&self, i: u32) -> Option<&Slot> {
        self.chunks.get(i as usize / CH).and_then(|c| c.get(i as usize % CH))
    }
    fn slot_mut(&mut self, i: u32) -> &mut Slot {
        &mut Rc::make_mut(&mut self.chunks[i as usize / CH])[i as usize % CH]
    }
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    d: u32,
    normal: u32,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    stack: Vec<Rc<Frame>>,
    top: Frame,
    mem: Mem,
    pc: Vec<E>,
    model: Rc<Vec<u128>>,
    epoch: u64,
    order: Rc<Vec<E>>, // symbols in creation order
    dom: Rc<Vec<[u64; 4]>>,
    ent: Rc<Vec<u64>>,
    pin: Rc<Vec<u64>>,
    known: Rc<HashMap<E, u64>>,
    mpc: Rc<Vec<E>>,
    panic_ok: bool,
    kf: Option<Rc<str>>,
    trace: Rc<Vec<u64>>,
    steps: u64,
    errno: Option<u32>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Violation { kind: String, msg: String, model: Option<Vec<u128>> },
    Unsupported(String),
    PanicOk,
    Limit(String),
}
type X<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub bt: Vec<String>,
    pub syms: Vec<(u32, u128)>,
    pub kf: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Special {
    None,
    Panic,
    Alloc,
    Dealloc,
    Realloc,
    AllocZ,
    Nop,
    RandKeys,
    Extern,
    Now,
}

pub struct Cfg {
    pub max_time: f64,
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub part: (usize, usize),
    pub replay: Option<Vec<u128>>,
    pub verbose: bool,
    pub enum_limit: usize,
}

pub struct Eng {
    pub m: Module,
    pub x: Ex,
    pub smt: Smt,
    fns: Vec<Option<Rc<Func>>>,
    special: Vec<Option<Special>>,
    pub used: HashSet<u32>,
    gcache: Vec<Option<Rc<Obj>>>,
    work: Vec<State>,
    bm: HashMap<E, [u64; 4]>,
    epoch: u64,
    symtab: HashMap<(u32, u32), E>,
    pub cfg: Cfg,
    pub t0: Instant,
    pub paths: u64,
    pub paths_panic_ok: u64,
    pub paths_infeasible: u64,
    pub paths_known: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub dom_decisions: u64,
    pub viol: Vec<Viol>,
    pub incomplete: BTreeMap<String, u64>,
    pub witness: BTreeMap<u64, u64>,
    pub traces: Vec<Vec<u64>>,
    pub known_hit: BTreeMap<String, String>,
    panic_names: HashMap<u32, ()>,
    pub prof: HashMap<String, (u64, f64)>,
    force: bool,
    combo_cache: HashMap<(Vec<u32>, Vec<[u64; 4]>, Vec<E>), Rc<(Vec<u32>, Vec<Vec<u8>>)>>,
    viol_paths: u64,
}

enum Br {
    T,
    F,
    Both(Option<Rc<Vec<u128>>>, Option<Rc<Vec<u128>>>, u64, u64),
}

fn tr(v: u64, w: u32) -> u64 {
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}

pub fn demangle(n: &str) -> String {
    // crude v0 demangling: the identifiers in order
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        let c = b[i];
        if c == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && (i == 2 || !b[i - 1].is_ascii_lowercase() || true) {
                i = j + 1;
                continue;
            }
        }
        if c.is_ascii_digit() && c != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
        }
        if c == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

impl Eng {
    pub fn new(mut m: Module, smt: Smt, cfg: Cfg) -> Eng {
        m.prep_globals().unwrap();
        let nf = m.fns.len();
        let ng = m.globals.len();
        Eng {
            m,
            x: Ex::new(),
            smt,
            fns: vec![None; nf],
            special: vec![None; nf],
            used: HashSet::new(),
            gcache: vec![None; ng],
            work: vec![],
            bm: HashMap::new(),
            epoch: 1,
            symtab: HashMap::new(),
            cfg,
            t0: Instant::now(),
            paths: 0,
            paths_panic_ok: 0,
            paths_infeasible: 0,
            paths_known: 0,
            forks: 0,
            steps: 0,
            asserts: 0,
            dom_decisions: 0,
            viol: vec![],
            incomplete: BTreeMap::new(),
            witness: BTreeMap::new(),
            traces: vec![],
            known_hit: BTreeMap::new(),
            panic_names: HashMap::new(),
            prof: HashMap::new(),
            force: false,
            combo_cache: HashMap::new(),
            viol_paths: 0,
        }
    }

    fn func(&mut self, f: u32) -> X<Rc<Func>> {
        if let Some(r) = &self.fns[f as usize] {
            return Ok(r.clone());
        }
        let r = self.m.parse_fn(f).map_err(|e| Stop::Unsupported(format!("parse {}: {e}", self.m.fns[f as usize].name)))?;
        let r = Rc::new(r);
        self.fns[f as usize] = Some(r.clone());
        self.used.insert(f);
        Ok(r)
    }

    fn classify(&mut self, f: u32) -> Special {
        if let Some(s) = self.special[f as usize] {
            return s;
        }
        let fd = &self.m.fns[f as usize];
        let n = &fd.name;
        let s = if n.starts_with("_R") {
            if n.ends_with("___rust_alloc") || n.ends_with("___rdl_alloc") {
                Special::Alloc
            } else if n.ends_with("___rust_dealloc") || n.ends_with("___rdl_dealloc") {
                Special::Dealloc
            } else if n.ends_with("___rust_realloc") || n.ends_with("___rdl_realloc") {
                Special::Realloc
            } else if n.ends_with("___rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") {
                Special::AllocZ
            } else if n.contains("no_alloc_shim_is_unstable") {
                Special::Nop
            } else if n.contains("20hashmap_random_keys") {
                Special::RandKeys
            } else if n.contains("_3std9panicking11panic_count") {
                Special::None
            } else if (n.contains("_4core9panicking") && !n.contains("drop_glue"))
                || n.contains("_3std9panicking11begin_panic")
                || n.contains("_3std9panicking15panic_with_hook")
                || n.contains("_4core6option13unwrap_failed")
                || n.contains("_4core6option13expect_failed")
                || n.contains("_4core6result13unwrap_failed")
                || n.contains("slice_index_fail")
                || n.contains("16slice_error_fail")
                || n.contains("17len_mismatch_fail")
                || n.contains("12handle_error") && n.contains("7raw_vec")
                || n.contains("18handle_alloc_error")
                || n.contains("17capacity_overflow")
                || n.contains("13assert_failed")
                || n.contains("_4cell22panic_already_borrowed")
                || n.contains("_4cell30panic_already_mutably_borrowed")
                || n.ends_with("_3std7process5abort")
                || n.ends_with("12___rust_abort")
            {
                self.panic_names.insert(f, ());
                Special::Panic
            } else if fd.body.is_none() {
                Special::Extern
            } else if n.contains("_3std4time7Instant3now") || n.contains("8cpu_time") && n.contains("ProcessTime3now") || n.contains("_3std4time10SystemTime3now") {
                Special::Now
            } else {
                Special::None
            }
        } else if fd.body.is_none() || n.starts_with("llvm.") || n.starts_with("__sym_") {
            Special::Extern
        } else {
            Special::None
        };
        self.special[f as usize] = Some(s);
        s
    }

    // ---------------------------------------------------------------- values
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            K(k) => self.x.c(*k as u128, w),
            Val::E(e) => *e,
            Val::A(_) => self.x.c(0, w),
        }
    }
    fn norm(&self, e: E) -> Val {
        match self.x.cv(e) {
            Some(v) if self.x.w(e) <= 64 => K(v as u64),
            _ => Val::E(e),
        }
    }
    fn pinned(&self, st: &State, e: E) -> bool {
        if st.pin.is_empty() {
            return false;
        }
        let s = self.x.sup(e);
        if s.len() > 64 {
            return false;
        }
        s.iter().all(|&s| st.pin.get(s as usize / 64).map_or(false, |b| b >> (s % 64) & 1 == 1))
    }
    /// replaces by its value when it depends on pinned symbols only
    fn simp(&mut self, st: &State, v: Val) -> Val {
        if let Val::E(e) = v {
            if self.x.w(e) <= 64 {
                if self.pinned(st, e) {
                    return K(self.x.eval(e, &st.model, st.epoch) as u64);
                }
                if let Some(&k) = st.known.get(&e) {
                    return K(k);
                }
            }
        }
        v
    }
    fn opd(&mut self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => {
                let v = st.top.regs[*r as usize].clone();
                if let Val::E(_) = v { self.simp(st, v) } else { v }
            }
            Opd::K(k) => K(*k),
            Opd::C(i) => {
                let f = st.top.f.clone();
                let (t, c) = &f.consts[*i as usize];
                self.cval(*t, c)
            }
        }
    }
    fn cval(&mut self, t: TyId, c: &Cst) -> Val {
        match (self.m.tys[t as usize].clone(), c) {
            (_, Cst::I(v)) => K(*v),
            (_, Cst::Big(v)) => {
                let w = self.m.bits(t);
                Val::E(self.x.c(*v, w))
            }
            (Ty::Array(n, e), Cst::Zero | Cst::Undef) | (Ty::Vector(n, e), Cst::Zero | Cst::Undef) => {
                let v = self.cval(e, &Cst::Zero);
                Val::A(Rc::new(vec![v; n as usize]))
            }
            (Ty::Struct(_, fs), Cst::Zero | Cst::Undef) => {
                let v = fs.iter().map(|&f| self.cval(f, &Cst::Zero)).collect();
                Val::A(Rc::new(v))
            }
            (Ty::Int(w), Cst::Zero | Cst::Undef) if w > 64 => Val::E(self.x.c(0, w)),
            (_, Cst::Zero | Cst::Undef) => K(0),
            (Ty::Array(_, e), Cst::Agg(vs)) | (Ty::Vector(_, e), Cst::Agg(vs)) => Val::A(Rc::new(vs.iter().map(|v| self.cval(e, v)).collect())),
            (Ty::Struct(_, fs), Cst::Agg(vs)) => Val::A(Rc::new(vs.iter().zip(fs).map(|(v, f)| self.cval(f, v)).collect())),
            _ => K(0),
        }
    }

    // ---------------------------------------------------------------- path condition
    fn new_epoch(&mut self) -> u64 {
        self.epoch += 1;
        self.epoch
    }
    fn byte_sym(&self, e: E) -> Option<u32> {
        let s = self.x.sup(e);
        if s.len() == 1 && self.x.syms[s[0] as usize] <= 8 { Some(s[0]) } else { None }
    }
    fn bitmap(&mut self, cond: E, s: u32) -> [u64; 4] {
        if let Some(b) = self.bm.get(&cond) {
            return *b;
        }
        let w = self.x.syms[s as usize];
        let mut r = [0u64; 4];
        let mut model = vec![0u128; s as usize + 1];
        for v in 0..(1usize << w) {
            model[s as usize] = v as u128;
            let ep = self.new_epoch();
            if self.x.eval(cond, &model, ep) == 1 {
                r[v / 64] |= 1 << (v % 64);
            }
        }
        self.bm.insert(cond, r);
        r
    }
    fn full_dom(&self, s: u32) -> [u64; 4] {
        let w = self.x.syms[s as usize];
        let mut r = [0u64; 4];
        for v in 0..(1usize << w) {
            r[v / 64] |= 1 << (v % 64);
        }
        r
    }
    fn dom(&self, st: &State, s: u32) -> [u64; 4] {
        st.dom.get(s as usize).copied().unwrap_or_else(|| self.full_dom(s))
    }
    fn is_ent(st: &State, s: u32) -> bool {
        st.ent.get(s as usize / 64).map_or(false, |b| b >> (s % 64) & 1 == 1)
    }
    fn set_bit(v: &mut Rc<Vec<u64>>, s: u32) {
        let i = s as usize / 64;
        if v.get(i).map_or(false, |b| b >> (s % 64) & 1 == 1) {
            return;
        }
        let m = Rc::make_mut(v);
        if m.len() <= i {
            m.resize(i + 1, 0);
        }
        m[i] |= 1 << (s % 64);
    }
    fn path_syms(&self, st: &State) -> Vec<u32> {
        st.order
            .iter()
            .map(|&e| match self.x.v[e as usize].n {
                N::Sym(s) => s,
                _ => u32::MAX,
            })
            .filter(|&s| s != u32::MAX)
            .collect()
    }
    /// All value combinations that the path allows for the bytes in `e` and the bytes linked
    /// to them by path constraints, when these are few. This is a complete case split
    /// over the remaining values, not a sample.
    fn combos(&mut self, st: &State, e: E) -> Option<Rc<(Vec<u32>, Vec<Vec<u8>>)>> {
        const LIM: u64 = 6000;
        let sup = self.x.sup(e);
        if sup.is_empty() || sup.len() > 10 {
            return None;
        }
        let mut syms: Vec<u32> = sup.to_vec();
        let mut cons: Vec<E> = vec![];
        if !st.mpc.is_empty() && syms.iter().any(|s| Self::is_ent(st, *s)) {
            let mut used = vec![false; st.mpc.len()];
            loop {
                let mut ch = false;
                for (i, &c) in st.mpc.iter().enumerate() {
                    if used[i] {
                        continue;
                    }
                    let cs = self.x.sup(c);
                    // symbols with a single value left do not link anything
                    if cs.iter().any(|s| syms.contains(s) && !Self::is_pin(st, *s)) {
                        used[i] = true;
                        ch = true;
                        cons.push(c);
                        for &s in cs {
                            if !syms.contains(&s) {
                                syms.push(s);
                            }
                        }
                        if syms.len() > 24 {
                            return None;
                        }
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let mut n = 1u64;
        for &s in &syms {
            if self.x.syms[s as usize] > 8 {
                return None;
            }
            n = n.saturating_mul(self.dom(st, s).iter().map(|x| x.count_ones() as u64).sum::<u64>());
            if n > LIM {
                return None;
            }
        }
        syms.sort_unstable();
        cons.sort_unstable();
        let doms: Vec<[u64; 4]> = syms.iter().map(|s| self.dom(st, *s)).collect();
        let key = (syms, doms, cons);
        if let Some(r) = self.combo_cache.get(&key) {
            return Some(r.clone());
        }
        let (syms, doms, cons) = &key;
        let vals: Vec<Vec<u8>> = doms.iter().map(|d| (0..256usize).filter(|v| d[v / 64] >> (v % 64) & 1 == 1).map(|v| v as u8).collect()).collect();
        let mut out = vec![];
        if vals.iter().all(|v| !v.is_empty()) {
            let mut m = (*st.model).clone();
            let mx = *syms.last().unwrap() as usize;
            if m.len() <= mx {
                m.resize(mx + 1, 0);
            }
            let mut ix = vec![0usize; syms.len()];
            'outer: loop {
                for (k, &s) in syms.iter().enumerate() {
                    m[s as usize] = vals[k][ix[k]] as u128;
                }
                let ep = self.new_epoch();
                if cons.iter().all(|c| self.x.eval(*c, &m, ep) == 1) {
                    out.push(ix.iter().enumerate().map(|(k, i)| vals[k][*i]).collect::<Vec<u8>>());
                }
                let mut k = 0;
                loop {
                    if k == syms.len() {
                        break 'outer;
                    }
                    ix[k] += 1;
                    if ix[k] < vals[k].len() {
                        break;
                    }
                    ix[k] = 0;
                    k += 1;
                }
            }
        }
        let r = Rc::new((syms.clone(), out));
        if self.combo_cache.len() > 4000 {
            self.combo_cache.clear();
        }
        self.combo_cache.insert(key, r.clone());
        Some(r)
    }
    fn is_pin(st: &State, s: u32) -> bool {
        st.pin.get(s as usize / 64).map_or(false, |b| b >> (s % 64) & 1 == 1)
    }
    /// which sides of `cond` are feasible on this path
    fn branch(&mut self, st: &State, cond: E) -> Br {
        if let Some(v) = self.x.cv(cond) {
            return if v == 1 { Br::T } else { Br::F };
        }
        let force = std::mem::replace(&mut self.force, false);
        if let (Some(s), false) = (self.byte_sym(cond), force) {
            let bm = self.bitmap(cond, s);
            let d = self.dom(st, s);
            let t: Vec<u64> = (0..4).map(|i| d[i] & bm[i]).collect();
            let f: Vec<u64> = (0..4).map(|i| d[i] & !bm[i]).collect();
            let te = t.iter().all(|x| *x == 0);
            let fe = f.iter().all(|x| *x == 0);
            if te || fe {
                self.dom_decisions += 1;
                return if fe { Br::T } else { Br::F };
            }
            if !Self::is_ent(st, s) {
                self.dom_decisions += 1;
                let cur = st.model.get(s as usize).copied().unwrap_or(0) as usize;
                let side = bm[cur / 64] >> (cur % 64) & 1 == 1;
                let pick = |v: &[u64]| -> u128 {
                    for i in 0..4 {
                        if v[i] != 0 {
                            return (i * 64) as u128 + v[i].trailing_zeros() as u128;
                        }
                    }
                    0
                };
                let other = if side { pick(&f) } else { pick(&t) };
                let mut m = (*st.model).clone();
                if m.len() <= s as usize {
                    m.resize(s as usize + 1, 0);
                }
                m[s as usize] = other;
                let ep = self.new_epoch();
                let om = Some(Rc::new(m));
                return if side { Br::Both(None, om, st.epoch, ep) } else { Br::Both(om, None, ep, st.epoch) };
            }
        }
        let cur = self.x.eval(cond, &st.model, st.epoch) == 1;
        if !force {
            if let Some(cb) = self.combos(st, cond) {
                let mut m = (*st.model).clone();
                let mx = *cb.0.last().unwrap() as usize;
                if m.len() <= mx {
                    m.resize(mx + 1, 0);
                }
                self.dom_decisions += 1;
                for t in &cb.1 {
                    for (k, &s) in cb.0.iter().enumerate() {
                        m[s as usize] = t[k] as u128;
                    }
                    let ep = self.new_epoch();
                    if (self.x.eval(cond, &m, ep) == 1) != cur {
                        let om = Some(Rc::new(m));
                        return if cur { Br::Both(None, om, st.epoch, ep) } else { Br::Both(om, None, ep, st.epoch) };
                    }
                }
                return if cur { Br::T } else { Br::F };
            }
        }
        let q = if cur { self.x.not1(cond) } else { cond };
        let syms = self.path_syms(st);
        let (r, m) = self.smt.check(&self.x, &st.pc, q, &st.model, &syms);
        match r {
            Res::Unsat => if cur { Br::T } else { Br::F },
            Res::Sat => {
                let ep = self.new_epoch();
                let m = Rc::new(m);
                debug_assert_eq!(self.x.eval(q, &m, ep), 1);
                if cur { Br::Both(None, Some(m), st.epoch, ep) } else { Br::Both(Some(m), None, ep, st.epoch) }
            }
            Res::Unknown => {
                *self.incomplete.entry("solver unknown on branch".into()).or_default() += 1;
                if cur { Br::T } else { Br::F }
            }
        }
    }
    fn add_pc(&mut self, st: &mut State, cond: E, model: Option<Rc<Vec<u128>>>, epoch: u64) {
        if self.x.cv(cond).is_some() {
            return;
        }
        st.pc.push(cond);
        if let Some(m) = model {
            st.model = m;
            st.epoch = epoch;
        }
        let sup: Vec<u32> = self.x.sup(cond).to_vec();
        if sup.len() == 1 {
            let s = sup[0];
            if self.x.syms[s as usize] <= 8 {
                let bm = self.bitmap(cond, s);
                let d = self.dom(st, s);
                let nd = [d[0] & bm[0], d[1] & bm[1], d[2] & bm[2], d[3] & bm[3]];
                if st.dom.len() <= s as usize {
                    let mut v = (*st.dom).clone();
                    while v.len() <= s as usize {
                        let k = v.len() as u32;
                        v.push(if self.x.syms[k as usize] <= 8 { self.full_dom(k) } else { [0; 4] });
                    }
                    st.dom = Rc::new(v);
                }
                Rc::make_mut(&mut st.dom)[s as usize] = nd;
                if nd.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    Self::set_bit(&mut st.pin, s);
                }
            } else if let N::Eq(a, b) = self.x.v[cond as usize].n {
                if matches!(self.x.v[a as usize].n, N::Sym(_)) && self.x.cv(b).is_some() {
                    Self::set_bit(&mut st.pin, s);
                }
            }
        } else {
            Rc::make_mut(&mut st.mpc).push(cond);
            for s in sup {
                Self::set_bit(&mut st.ent, s);
            }
        }
    }
    /// Forks on `cond`: the current state continues on the returned side, a sibling
    /// that re-executes the current instruction is queued for the other.
    fn decide(&mut self, st: &mut State, cond: E) -> bool {
        match self.branch(st, cond) {
            Br::T => true,
            Br::F => false,
            Br::Both(tm, fm, te, fe) => {
                self.forks += 1;
                let mut o = st.clone();
                let nc = self.x.not1(cond);
                self.add_pc(&mut o, nc, fm, fe);
                self.work.push(o);
                self.add_pc(st, cond, tm, te);
                true
            }
        }
    }
    fn decide_val(&mut self, st: &mut State, v: &Val) -> bool {
        match v {
            K(k) => *k & 1 == 1,
            Val::E(e) => self.decide(st, *e),
            _ => false,
        }
    }
    /// Pins an expression to one concrete value, forking over the others
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> X<u64> {
        let v = self.simp(st, v.clone());
        let e = match v {
            K(k) => return Ok(k),
            Val::E(e) => e,
            Val::A(_) => return Err(Stop::Unsupported("concretize aggregate".into())),
        };
        let cur = self.x.eval(e, &st.model, st.epoch);
        let c = self.x.c(cur, w);
        let q = self.x.eq(e, c);
        let both = match self.branch(st, q) {
            Br::T => false,
            Br::F => return Err(Stop::Unsupported("inconsistent model".into())),
            Br::Both(tm, fm, te, fe) => {
                self.forks += 1;
                let mut o = st.clone();
                let nc = self.x.not1(q);
                self.add_pc(&mut o, nc, fm, fe);
                self.work.push(o);
                self.add_pc(st, q, tm, te);
                true
            }
        };
        let _ = both;
        if !self.pinned(st, e) {
            Rc::make_mut(&mut st.known).insert(e, cur as u64);
        }
        Ok(cur as u64)
    }

    // ---------------------------------------------------------------- memory
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gcache[g as usize] {
            return o.clone();
        }
        let ty = self.m.globals[g as usize].ty;
        let size = self.m.globals[g as usize].size;
        let mut o = Obj::new(size.max(if self.m.globals[g as usize].external { 8 } else { 0 }), false);
        match self.m.global_init(g as usize) {
            Ok(c) => self.m.cst_bytes(ty, &c, &mut o.data),
            Err(e) => {
                if self.cfg.verbose {
                    eprintln!("global {}: {e}", self.m.globals[g as usize].name);
                }
            }
        }
        let o = Rc::new(o);
        self.gcache[g as usize] = Some(o.clone());
        o
    }
    fn viol<T>(kind: &str, msg: String) -> X<T> {
        Err(Stop::Violation { kind: kind.into(), msg, model: None })
    }
    fn obj_at(&mut self, st: &State, a: u64, n: u64) -> X<(u32, u32, Rc<Obj>)> {
        let id = (a >> 32) as u32;
        let off = a as u32;
        if id == 0 {
            return Self::viol("memory", format!("null/dangling dereference at {a:#x}"));
        }
        match st.mem.slot(id - 1) {
            None => Self::viol("memory", format!("wild pointer {a:#x}")),
            Some(Slot::Dead) => Self::viol("memory", format!("use after free at {a:#x}")),
            Some(Slot::Live(o)) => {
                if off as u64 + n > o.size {
                    return Self::viol("memory", format!("out of bounds: offset {off} + {n} of object size {}", o.size));
                }
                Ok((id - 1, off, o.clone()))
            }
            Some(Slot::Lazy) => {
                let o = self.gobj(id - 1);
                if off as u64 + n > o.size {
                    return Self::viol("memory", format!("out of bounds: offset {off} + {n} of global size {}", o.size));
                }
                Ok((id - 1, off, o))
            }
        }
    }
    fn with_obj<T>(&mut self, st: &mut State, a: u64, n: u64, f: impl FnOnce(&mut Self, &mut Obj, u32) -> T) -> X<T> {
        let (id, off, o) = self.obj_at(st, a, n)?;
        let sl = st.mem.slot_mut(id);
        if let Slot::Lazy = sl {
            *sl = Slot::Live(o);
        } else {
            drop(o);
        }
        let sl = st.mem.slot_mut(id);
        if let Slot::Live(rc) = sl {
            let ob = Rc::make_mut(rc);
            return Ok(f(self, ob, off));
        }
        unreachable!()
    }
    fn read_bytes(&mut self, o: &Obj, off: u32, n: u32) -> Val {
        // n <= 16
        if let Some(s) = &o.sym {
            let mut any = false;
            for i in 0..n {
                if s.contains_key(&(off + i)) {
                    any = true;
                    break;
                }
            }
            if any {
                // same expression, consecutive bytes?
                if let Some(&(e, b0)) = s.get(&off) {
                    let mut ok = true;
                    for i in 1..n {
                        match s.get(&(off + i)) {
                            Some(&(e2, b)) if e2 == e && b as u32 == b0 as u32 + i => {}
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        let r = self.byte_of(e, b0 as u32, n);
                        return self.norm(r);
                    }
                }
                let mut acc: Option<E> = None;
                for i in 0..n {
                    let b = match s.get(&(off + i)) {
                        Some(&(e, k)) => self.byte_of(e, k as u32, 1),
                        None => self.x.c(o.data[(off + i) as usize] as u128, 8),
                    };
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.x.cat(b, l),
                    });
                }
                return self.norm(acc.unwrap());
            }
        }
        let d = &o.data[off as usize..(off + n) as usize];
        if n <= 8 {
            let mut v = 0u64;
            for (i, b) in d.iter().enumerate() {
                v |= (*b as u64) << (8 * i);
            }
            K(v)
        } else {
            let mut v = 0u128;
            for (i, b) in d.iter().enumerate() {
                v |= (*b as u128) << (8 * i);
            }
            Val::E(self.x.c(v, 8 * n))
        }
    }
    fn byte_of(&mut self, e: E, b: u32, n: u32) -> E {
        let w = self.x.w(e);
        let (lo, len) = (8 * b, 8 * n);
        if lo >= w {
            return self.x.c(0, len);
        }
        if lo + len > w {
            let t = self.x.extract(e, lo, w - lo);
            return self.x.zext(t, len);
        }
        self.x.extract(e, lo, len)
    }
    fn write_val(&mut self, o: &mut Obj, off: u32, n: u32, v: &Val) {
        match v {
            K(k) => {
                let b = k.to_le_bytes();
                for i in 0..n {
                    o.data[(off + i) as usize] = if i < 8 { b[i as usize] } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s.remove(&(off + i));
                    }
                }
            }
            Val::E(e) => {
                if let Some(c) = self.x.cv(*e) {
                    let b = c.to_le_bytes();
                    for i in 0..n {
                        o.data[(off + i) as usize] = if i < 16 { b[i as usize] } else { 0 };
                    }
                    if let Some(s) = &mut o.sym {
                        for i in 0..n {
                            s.remove(&(off + i));
                        }
                    }
                    return;
                }
                // zero-extended value: keep upper bytes concrete
                let live = match self.x.v[*e as usize].n {
                    N::Z(i) => (self.x.w(i) + 7) / 8,
                    _ => n,
                };
                let s = o.sym.get_or_insert_with(Default::default);
                for i in 0..n {
                    if i < live {
                        s.insert(off + i, (*e, i as u8));
                    } else {
                        s.remove(&(off + i));
                        o.data[(off + i) as usize] = 0;
                    }
                }
            }
            Val::A(_) => {}
        }
    }
    fn load_at(&mut self, st: &State, ty: TyId, a: u64) -> X<Val> {
        match self.m.tys[ty as usize].clone() {
            Ty::Int(w) => {
                let n = (w + 7) / 8;
                let (_, off, o) = self.obj_at(st, a, n as u64)?;
                let v = self.read_bytes(&o, off, n);
                if w % 8 != 0 {
                    return Ok(match v {
                        K(k) => K(tr(k, w)),
                        Val::E(e) => {
                            let t = self.x.extract(e, 0, w);
                            self.norm(t)
                        }
                        v => v,
                    });
                }
                Ok(v)
            }
            Ty::Ptr | Ty::F64 => {
                let (_, off, o) = self.obj_at(st, a, 8)?;
                Ok(self.read_bytes(&o, off, 8))
            }
            Ty::F32 => {
                let (_, off, o) = self.obj_at(st, a, 4)?;
                Ok(self.read_bytes(&o, off, 4))
            }
            Ty::Vector(n, e) if self.m.bits(e) % 8 == 0 => {
                let es = self.m.bits(e) as u64 / 8;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(st, e, a + i * es)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, e) if self.m.bits(e) as u64 * n <= 64 => {
                // elements below a byte are packed, the first one lowest
                let ew = self.m.bits(e);
                let w = ew * n as u32;
                let nb = (w + 7) / 8;
                let (_, off, o) = self.obj_at(st, a, nb as u64)?;
                let x = self.read_bytes(&o, off, nb);
                let x = self.to_e(&x, nb * 8);
                let mut v = vec![];
                for i in 0..n as u32 {
                    let t = self.x.extract(x, i * ew, ew);
                    v.push(self.norm(t));
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, e) => {
                let es = self.m.layout(e).size;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(st, e, a + i * es)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(_, fs) => {
                let l = self.m.layout(ty);
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.load_at(st, *f, a + l.offs[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => Err(Stop::Unsupported(format!("load of {t:?}"))),
        }
    }
    fn store_at(&mut self, st: &mut State, ty: TyId, v: &Val, a: u64) -> X<()> {
        match self.m.tys[ty as usize].clone() {
            Ty::Int(w) => {
                let n = (w + 7) / 8;
                let v = match v {
                    Val::E(e) if w % 8 != 0 => Val::E(self.x.zext(*e, n * 8)),
                    v => v.clone(),
                };
                self.with_obj(st, a, n as u64, |s, o, off| s.write_val(o, off, n, &v))
            }
            Ty::Ptr | Ty::F64 => self.with_obj(st, a, 8, |s, o, off| s.write_val(o, off, 8, v)),
            Ty::F32 => self.with_obj(st, a, 4, |s, o, off| s.write_val(o, off, 4, v)),
            Ty::Vector(n, e) if self.m.bits(e) % 8 == 0 => {
                let es = self.m.bits(e) as u64 / 8;
                if let Val::A(vs) = v {
                    for i in 0..n {
                        self.store_at(st, e, &vs[i as usize], a + i * es)?;
                    }
                }
                Ok(())
            }
            Ty::Vector(n, e) if self.m.bits(e) as u64 * n <= 64 => {
                let (x, w) = self.bits_of_val(v, ty)?;
                let nb = (w + 7) / 8;
                let x = if nb * 8 > w { self.x.zext(x, nb * 8) } else { x };
                let x = self.norm(x);
                self.with_obj(st, a, nb as u64, |s, o, off| s.write_val(o, off, nb, &x))
            }
            Ty::Array(n, e) => {
                let es = self.m.layout(e).size;
                if let Val::A(vs) = v {
                    for i in 0..n {
                        self.store_at(st, e, &vs[i as usize], a + i * es)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(_, fs) => {
                let l = self.m.layout(ty);
                if let Val::A(vs) = v {
                    for (i, f) in fs.iter().enumerate() {
                        self.store_at(st, *f, &vs[i], a + l.offs[i])?;
                    }
                }
                Ok(())
            }
            t => Err(Stop::Unsupported(format!("store of {t:?}"))),
        }
    }
    /// constant leaves of an if-then-else tree
    fn leaves(&self, e: E, out: &mut Vec<u64>, budget: &mut usize) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        match self.x.v[e as usize].n {
            N::C(v) => {
                if !out.contains(&(v as u64)) {
                    out.push(v as u64);
                }
                true
            }
            N::Ite(_, a, b) => self.leaves(a, out, budget) && self.leaves(b, out, budget),
            _ => false,
        }
    }
    /// An over-approximation of the values of e on this path, if small
    fn values(&mut self, st: &State, e: E, limit: usize) -> Option<Vec<u64>> {
        if let Some(s) = self.byte_sym(e) {
            let d = self.dom(st, s);
            let w = self.x.syms[s as usize];
            let mut out = vec![];
            let mut model = vec![0u128; s as usize + 1];
            for v in 0..(1usize << w) {
                if d[v / 64] >> (v % 64) & 1 == 1 {
                    model[s as usize] = v as u128;
                    let ep = self.new_epoch();
                    let r = self.x.eval(e, &model, ep) as u64;
                    if !out.contains(&r) {
                        out.push(r);
                    }
                }
            }
            return if out.len() <= limit { Some(out) } else { None };
        }
        let mut out = vec![];
        let mut budget = 4 * limit;
        if self.leaves(e, &mut out, &mut budget) && out.len() <= limit {
            return Some(out);
        }
        if let Some(cb) = self.combos(st, e) {
            let mut m = (*st.model).clone();
            let mx = *cb.0.last().unwrap() as usize;
            if m.len() <= mx {
                m.resize(mx + 1, 0);
            }
            let mut out: Vec<u64> = vec![];
            for t in &cb.1 {
                for (k, &s) in cb.0.iter().enumerate() {
                    m[s as usize] = t[k] as u128;
                }
                let ep = self.new_epoch();
                let v = self.x.eval(e, &m, ep) as u64;
                if !out.contains(&v) {
                    if out.len() >= limit {
                        return None;
                    }
                    out.push(v);
                }
            }
            return Some(out);
        }
        // ask the solver
        let limit = limit.min(24);
        let mut out = vec![self.x.eval(e, &st.model, st.epoch) as u64];
        let w = self.x.w(e);
        let syms = self.path_syms(st);
        loop {
            let mut cond = self.x.c(1, 1);
            for &v in &out {
                let c = self.x.c(v as u128, w);
                let q = self.x.eq(e, c);
                let nq = self.x.not1(q);
                cond = self.x.bin(O::And, cond, nq);
            }
            let (r, m) = self.smt.check(&self.x, &st.pc, cond, &st.model, &syms);
            match r {
                Res::Unsat => return Some(out),
                Res::Sat => {
                    let ep = self.new_epoch();
                    out.push(self.x.eval(e, &m, ep) as u64);
                    if out.len() > limit {
                        return None;
                    }
                }
                Res::Unknown => return None,
            }
        }
    }
    fn load(&mut self, st: &mut State, ty: TyId, p: &Val) -> X<Val> {
        let e = match p {
            K(a) => return self.load_at(st, ty, *a),
            Val::E(e) => *e,
            _ => return Err(Stop::Unsupported("pointer aggregate".into())),
        };
        let lim = self.cfg.enum_limit;
        let scalar = self.m.bits(ty) > 0 && self.m.bits(ty) <= 64;
        if scalar {
            if let Some(vs) = self.values(st, e, lim) {
                let w = self.m.bits(ty);
                let mut acc: Option<E> = None;
                let mut bad = vec![];
                for a in vs.iter().rev() {
                    match self.load_at(st, ty, *a) {
                        Ok(v) => {
                            let ve = self.to_e(&v, w);
                            acc = Some(match acc {
                                None => ve,
                                Some(r) => {
                                    let c = self.x.c(*a as u128, 64);
                                    let q = self.x.eq(e, c);
                                    self.x.ite(q, ve, r)
                                }
                            });
                        }
                        Err(_) => bad.push(*a),
                    }
                }
                for a in bad {
                    // possible only if feasible
                    let c = self.x.c(a as u128, 64);
                    let q = self.x.eq(e, c);
                    if self.decide(st, q) {
                        return self.load_at(st, ty, a);
                    }
                }
                return match acc {
                    Some(r) => Ok(self.norm(r)),
                    None => Self::viol("memory", "symbolic load: no valid address".into()),
                };
            }
        }
        let a = self.concretize(st, p, 64)?;
        self.load_at(st, ty, a)
    }
    fn store(&mut self, st: &mut State, ty: TyId, v: &Val, p: &Val) -> X<()> {
        match p {
            K(a) => self.store_at(st, ty, v, *a),
            Val::E(e) => {
                let scalar = self.m.bits(ty) > 0 && self.m.bits(ty) <= 64;
                if scalar {
                    if let Some(vs) = self.values(st, *e, 16) {
                        let w = self.m.bits(ty);
                        if vs.iter().all(|a| self.load_at(st, ty, *a).is_ok()) {
                            let ve = self.to_e(v, w);
                            for a in vs {
                                let c = self.x.c(a as u128, 64);
                                let q = self.x.eq(*e, c);
                                let old = self.load_at(st, ty, a)?;
                                let oe = self.to_e(&old, w);
                                let n = self.x.ite(q, ve, oe);
                                let n = self.norm(n);
                                self.store_at(st, ty, &n, a)?;
                            }
                            return Ok(());
                        }
                    }
                }
                let a = self.concretize(st, p, 64)?;
                self.store_at(st, ty, v, a)
            }
            _ => Err(Stop::Unsupported("pointer aggregate".into())),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, stack: bool) -> X<u64> {
        if size > 1 << 26 {
            return Self::viol("alloc", format!("allocation of {size} bytes"));
        }
        let id = st.mem.push(Slot::Live(Rc::new(Obj::new(size, stack))));
        Ok(((id as u64) + 1) << 32)
    }
    fn free(&mut self, st: &mut State, a: u64) -> X<()> {
        if a == 0 {
            return Ok(());
        }
        let (id, off, _) = self.obj_at(st, a, 0)?;
        if off != 0 {
            return Self::viol("memory", "free of interior pointer".into());
        }
        *st.mem.slot_mut(id) = Slot::Dead;
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (_, so, src) = self.obj_at(st, s, n)?;
        let bytes: Vec<u8> = src.data[so as usize..so as usize + n as usize].to_vec();
        let mut syms: Vec<(u32, (E, u8))> = vec![];
        if let Some(m) = &src.sym {
            if (m.len() as u64) < n {
                for (k, v) in m.iter() {
                    if *k >= so && (*k as u64) < so as u64 + n {
                        syms.push((*k - so, *v));
                    }
                }
            } else {
                for i in 0..n as u32 {
                    if let Some(v) = m.get(&(so + i)) {
                        syms.push((i, *v));
                    }
                }
            }
        }
        drop(src);
        self.with_obj(st, d, n, |_, o, off| {
            o.data[off as usize..off as usize + n as usize].copy_from_slice(&bytes);
            if let Some(m) = &mut o.sym {
                if !m.is_empty() {
                    if (m.len() as u64) < n {
                        m.retain(|k, _| *k < off || *k as u64 >= off as u64 + n);
                    } else {
                        for i in 0..n as u32 {
                            m.remove(&(off + i));
                        }
                    }
                }
            }
            if !syms.is_empty() {
                let m = o.sym.get_or_insert_with(Default::default);
                for (k, v) in syms {
                    m.insert(off + k, v);
                }
            }
        })
    }
    fn byte_at(&mut self, st: &State, a: u64) -> X<Val> {
        let (_, off, o) = self.obj_at(st, a, 1)?;
        Ok(self.read_bytes(&o, off, 1))
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.obj_at(st, p, n) {
            Ok((_, off, o)) => String::from_utf8_lossy(&o.data[off as usize..(off as u64 + n) as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---------------------------------------------------------------- operators
    fn binop(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        use BinOp::*;
        if let (K(x), K(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let r = match op {
                    Add => x.wrapping_add(y),
                    Sub => x.wrapping_sub(y),
                    Mul => x.wrapping_mul(y),
                    And => x & y,
                    Or => x | y,
                    Xor => x ^ y,
                    Shl => if y >= w as u64 { 0 } else { x << y },
                    LShr => if y >= w as u64 { 0 } else { x >> y },
                    AShr => {
                        let s = sext64(x, w);
                        (s >> y.min(w as u64 - 1)) as u64
                    }
                    UDiv => {
                        if y == 0 {
                            return Self::viol("ub", "division by zero".into());
                        }
                        x / y
                    }
                    URem => {
                        if y == 0 {
                            return Self::viol("ub", "remainder by zero".into());
                        }
                        x % y
                    }
                    SDiv => {
                        if y == 0 {
                            return Self::viol("ub", "division by zero".into());
                        }
                        sext64(x, w).wrapping_div(sext64(y, w)) as u64
                    }
                    SRem => {
                        if y == 0 {
                            return Self::viol("ub", "remainder by zero".into());
                        }
                        sext64(x, w).wrapping_rem(sext64(y, w)) as u64
                    }
                    FAdd | FSub | FMul | FDiv | FRem => {
                        if w == 32 {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FAdd => p + q,
                                FSub => p - q,
                                FMul => p * q,
                                FDiv => p / q,
                                _ => p % q,
                            })
                            .to_bits() as u64
                        } else {
                            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                            (match op {
                                FAdd => p + q,
                                FSub => p - q,
                                FMul => p * q,
                                FDiv => p / q,
                                _ => p % q,
                            })
                            .to_bits()
                        }
                    }
                };
                return Ok(K(tr(r, w)));
            }
        }
        let o = match op {
            Add => O::Add,
            Sub => O::Sub,
            Mul => O::Mul,
            And => O::And,
            Or => O::Or,
            Xor => O::Xor,
            Shl => O::Shl,
            LShr => O::LShr,
            AShr => O::AShr,
            UDiv => O::UDiv,
            URem => O::URem,
            SDiv => O::SDiv,
            SRem => O::SRem,
            _ => return Err(Stop::Unsupported("symbolic float".into())),
        };
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.x.bin(o, x, y);
        Ok(self.norm(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        use Pred::*;
        if let (K(x), K(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sext64(x, w), sext64(y, w));
            return K(match p {
                Eq => x == y,
                Ne => x != y,
                Ugt => x > y,
                Uge => x >= y,
                Ult => x < y,
                Ule => x <= y,
                Sgt => s > t,
                Sge => s >= t,
                Slt => s < t,
                Sle => s <= t,
            } as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let r = match p {
            Eq => self.x.eq(x, y),
            Ne => {
                let t = self.x.eq(x, y);
                self.x.not1(t)
            }
            Ugt => self.x.ult(y, x),
            Uge => self.x.ule(y, x),
            Ult => self.x.ult(x, y),
            Ule => self.x.ule(x, y),
            Sgt => self.x.slt(y, x),
            Sge => self.x.sle(y, x),
            Slt => self.x.slt(x, y),
            Sle => self.x.sle(x, y),
        };
        self.norm(r)
    }
    fn elems(v: &Val) -> Rc<Vec<Val>> {
        match v {
            Val::A(r) => r.clone(),
            v => Rc::new(vec![v.clone()]),
        }
    }
    fn bits_of_val(&mut self, v: &Val, ty: TyId) -> X<(E, u32)> {
        match self.m.tys[ty as usize].clone() {
            Ty::Vector(n, e) => {
                let ew = self.m.bits(e);
                let vs = Self::elems(v);
                let mut acc: Option<E> = None;
                for i in 0..n as usize {
                    let x = self.to_e(&vs[i], ew);
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.x.cat(x, l),
                    });
                }
                Ok((acc.unwrap(), ew * n as u32))
            }
            _ => {
                let w = self.m.bits(ty);
                Ok((self.to_e(v, w), w))
            }
        }
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: Val) -> X<Val> {
        use CastOp::*;
        if op == Freeze {
            return Ok(a);
        }
        if let (Ty::Vector(_, fe), Ty::Vector(_, te)) = (self.m.tys[from as usize].clone(), self.m.tys[to as usize].clone()) {
            if op != BitCast || self.m.bits(fe) == self.m.bits(te) {
                let vs = Self::elems(&a);
                let mut r = vec![];
                for v in vs.iter() {
                    r.push(self.cast(op, fe, te, v.clone())?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        let (fw, tw) = (self.m.bits(from), self.m.bits(to));
        match op {
            BitCast => {
                if matches!(self.m.tys[from as usize], Ty::Vector(..)) || matches!(self.m.tys[to as usize], Ty::Vector(..)) {
                    let (e, _) = self.bits_of_val(&a, from)?;
                    if let Ty::Vector(n, te) = self.m.tys[to as usize].clone() {
                        let ew = self.m.bits(te);
                        let mut r = vec![];
                        for i in 0..n as u32 {
                            let t = self.x.extract(e, i * ew, ew);
                            r.push(self.norm(t));
                        }
                        return Ok(Val::A(Rc::new(r)));
                    }
                    return Ok(self.norm(e));
                }
                Ok(a)
            }
            Trunc | PtrToInt | IntToPtr | ZExt | SExt => {
                if let K(k) = a {
                    if fw <= 64 && tw <= 64 {
                        return Ok(K(match op {
                            SExt => tr(sext64(k, fw) as u64, tw),
                            _ => tr(k, tw),
                        }));
                    }
                }
                let e = self.to_e(&a, fw);
                let r = if tw < fw {
                    self.x.extract(e, 0, tw)
                } else if op == SExt {
                    self.x.sext(e, tw)
                } else {
                    self.x.zext(e, tw)
                };
                Ok(self.norm(r))
            }
            _ => {
                let k = match a {
                    K(k) => k,
                    _ => return Err(Stop::Unsupported("symbolic float conversion".into())),
                };
                let f = |w: u32, k: u64| if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                let r = match op {
                    FpToUi => tr(f(fw, k) as u64, tw),
                    FpToSi => tr(f(fw, k) as i64 as u64, tw),
                    UiToFp => if tw == 32 { (k as f32).to_bits() as u64 } else { (k as f64).to_bits() },
                    SiToFp => {
                        let s = sext64(k, fw);
                        if tw == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() }
                    }
                    FpTrunc => (f64::from_bits(k) as f32).to_bits() as u64,
                    FpExt => (f32::from_bits(k as u32) as f64).to_bits(),
                    _ => 0,
                };
                Ok(K(r))
            }
        }
    }

    // ---------------------------------------------------------------- control
    fn goto(&mut self, st: &mut State, b: u32) {
        let f = st.top.f.clone();
        let from = st.top.blk;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = p.inc.iter().find(|(x, _)| *x == from).map(|(_, o)| o);
                let v = match o {
                    Some(o) => self.opd(st, o),
                    None => K(0),
                };
                vals.push((p.d, v));
            }
            for (d, v) in vals {
                st.top.regs[d as usize] = v;
            }
        }
        st.top.blk = b;
        st.top.ip = 0;
    }
    fn set(st: &mut State, d: u32, v: Val) {
        if d != NOREG {
            st.top.regs[d as usize] = v;
        }
    }
    fn after_call(&mut self, st: &mut State, d: u32, normal: u32, v: Val) {
        Self::set(st, d, v);
        if normal != NOBLK {
            self.goto(st, normal);
        } else {
            st.top.ip += 1;
        }
    }
    fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>, d: u32, normal: u32) -> X<()> {
        let fun = self.func(f)?;
        if st.stack.len() > 1500 {
            return Err(Stop::Violation { kind: "stack".into(), msg: "call depth 1500 exceeded".into(), model: None });
        }
        let mut regs = vec![K(0); fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < fun.params.len() {
                regs[fun.params[i] as usize] = a;
            }
        }
        let nf = Frame { f: fun, regs, blk: 0, ip: 0, d, normal, allocas: vec![] };
        let old = std::mem::replace(&mut st.top, nf);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![demangle(&st.top.f.name)];
        for f in st.stack.iter().rev() {
            v.push(demangle(&f.f.name));
        }
        v
    }
    fn location(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let K(p) = a {
                if *p >> 32 == 0 || *p >> 32 >= FN_BASE {
                    continue;
                }
                if let Ok((_, off, o)) = self.obj_at(st, *p, 24) {
                    let rd = |i: usize, n: usize| -> u64 {
                        let mut v = 0u64;
                        for k in 0..n {
                            v |= (o.data[off as usize + i + k] as u64) << (8 * k);
                        }
                        v
                    };
                    let (sp, sl, line, col) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4));
                    if sl > 3 && sl < 300 && sp >> 32 != 0 && line < 100000 {
                        let s = self.cstr(st, sp, sl);
                        if s.contains(".rs") || s.contains('/') {
                            return format!("{s}:{line}:{col}");
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn make_viol(&mut self, st: &State, kind: String, msg: String, model: Option<Vec<u128>>) -> Viol {
        let m: Vec<u128> = match model {
            Some(m) => m,
            None => (*st.model).clone(),
        };
        let syms = st
            .order
            .iter()
            .map(|&e| {
                let w = self.x.w(e);
                match self.x.v[e as usize].n {
                    N::Sym(s) => (w, m.get(s as usize).copied().unwrap_or(0)),
                    N::C(v) => (w, v),
                    _ => (w, 0),
                }
            })
            .collect();
        Viol { kind, msg, bt: self.backtrace(st), syms, kf: st.kf.as_ref().map(|s| s.to_string()) }
    }
    fn finish(&mut self, st: &State, stop: Stop) {
        match stop {
            Stop::Done => {
                self.paths += 1;
                self.traces.push((*st.trace).clone());
            }
            Stop::Infeasible => self.paths_infeasible += 1,
            Stop::PanicOk => {
                self.paths += 1;
                self.paths_panic_ok += 1;
                self.traces.push((*st.trace).clone());
            }
            Stop::Violation { kind, msg, model } => {
                self.paths += 1;
                let v = self.make_viol(st, kind, msg, model);
                if let Some(k) = &v.kf {
                    self.paths_known += 1;
                    self.known_hit.entry(k.clone()).or_insert_with(|| v.msg.clone());
                    if self.known_hit.len() > 64 {
                        return;
                    }
                } else {
                    self.viol_paths += 1;
                    // one report for each distinct message
                    if !self.viol.iter().any(|o| o.msg == v.msg && o.kind == v.kind) {
                        self.viol.push(v);
                    }
                }
            }
            Stop::Unsupported(s) | Stop::Limit(s) => {
                if self.cfg.verbose {
                    eprintln!("incomplete: {s}\n  {:?}", self.backtrace(st));
                }
                *self.incomplete.entry(s).or_default() += 1;
            }
        }
    }

    pub fn run(&mut self, entry: &str, args: &[u64]) -> Result<(), String> {
        let f = match self.m.syms.get(entry) {
            Some(GKind::Func(f)) => *f,
            _ => return Err(format!("no function {entry}")),
        };
        let fun = self.func(f).map_err(|e| format!("{e:?}"))?;
        let mut regs = vec![K(0); fun.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            if i < fun.params.len() {
                regs[fun.params[i] as usize] = K(*a);
            }
        }
        let mut mem = Mem { chunks: vec![], n: 0 };
        for _ in 0..self.m.globals.len() {
            mem.push(Slot::Lazy);
        }
        let st = State {
            stack: vec![],
            top: Frame { f: fun, regs, blk: 0, ip: 0, d: NOREG, normal: NOBLK, allocas: vec![] },
            mem,
            pc: vec![],
            model: Rc::new(vec![]),
            epoch: self.new_epoch(),
            order: Rc::new(vec![]),
            dom: Rc::new(vec![]),
            ent: Rc::new(vec![]),
            pin: Rc::new(vec![]),
            known: Rc::new(HashMap::new()), mpc: Rc::new(vec![]),
            panic_ok: false,
            kf: None,
            trace: Rc::new(vec![]),
            steps: 0,
            errno: None,
        };
        self.work.push(st);
        let (pi, pn) = self.cfg.part;
        if pn > 1 {
            // breadth-first until there are enough states, then take our share
            let mut q: std::collections::VecDeque<State> = self.work.drain(..).collect();
            let mut rounds = 0;
            while q.len() < pn * 8 && rounds < 4000 {
                let Some(mut s) = q.pop_front() else { break };
                rounds += 1;
                let before = self.paths + self.paths_infeasible;
                let nv = self.viol.len();
                let r = self.exec(&mut s, true);
                match r {
                    Ok(()) => q.push_back(s), // forked: yields
                    Err(stop) => {
                        // finished during the common prefix: only part 0 counts it
                        if pi == 0 || matches!(stop, Stop::Violation { .. }) {
                            self.finish(&s, stop);
                        }
                        let _ = (before, nv);
                    }
                }
                q.extend(self.work.drain(..));
            }
            self.work = q.into_iter().enumerate().filter(|(i, _)| i % pn == pi).map(|(_, s)| s).collect();
        }
        while let Some(mut s) = self.work.pop() {
            if self.viol.len() >= self.cfg.max_viol || self.viol_paths > 40 {
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                *self.incomplete.entry("time limit".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            if self.paths >= self.cfg.max_paths {
                *self.incomplete.entry("path limit".into()).or_default() += 1 + self.work.len() as u64;
                break;
            }
            if let Err(stop) = self.exec(&mut s, false) {
                self.finish(&s, stop);
            }
        }
        Ok(())
    }

    fn exec(&mut self, st: &mut State, yield_on_fork: bool) -> X<()> {
        loop {
            let f = st.top.f.clone();
            let blk = &f.blocks[st.top.blk as usize];
            let wl = self.work.len();
            let depth = st.stack.len();
            // straight-line run inside this block
            loop {
                st.steps += 1;
                self.steps += 1;
                if st.steps & 0xfff == 0 {
                    if st.steps > self.cfg.max_steps {
                        return Self::viol("steps", format!("no end after {} instructions", st.steps));
                    }
                    if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                        return Err(Stop::Limit("time limit".into()));
                    }
                }
                let ip = st.top.ip as usize;
                if ip >= blk.insts.len() {
                    return Err(Stop::Unsupported("fell off block".into()));
                }
                let b0 = st.top.blk;
                if self.cfg.verbose {
                    let q0 = (self.smt.queries, self.smt.time);
                    let r = self.step(st, &blk.insts[ip]);
                    if self.smt.queries != q0.0 {
                        let k = format!("{} {:?}", demangle(&f.name), blk.insts[ip]);
                        let e = self.prof.entry(k.chars().take(200).collect()).or_default();
                        e.0 += self.smt.queries - q0.0;
                        e.1 += self.smt.time - q0.1;
                    }
                    r?;
                } else {
                    self.step(st, &blk.insts[ip])?;
                }
                if st.stack.len() != depth || st.top.blk != b0 || st.top.ip == 0 {
                    break;
                }
                if st.top.ip as usize == ip {
                    return Err(Stop::Unsupported("stuck".into()));
                }
            }
            if yield_on_fork && self.work.len() != wl {
                return Ok(());
            }
        }
    }

    fn step(&mut self, st: &mut State, inst: &Inst) -> X<()> {
        match inst {
            Inst::Bin { op, d, ty, w, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *w == 0 {
                    let e = match self.m.tys[*ty as usize] {
                        Ty::Vector(_, e) => e,
                        _ => return Err(Stop::Unsupported("bin type".into())),
                    };
                    let ew = self.m.bits(e);
                    let (xs, ys) = (Self::elems(&x), Self::elems(&y));
                    let mut r = vec![];
                    for (p, q) in xs.iter().zip(ys.iter()) {
                        r.push(self.binop(*op, ew, p, q)?);
                    }
                    Val::A(Rc::new(r))
                } else {
                    use BinOp::{FAdd, FDiv, FMul, FRem, FSub};
                    if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
                        let (x, y) = (self.concretize(st, &x, *w)?, self.concretize(st, &y, *w)?);
                        self.binop(*op, *w, &K(x), &K(y))?
                    } else {
                        self.binop(*op, *w, &x, &y)?
                    }
                };
                Self::set(st, *d, r);
            }
            Inst::Icmp { p, d, ty, w, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = if *w == 0 {
                    let e = match self.m.tys[*ty as usize] {
                        Ty::Vector(_, e) => e,
                        _ => return Err(Stop::Unsupported("icmp type".into())),
                    };
                    let ew = self.m.bits(e);
                    let (xs, ys) = (Self::elems(&x), Self::elems(&y));
                    Val::A(Rc::new(xs.iter().zip(ys.iter()).map(|(p2, q)| self.icmp(*p, ew, p2, q)).collect()))
                } else {
                    self.icmp(*p, *w, &x, &y)
                };
                Self::set(st, *d, r);
            }
            Inst::Fcmp { p, d, ty, a, b } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                if matches!((&x, &y), (Val::A(_), _) | (_, Val::A(_))) {
                    return Err(Stop::Unsupported("float vector compare".into()));
                }
                // forks over the values of symbolic floats
                let w = self.m.bits(*ty);
                let (x, y) = (self.concretize(st, &x, w)?, self.concretize(st, &y, w)?);
                let f = |k: u64| if self.m.bits(*ty) == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                let (x, y) = (f(x), f(y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "true" => true,
                    _ => false,
                };
                Self::set(st, *d, K(r as u64));
            }
            Inst::FNeg { d, ty, a } => {
                let x = match self.opd(st, a) {
                    K(x) => x,
                    _ => return Err(Stop::Unsupported("symbolic float".into())),
                };
                let w = self.m.bits(*ty);
                Self::set(st, *d, K(x ^ (1 << (w - 1))));
            }
            Inst::Cast { op, d, from, to, a } => {
                let x = self.opd(st, a);
                let r = self.cast(*op, *from, *to, x)?;
                Self::set(st, *d, r);
            }
            Inst::Load { d, ty, p } => {
                let x = self.opd(st, p);
                let r = self.load(st, *ty, &x)?;
                let r = self.simp(st, r);
                Self::set(st, *d, r);
            }
            Inst::Store { ty, v, p } => {
                let (x, y) = (self.opd(st, v), self.opd(st, p));
                self.store(st, *ty, &x, &y)?;
            }
            Inst::Gep { d, base, off, terms } => {
                let b = self.opd(st, base);
                let mut acc = match b {
                    K(k) => K(k.wrapping_add(*off as u64)),
                    b => {
                        let o = K(*off as u64);
                        self.binop(BinOp::Add, 64, &b, &o)?
                    }
                };
                for (o, sc, w) in terms.iter() {
                    let v = self.opd(st, o);
                    match (&acc, &v) {
                        (K(a), K(i)) => acc = K(a.wrapping_add((sext64(*i, *w) as u64).wrapping_mul(*sc as u64))),
                        _ => {
                            let mut e = self.to_e(&v, *w);
                            if *w < 64 {
                                e = self.x.sext(e, 64);
                            }
                            let s = self.x.c(*sc as u64 as u128, 64);
                            let t = self.x.bin(O::Mul, e, s);
                            let a = self.to_e(&acc, 64);
                            let r = self.x.bin(O::Add, a, t);
                            acc = self.norm(r);
                        }
                    }
                }
                Self::set(st, *d, acc);
            }
            Inst::Select { d, ty, c, a, b, vec } => {
                let cv = self.opd(st, c);
                if *vec {
                    let cs = Self::elems(&cv);
                    let (xa, xb) = (self.opd(st, a), self.opd(st, b));
                    let (xs, ys) = (Self::elems(&xa), Self::elems(&xb));
                    let e = match self.m.tys[*ty as usize] {
                        Ty::Vector(_, e) => e,
                        _ => 0,
                    };
                    let w = self.m.bits(e);
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        let ce = self.to_e(&cs[i], 1);
                        let (p, q) = (self.to_e(&xs[i], w), self.to_e(&ys[i], w));
                        let t = self.x.ite(ce, p, q);
                        r.push(self.norm(t));
                    }
                    Self::set(st, *d, Val::A(Rc::new(r)));
                } else {
                    match cv {
                        K(k) => {
                            let r = self.opd(st, if k & 1 == 1 { a } else { b });
                            Self::set(st, *d, r);
                        }
                        Val::E(ce) => {
                            let (x, y) = (self.opd(st, a), self.opd(st, b));
                            let w = self.m.bits(*ty);
                            let isptr = matches!(self.m.tys[*ty as usize], Ty::Ptr) || w == 0;
                            if isptr {
                                if let (K(p), K(q)) = (&x, &y) {
                                    if p == q && w != 0 {
                                        Self::set(st, *d, x);
                                        st.top.ip += 1;
                                        return Ok(());
                                    }
                                }
                                let r = if self.decide(st, ce) { x } else { y };
                                Self::set(st, *d, r);
                            } else {
                                let (p, q) = (self.to_e(&x, w), self.to_e(&y, w));
                                let r = self.x.ite(ce, p, q);
                                let r = self.norm(r);
                                Self::set(st, *d, r);
                            }
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    }
                }
            }
            Inst::Alloca { d, size, n } => {
                let mut sz = *size;
                if let Some((o, w)) = n {
                    let v = self.opd(st, o);
                    let k = self.concretize(st, &v, *w)?;
                    sz *= k;
                }
                let a = self.alloc(st, sz, true)?;
                st.top.allocas.push((a >> 32) as u32 - 1);
                Self::set(st, *d, K(a));
            }
            Inst::Call { d, ty, callee, args, normal } => {
                return self.call(st, *d, *ty, callee, args, *normal);
            }
            Inst::Br(b) => {
                self.goto(st, *b);
                return Ok(());
            }
            Inst::CondBr { c, t, f } => {
                let v = self.opd(st, c);
                match v {
                    K(k) => self.goto(st, if k & 1 == 1 { *t } else { *f }),
                    Val::E(e) => match self.branch(st, e) {
                        Br::T => self.goto(st, *t),
                        Br::F => self.goto(st, *f),
                        Br::Both(tm, fm, te, fe) => {
                            self.forks += 1;
                            let mut o = st.clone();
                            let ne = self.x.not1(e);
                            self.add_pc(&mut o, ne, fm, fe);
                            self.goto(&mut o, *f);
                            self.work.push(o);
                            self.add_pc(st, e, tm, te);
                            self.goto(st, *t);
                        }
                    },
                    _ => return Err(Stop::Unsupported("branch".into())),
                }
                return Ok(());
            }
            Inst::Switch { ty, v, def, cases } => {
                let x = self.opd(st, v);
                match x {
                    K(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|(_, b)| *b).unwrap_or(*def);
                        self.goto(st, t);
                    }
                    Val::E(e) => {
                        let w = self.m.bits(*ty);
                        // group the cases by target
                        let mut groups: Vec<(u32, Vec<u64>)> = vec![];
                        for (c, b) in cases.iter() {
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                                g.1.push(*c);
                            } else {
                                groups.push((*b, vec![*c]));
                            }
                        }
                        for (b, cs) in groups {
                            let mut cond = self.x.c(0, 1);
                            for c in cs {
                                let k = self.x.c(c as u128, w);
                                let q = self.x.eq(e, k);
                                cond = self.x.bin(O::Or, cond, q);
                            }
                            match self.branch(st, cond) {
                                Br::T => {
                                    self.goto(st, b);
                                    return Ok(());
                                }
                                Br::F => {}
                                Br::Both(tm, fm, te, fe) => {
                                    self.forks += 1;
                                    let mut o = st.clone();
                                    self.add_pc(&mut o, cond, tm, te);
                                    self.goto(&mut o, b);
                                    self.work.push(o);
                                    let nc = self.x.not1(cond);
                                    self.add_pc(st, nc, fm, fe);
                                }
                            }
                        }
                        self.goto(st, *def);
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                }
                return Ok(());
            }
            Inst::Ret { ty: _, v } => {
                let r = match v {
                    Some(o) => self.opd(st, o),
                    None => K(0),
                };
                let al = std::mem::take(&mut st.top.allocas);
                for a in al {
                    *st.mem.slot_mut(a) = Slot::Dead;
                }
                match st.stack.pop() {
                    None => return Err(Stop::Done),
                    Some(fr) => {
                        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        let (d, n) = (st.top.d, st.top.normal);
                        st.top = fr;
                        self.after_call(st, d, n, r);
                    }
                }
                return Ok(());
            }
            Inst::Unreachable => {
                return Self::viol("ub", "unreachable executed".into());
            }
            Inst::ExtractValue { d, a, idx, .. } => {
                let mut v = self.opd(st, a);
                for i in idx.iter() {
                    v = match v {
                        Val::A(r) => r[*i as usize].clone(),
                        v => v,
                    };
                }
                Self::set(st, *d, v);
            }
            Inst::InsertValue { d, ty, a, v, idx } => {
                let base = self.opd(st, a);
                let base = match base {
                    Val::A(_) => base,
                    _ => self.cval(*ty, &Cst::Zero),
                };
                let nv = self.opd(st, v);
                fn ins(b: &Val, idx: &[u32], v: Val) -> Val {
                    if idx.is_empty() {
                        return v;
                    }
                    if let Val::A(r) = b {
                        let mut r2 = (**r).clone();
                        r2[idx[0] as usize] = ins(&r[idx[0] as usize], &idx[1..], v);
                        Val::A(Rc::new(r2))
                    } else {
                        v
                    }
                }
                let r = ins(&base, idx, nv);
                Self::set(st, *d, r);
            }
            Inst::ExtractElem { d, a, i, .. } => {
                let v = self.opd(st, a);
                let i = self.opd(st, i);
                let k = self.concretize(st, &i, 64)?;
                let r = Self::elems(&v)[k as usize].clone();
                Self::set(st, *d, r);
            }
            Inst::InsertElem { d, ty, a, v, i } => {
                let b = self.opd(st, a);
                let b = match b {
                    Val::A(_) => b,
                    _ => self.cval(*ty, &Cst::Zero),
                };
                let nv = self.opd(st, v);
                let i = self.opd(st, i);
                let k = self.concretize(st, &i, 64)?;
                let mut r = (*Self::elems(&b)).clone();
                r[k as usize] = nv;
                Self::set(st, *d, Val::A(Rc::new(r)));
            }
            Inst::Shuffle { d, ty, a, b, mask } => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let n = match self.m.tys[*ty as usize] {
                    Ty::Vector(n, _) => n as usize,
                    _ => 0,
                };
                let (xs, ys) = (Self::elems(&x), Self::elems(&y));
                let r = mask
                    .iter()
                    .map(|&m| {
                        if m < 0 {
                            K(0)
                        } else if (m as usize) < n {
                            xs[m as usize].clone()
                        } else {
                            ys.get(m as usize - n).cloned().unwrap_or(K(0))
                        }
                    })
                    .collect();
                Self::set(st, *d, Val::A(Rc::new(r)));
            }
            Inst::Rmw { d, op, ty, p, v } => {
                let pv = self.opd(st, p);
                let nv = self.opd(st, v);
                let old = self.load(st, *ty, &pv)?;
                let w = self.m.bits(*ty);
                let r = match op {
                    RmwOp::Xchg => nv,
                    RmwOp::Add => self.binop(BinOp::Add, w, &old, &nv)?,
                    RmwOp::Sub => self.binop(BinOp::Sub, w, &old, &nv)?,
                    RmwOp::And => self.binop(BinOp::And, w, &old, &nv)?,
                    RmwOp::Or => self.binop(BinOp::Or, w, &old, &nv)?,
                    RmwOp::Xor => self.binop(BinOp::Xor, w, &old, &nv)?,
                    RmwOp::UMax => {
                        let (a, b) = (self.to_e(&old, w), self.to_e(&nv, w));
                        let c = self.x.ult(a, b);
                        let r = self.x.ite(c, b, a);
                        self.norm(r)
                    }
                    _ => return Err(Stop::Unsupported("rmw op".into())),
                };
                self.store(st, *ty, &r, &pv)?;
                Self::set(st, *d, old);
            }
            Inst::CmpXchg { d, ty, p, c, n } => {
                let pv = self.opd(st, p);
                let cv = self.opd(st, c);
                let nv = self.opd(st, n);
                let old = self.load(st, *ty, &pv)?;
                let w = self.m.bits(*ty);
                let eq = self.icmp(Pred::Eq, w, &old, &cv);
                let ok = self.decide_val(st, &eq);
                if ok {
                    self.store(st, *ty, &nv, &pv)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, K(ok as u64)])));
            }
            Inst::Nop => {}
            Inst::Bad(s) => return Err(Stop::Unsupported(format!("instruction: {s}"))),
        }
        st.top.ip += 1;
        Ok(())
    }

    fn call(&mut self, st: &mut State, d: u32, ty: TyId, callee: &Callee, args: &[(TyId, Opd)], normal: u32) -> X<()> {
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Asm => {
                self.after_call(st, d, normal, K(0));
                return Ok(());
            }
            Callee::Ind(o) => {
                let v = self.opd(st, o);
                let a = self.concretize(st, &v, 64)?;
                match addr_fn(a) {
                    Some(f) if (f as usize) < self.m.fns.len() => f,
                    _ => return Self::viol("memory", format!("call through bad pointer {a:#x}")),
                }
            }
        };
        let mut av = Vec::with_capacity(args.len());
        for (_, o) in args {
            av.push(self.opd(st, o));
        }
        match self.classify(f) {
            Special::None => self.enter(st, f, av, d, normal),
            Special::Panic => {
                if st.panic_ok {
                    return Err(Stop::PanicOk);
                }
                let name = demangle(&self.m.fns[f as usize].name);
                let loc = self.location(st, &av);
                let mut msg = String::new();
                if let (Some(K(p)), Some(K(n))) = (av.first(), av.get(1)) {
                    if *n < 400 && *p >> 32 != 0 && (name.ends_with("::panic") || name.contains("expect_failed") || name.contains("unwrap_failed")) {
                        msg = self.cstr(st, *p, *n);
                    }
                }
                Self::viol("panic", format!("{name} {msg} at {loc}"))
            }
            Special::Alloc | Special::AllocZ => {
                let n = self.concretize(st, &av[0], 64)?;
                let a = self.alloc(st, n, false)?;
                self.after_call(st, d, normal, K(a));
                Ok(())
            }
            Special::Dealloc => {
                let a = self.concretize(st, &av[0], 64)?;
                self.free(st, a)?;
                self.after_call(st, d, normal, K(0));
                Ok(())
            }
            Special::Realloc => {
                let a = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[3], 64)?;
                let r = self.realloc(st, a, n)?;
                self.after_call(st, d, normal, K(r));
                Ok(())
            }
            Special::Nop => {
                self.after_call(st, d, normal, K(0));
                Ok(())
            }
            Special::RandKeys => {
                self.after_call(st, d, normal, Val::A(Rc::new(vec![K(0x0123_4567_89ab_cdef), K(0xfedc_ba98_7654_3210)])));
                Ok(())
            }
            Special::Now => {
                // fixed clock
                let r = match self.m.tys[ty as usize].clone() {
                    Ty::Struct(..) => Val::A(Rc::new(vec![K(1), K(0)])),
                    Ty::Void => {
                        if let K(p) = av[0] {
                            let t = self.m.intern(Ty::Int(64));
                            self.store_at(st, t, &K(1), p)?;
                            self.store_at(st, t, &K(0), p + 8)?;
                        }
                        K(0)
                    }
                    _ => K(1),
                };
                self.after_call(st, d, normal, r);
                Ok(())
            }
            Special::Extern => {
                let name = self.m.fns[f as usize].name.clone();
                let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                let r = self.ext(st, &name, ty, &tys, av)?;
                self.after_call(st, d, normal, r);
                Ok(())
            }
        }
    }
    fn realloc(&mut self, st: &mut State, a: u64, n: u64) -> X<u64> {
        if a == 0 {
            return self.alloc(st, n, false);
        }
        let (_, off, o) = self.obj_at(st, a, 0)?;
        if off != 0 {
            return Self::viol("memory", "realloc of interior pointer".into());
        }
        let r = self.alloc(st, n, false)?;
        let k = o.size.min(n);
        self.memcpy(st, r, a, k)?;
        self.free(st, a)?;
        Ok(r)
    }

    fn new_symbol(&mut self, st: &mut State, w: u32) -> Val {
        let k = st.order.len() as u32;
        if let Some(r) = &self.cfg.replay {
            let v = r.get(k as usize).copied().unwrap_or(0) & mask(w);
            let e = self.x.c(v, w);
            Rc::make_mut(&mut st.order).push(e);
            return self.norm(e);
        }
        let e = match self.symtab.get(&(k, w)) {
            Some(&e) => e,
            None => {
                let e = self.x.new_sym(k, w);
                self.symtab.insert((k, w), e);
                e
            }
        };
        Rc::make_mut(&mut st.order).push(e);
        Val::E(e)
    }
    /// conditions arrive as u8 0/1
    fn cond8(&mut self, v: &Val) -> E {
        match v {
            K(k) => self.x.c((*k & 0xff != 0) as u128, 1),
            Val::E(e) => {
                let e = *e;
                let w = self.x.w(e);
                let z = self.x.c(0, w);
                let q = self.x.eq(e, z);
                self.x.not1(q)
            }
            _ => self.x.c(0, 1),
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> X<()> {
        match self.branch(st, c) {
            Br::T => Ok(()),
            Br::F => Err(Stop::Infeasible),
            Br::Both(tm, _, te, _) => {
                self.add_pc(st, c, tm, te);
                Ok(())
            }
        }
    }
    fn ext(&mut self, st: &mut State, name: &str, ty: TyId, tys: &[TyId], av: Vec<Val>) -> X<Val> {
        if let Some(n) = name.strip_prefix("__sym_") {
            return self.sym_call(st, n, av);
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.llvm(st, n, ty, tys, av);
        }
        let one = |s: &mut Self, st: &mut State, i: usize| -> X<u64> { s.concretize(st, &av[i], 64) };
        match name {
            "malloc" => {
                let n = one(self, st, 0)?;
                Ok(K(self.alloc(st, n, false)?))
            }
            "calloc" => {
                let n = one(self, st, 0)?;
                let m = one(self, st, 1)?;
                Ok(K(self.alloc(st, n.saturating_mul(m), false)?))
            }
            "realloc" => {
                let a = one(self, st, 0)?;
                let n = one(self, st, 1)?;
                Ok(K(self.realloc(st, a, n)?))
            }
            "free" => {
                let a = one(self, st, 0)?;
                self.free(st, a)?;
                Ok(K(0))
            }
            "posix_memalign" => {
                let n = one(self, st, 2)?;
                let a = self.alloc(st, n, false)?;
                let t = self.m.intern(Ty::Ptr);
                self.store(st, t, &K(a), &av[0])?;
                Ok(K(0))
            }
            "bcmp" | "memcmp" => {
                let a = one(self, st, 0)?;
                let b = one(self, st, 1)?;
                let n = one(self, st, 2)?;
                self.obj_at(st, a, if n > 0 { n } else { 0 }).map(|_| ()).or_else(|e| if n == 0 { Ok(()) } else { Err(e) })?;
                self.obj_at(st, b, if n > 0 { n } else { 0 }).map(|_| ()).or_else(|e| if n == 0 { Ok(()) } else { Err(e) })?;
                let mut acc = self.x.c(0, 32);
                for i in (0..n).rev() {
                    let x = self.byte_at(st, a + i)?;
                    let y = self.byte_at(st, b + i)?;
                    if let (K(p), K(q)) = (&x, &y) {
                        if p != q {
                            acc = self.x.c(if p < q { 0xffff_ffff } else { 1 }, 32);
                        }
                        continue;
                    }
                    let (x, y) = (self.to_e(&x, 8), self.to_e(&y, 8));
                    let eq = self.x.eq(x, y);
                    let r = if name == "bcmp" {
                        self.x.c(1, 32)
                    } else {
                        let lt = self.x.ult(x, y);
                        let (m1, p1) = (self.x.c(0xffff_ffff, 32), self.x.c(1, 32));
                        self.x.ite(lt, m1, p1)
                    };
                    acc = self.x.ite(eq, acc, r);
                }
                Ok(self.norm(acc))
            }
            "memchr" | "memrchr" => {
                let a = one(self, st, 0)?;
                let n = one(self, st, 2)?;
                let c = match &av[1] {
                    K(k) => K(k & 0xff),
                    Val::E(e) => {
                        let t = self.x.extract(*e, 0, 8);
                        self.norm(t)
                    }
                    v => v.clone(),
                };
                let idx: Vec<u64> = if name == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    let b = self.byte_at(st, a + i)?;
                    let q = self.icmp(Pred::Eq, 8, &b, &c);
                    if self.decide_val(st, &q) {
                        return Ok(K(a + i));
                    }
                }
                Ok(K(0))
            }
            "strlen" => {
                let a = one(self, st, 0)?;
                let mut n = 0;
                loop {
                    let b = self.byte_at(st, a + n)?;
                    let q = self.icmp(Pred::Eq, 8, &b, &K(0));
                    if self.decide_val(st, &q) {
                        return Ok(K(n));
                    }
                    n += 1;
                }
            }
            "memcpy" | "memmove" => {
                let a = one(self, st, 0)?;
                let b = one(self, st, 1)?;
                let n = one(self, st, 2)?;
                self.memcpy(st, a, b, n)?;
                Ok(K(a))
            }
            "memset" => {
                let a = one(self, st, 0)?;
                let n = one(self, st, 2)?;
                self.memset(st, a, &av[1], n)?;
                Ok(K(a))
            }
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Ok(K(0)),
            "getenv" => Ok(K(0)),
            "__errno_location" => {
                if st.errno.is_none() {
                    let a = self.alloc(st, 8, false)?;
                    st.errno = Some((a >> 32) as u32);
                }
                Ok(K((st.errno.unwrap() as u64) << 32))
            }
            "gettid" | "getpid" => Ok(K(1)),
            "clock_gettime" => {
                if let K(p) = av[1] {
                    let t = self.m.intern(Ty::Int(64));
                    self.store_at(st, t, &K(1), p)?;
                    self.store_at(st, t, &K(0), p + 8)?;
                }
                Ok(K(0))
            }
            "getrandom" => {
                let n = one(self, st, 1)?;
                Ok(K(n))
            }
            "write" => {
                let n = one(self, st, 2)?;
                Ok(K(n))
            }
            "pthread_self" => Ok(K(1)),
            "abort" => {
                if st.panic_ok {
                    return Err(Stop::PanicOk);
                }
                Self::viol("panic", "abort".into())
            }
            _ => Err(Stop::Unsupported(format!("external function {name}"))),
        }
    }
    fn memset(&mut self, st: &mut State, a: u64, v: &Val, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let b = match v {
            K(k) => K(k & 0xff),
            Val::E(e) => {
                let t = self.x.extract(*e, 0, 8);
                self.norm(t)
            }
            v => v.clone(),
        };
        self.with_obj(st, a, n, |s, o, off| match b {
            K(k) => {
                for x in &mut o.data[off as usize..off as usize + n as usize] {
                    *x = k as u8;
                }
                if let Some(m) = &mut o.sym {
                    m.retain(|k, _| *k < off || *k as u64 >= off as u64 + n);
                }
            }
            ref v => {
                for i in 0..n as u32 {
                    s.write_val(o, off + i, 1, v);
                }
            }
        })
    }
    fn llvm(&mut self, st: &mut State, n: &str, ty: TyId, tys: &[TyId], av: Vec<Val>) -> X<Val> {
        let base = n.split('.').next().unwrap_or("");
        let w = self.m.bits(ty);
        let mn = |s: &mut Self, signed: bool, max: bool, w: u32, a: &Val, b: &Val| -> Val {
            let (x, y) = (s.to_e(a, w), s.to_e(b, w));
            let c = if signed { s.x.slt(x, y) } else { s.x.ult(x, y) };
            let r = if max { s.x.ite(c, y, x) } else { s.x.ite(c, x, y) };
            s.norm(r)
        };
        match base {
            "lifetime" | "assume" | "donothing" | "dbg" | "var" | "invariant" | "prefetch" => return Ok(K(0)),
            "experimental" => return Ok(K(0)),
            "x86" => {
                if n.contains("pause") || n.contains("fence") {
                    return Ok(K(0));
                }
                if n.contains("pmovmskb") {
                    let vs = Self::elems(&av[0]);
                    let mut acc: Option<E> = None;
                    for v in vs.iter() {
                        let e = self.to_e(v, 8);
                        let b = self.x.extract(e, 7, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(l) => self.x.cat(b, l),
                        });
                    }
                    let r = self.x.zext(acc.unwrap(), w);
                    return Ok(self.norm(r));
                }
            }
            "expect" | "ssa_copy" | "ssa" | "launder" | "strip" => return Ok(av[0].clone()),
            "threadlocal" => return Ok(av[0].clone()),
            "ptrmask" => return self.binop(BinOp::And, 64, &av[0], &av[1]),
            "is" => return Ok(K(0)),
            "objectsize" => return Ok(K(u64::MAX)),
            "trap" => return Self::viol("ub", "trap".into()),
            "memcpy" | "memmove" => {
                let nn = self.concretize(st, &av[2], 64)?;
                if nn > 0 {
                    let a = self.concretize(st, &av[0], 64)?;
                    let b = self.concretize(st, &av[1], 64)?;
                    self.memcpy(st, a, b, nn)?;
                }
                return Ok(K(0));
            }
            "memset" => {
                let nn = self.concretize(st, &av[2], 64)?;
                if nn > 0 {
                    let a = self.concretize(st, &av[0], 64)?;
                    self.memset(st, a, &av[1], nn)?;
                }
                return Ok(K(0));
            }
            _ => {}
        }
        if let Ty::Vector(_, e) = self.m.tys[ty as usize].clone() {
            // element-wise
            let ws: Vec<Rc<Vec<Val>>> = av.iter().map(Self::elems).collect();
            let mut r = vec![];
            for i in 0..ws[0].len() {
                let a: Vec<Val> = ws.iter().map(|v| v.get(i).cloned().unwrap_or(v[0].clone())).collect();
                let et: Vec<TyId> = tys.iter().map(|_| e).collect();
                r.push(self.llvm(st, n, e, &et, a)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        match base {
            "umin" => Ok(mn(self, false, false, w, &av[0], &av[1])),
            "umax" => Ok(mn(self, false, true, w, &av[0], &av[1])),
            "smin" => Ok(mn(self, true, false, w, &av[0], &av[1])),
            "smax" => Ok(mn(self, true, true, w, &av[0], &av[1])),
            "abs" => {
                let x = self.to_e(&av[0], w);
                let z = self.x.c(0, w);
                let c = self.x.slt(x, z);
                let neg = self.x.bin(O::Sub, z, x);
                let r = self.x.ite(c, neg, x);
                Ok(self.norm(r))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if n.contains("with.overflow") => {
                let w = self.m.bits(tys[0]);
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let (r, o) = match base {
                    "uadd" => {
                        let r = self.x.bin(O::Add, x, y);
                        let xi = (self.x.v[x as usize].hi, self.x.v[y as usize].hi);
                        let o = if xi.0.checked_add(xi.1).map_or(false, |s| s <= mask(w)) { self.x.c(0, 1) } else { self.x.ult(r, x) };
                        (r, o)
                    }
                    "usub" => (self.x.bin(O::Sub, x, y), self.x.ult(x, y)),
                    _ => {
                        let ww = if base.ends_with("mul") { 2 * w } else { w + 1 };
                        if ww > 128 && base != "umul" && base != "smul" {
                            // from the signs
                            let op = if base == "sadd" { O::Add } else { O::Sub };
                            let r = self.x.bin(op, x, y);
                            let z = self.x.c(0, w);
                            let (sx, sy, sr) = (self.x.slt(x, z), self.x.slt(y, z), self.x.slt(r, z));
                            let dxy = self.x.bin(O::Xor, sx, sy);
                            let dxr = self.x.bin(O::Xor, sx, sr);
                            let k = if base == "sadd" { self.x.not1(dxy) } else { dxy };
                            let o = self.x.bin(O::And, k, dxr);
                            return Ok(Val::A(Rc::new(vec![self.norm(r), self.norm(o)])));
                        }
                        if ww > 128 {
                            return Err(Stop::Unsupported(format!("{n} too wide")));
                        }
                        let sg = base.starts_with('s');
                        let op = match base {
                            "umul" | "smul" => O::Mul,
                            "sadd" => O::Add,
                            _ => O::Sub,
                        };
                        let r = self.x.bin(op, x, y);
                        if sg && op != O::Mul {
                            let (p, q) = (self.x.sext(x, ww), self.x.sext(y, ww));
                            let wide = self.x.bin(op, p, q);
                            let (mx, mn) = (self.x.c(mask(w - 1), ww), self.x.c(!(mask(w - 1)), ww));
                            let (c1, c2) = (self.x.slt(mx, wide), self.x.slt(wide, mn));
                            (r, self.x.bin(O::Or, c1, c2))
                        } else if !sg && self.x.v[x as usize].hi.checked_mul(self.x.v[y as usize].hi).map_or(false, |s| s <= mask(w)) {
                            (r, self.x.c(0, 1))
                        } else {
                            let (p, q) = if sg { (self.x.sext(x, ww), self.x.sext(y, ww)) } else { (self.x.zext(x, ww), self.x.zext(y, ww)) };
                            let wide = self.x.bin(op, p, q);
                            let back = if sg { self.x.sext(r, ww) } else { self.x.zext(r, ww) };
                            let e = self.x.eq(wide, back);
                            (r, self.x.not1(e))
                        }
                    }
                };
                Ok(Val::A(Rc::new(vec![self.norm(r), self.norm(o)])))
            }
            "uadd" | "usub" | "sadd" | "ssub" => {
                // saturating
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let r = match base {
                    "uadd" => {
                        let r = self.x.bin(O::Add, x, y);
                        let o = self.x.ult(r, x);
                        let m = self.x.c(mask(w), w);
                        self.x.ite(o, m, r)
                    }
                    "usub" => {
                        let o = self.x.ult(x, y);
                        let r = self.x.bin(O::Sub, x, y);
                        let z = self.x.c(0, w);
                        self.x.ite(o, z, r)
                    }
                    _ => {
                        let ww = w + 1;
                        let (p, q) = (self.x.sext(x, ww), self.x.sext(y, ww));
                        let wide = self.x.bin(if base == "sadd" { O::Add } else { O::Sub }, p, q);
                        let (mx, mn) = (self.x.c(mask(w - 1), ww), self.x.c(!(mask(w - 1)), ww));
                        let c1 = self.x.slt(mx, wide);
                        let c2 = self.x.slt(wide, mn);
                        let t = self.x.ite(c2, mn, wide);
                        let t = self.x.ite(c1, mx, t);
                        self.x.extract(t, 0, w)
                    }
                };
                Ok(self.norm(r))
            }
            "ucmp" | "scmp" => {
                let ww = self.m.bits(tys[0]);
                let (x, y) = (self.to_e(&av[0], ww), self.to_e(&av[1], ww));
                let lt = if base == "ucmp" { self.x.ult(x, y) } else { self.x.slt(x, y) };
                let eq = self.x.eq(x, y);
                let (m1, z, p1) = (self.x.c(mask(w), w), self.x.c(0, w), self.x.c(1, w));
                let r = self.x.ite(eq, z, p1);
                let r = self.x.ite(lt, m1, r);
                Ok(self.norm(r))
            }
            "ctlz" | "cttz" => {
                if let K(k) = av[0] {
                    let k = tr(k, w);
                    let r = if k == 0 { w as u64 } else if base == "ctlz" { (k.leading_zeros() - (64 - w)) as u64 } else { k.trailing_zeros() as u64 };
                    return Ok(K(r));
                }
                let x = self.to_e(&av[0], w);
                let mut acc = self.x.c(w as u128, w);
                let range: Vec<u32> = if base == "ctlz" { (0..w).collect() } else { (0..w).rev().collect() };
                for i in range {
                    let b = self.x.extract(x, i, 1);
                    let k = self.x.c(if base == "ctlz" { w - 1 - i } else { i } as u128, w);
                    acc = self.x.ite(b, k, acc);
                }
                Ok(self.norm(acc))
            }
            "ctpop" => {
                if let K(k) = av[0] {
                    return Ok(K(tr(k, w).count_ones() as u64));
                }
                let x = self.to_e(&av[0], w);
                let mut acc = self.x.c(0, w);
                for i in 0..w {
                    let b = self.x.extract(x, i, 1);
                    let z = self.x.zext(b, w);
                    acc = self.x.bin(O::Add, acc, z);
                }
                Ok(self.norm(acc))
            }
            "bswap" => {
                let x = self.to_e(&av[0], w);
                let n = w / 8;
                let mut acc: Option<E> = None;
                for i in (0..n).rev() {
                    let b = self.x.extract(x, 8 * i, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.x.cat(b, l),
                    });
                }
                Ok(self.norm(acc.unwrap()))
            }
            "bitreverse" => {
                let x = self.to_e(&av[0], w);
                let mut acc: Option<E> = None;
                for i in (0..w).rev() {
                    let b = self.x.extract(x, i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.x.cat(b, l),
                    });
                }
                Ok(self.norm(acc.unwrap()))
            }
            "fshl" | "fshr" => {
                let k = self.concretize(st, &av[2], w)? % w as u64;
                let (a, b) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let k = k as u32;
                let r = if base == "fshl" {
                    if k == 0 {
                        a
                    } else {
                        let h = self.x.extract(a, 0, w - k);
                        let l = self.x.extract(b, w - k, k);
                        self.x.cat(h, l)
                    }
                } else if k == 0 {
                    b
                } else {
                    let h = self.x.extract(a, 0, k);
                    let l = self.x.extract(b, k, w - k);
                    self.x.cat(h, l)
                };
                Ok(self.norm(r))
            }
            "vector" => {
                // reductions
                let vs = Self::elems(&av[0]);
                let et = match self.m.tys[tys[0] as usize] {
                    Ty::Vector(_, e) => e,
                    _ => return Err(Stop::Unsupported(n.to_string())),
                };
                let ew = self.m.bits(et);
                let op = if n.contains("reduce.or") {
                    O::Or
                } else if n.contains("reduce.and") {
                    O::And
                } else if n.contains("reduce.add") {
                    O::Add
                } else if n.contains("reduce.xor") {
                    O::Xor
                } else {
                    return Err(Stop::Unsupported(n.to_string()));
                };
                let mut acc = self.to_e(&vs[0], ew);
                for v in vs.iter().skip(1) {
                    let e = self.to_e(v, ew);
                    acc = self.x.bin(op, acc, e);
                }
                Ok(self.norm(acc))
            }
            "ceil" | "floor" | "trunc" | "fabs" | "sqrt" | "log2" | "rint" | "round" => {
                if let K(k) = av[0] {
                    let f = |x: f64| match base {
                        "ceil" => x.ceil(),
                        "floor" => x.floor(),
                        "trunc" => x.trunc(),
                        "fabs" => x.abs(),
                        "sqrt" => x.sqrt(),
                        "log2" => x.log2(),
                        _ => x.round(),
                    };
                    return Ok(K(if w == 32 { (f(f32::from_bits(k as u32) as f64) as f32).to_bits() as u64 } else { f(f64::from_bits(k)).to_bits() }));
                }
                Err(Stop::Unsupported("symbolic float".into()))
            }
            "powi" | "pow" => {
                let (&K(a), &K(b)) = (&av[0], &av[1]) else {
                    return Err(Stop::Unsupported("symbolic float".into()));
                };
                let f = |k: u64| if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                let r = if base == "powi" { f(a).powi(b as u32 as i32) } else { f(a).powf(f(b)) };
                Ok(K(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }))
            }
            "fptosi" | "fptoui" => {
                // llvm.fpto{s,u}i.sat.iN.fM: the casts of Rust
                let (&K(k), true) = (&av[0], n.contains(".sat.")) else {
                    return Err(Stop::Unsupported("symbolic float".into()));
                };
                let x = if n.ends_with("f32") { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                Ok(K(match (base, w) {
                    ("fptosi", 8) => x as i8 as u8 as u64,
                    ("fptosi", 16) => x as i16 as u16 as u64,
                    ("fptosi", 32) => x as i32 as u32 as u64,
                    ("fptosi", 64) => x as i64 as u64,
                    ("fptoui", 8) => x as u8 as u64,
                    ("fptoui", 16) => x as u16 as u64,
                    ("fptoui", 32) => x as u32 as u64,
                    ("fptoui", 64) => x as u64,
                    _ => return Err(Stop::Unsupported(n.to_string())),
                }))
            }
            _ => Err(Stop::Unsupported(format!("llvm.{n}"))),
        }
    }

    // ---------------------------------------------------------------- harness interface
    fn read_cnf(&mut self, st: &mut State, p: u64, n: u64) -> X<Vec<Vec<CLit>>> {
        let mut out = vec![];
        let mut cur = vec![];
        let t32 = self.m.intern(Ty::Int(32));
        for i in 0..n {
            let v = self.load_at(st, t32, p + 4 * i)?;
            let v = self.simp(st, v);
            match v {
                K(k) => {
                    if k == 0xffff_ffff {
                        out.push(std::mem::take(&mut cur));
                    } else {
                        cur.push(CLit { var: (k >> 1) as u32, sign: Sign::K(k & 1 == 1) });
                    }
                }
                Val::E(e) => {
                    let hi = self.x.extract(e, 1, 31);
                    if let Some(v) = self.x.cv(hi) {
                        let s = self.x.extract(e, 0, 1);
                        cur.push(CLit { var: v as u32, sign: Sign::S(s) });
                    } else {
                        let k = self.concretize(st, &Val::E(e), 32)?;
                        cur.push(CLit { var: (k >> 1) as u32, sign: Sign::K(k & 1 == 1) });
                    }
                }
                _ => {}
            }
        }
        Ok(out)
    }
    fn sym_call(&mut self, st: &mut State, name: &str, av: Vec<Val>) -> X<Val> {
        match name {
            "u8" => Ok(self.new_symbol(st, 8)),
            "u16" => Ok(self.new_symbol(st, 16)),
            "u32" => Ok(self.new_symbol(st, 32)),
            "u64" => Ok(self.new_symbol(st, 64)),
            "bool" => {
                let v = self.new_symbol(st, 1);
                Ok(match v {
                    Val::E(e) => {
                        let z = self.x.zext(e, 8);
                        self.norm(z)
                    }
                    v => v,
                })
            }
            "assume" => {
                let c = self.cond8(&av[0]);
                self.assume(st, c)?;
                Ok(K(0))
            }
            "assert" => {
                let c = self.cond8(&av[0]);
                self.asserts += 1;
                let mk = |s: &mut Self, st: &State| -> String {
                    match (&av[1], &av[2]) {
                        (K(p), K(n)) => s.cstr(st, *p, *n),
                        _ => "?".into(),
                    }
                };
                // assertions are always put to the solver
                self.force = self.x.cv(c).is_none();
                match self.branch(st, c) {
                    Br::T => Ok(K(0)),
                    Br::F => {
                        let m = mk(self, st);
                        Self::viol("assert", m)
                    }
                    Br::Both(tm, fm, te, fe) => {
                        let m = mk(self, st);
                        // report the violating side, go on with the other
                        let mut o = st.clone();
                        let nc = self.x.not1(c);
                        self.add_pc(&mut o, nc, fm, fe);
                        self.finish(&o, Stop::Violation { kind: "assert".into(), msg: m, model: None });
                        self.add_pc(st, c, tm, te);
                        Ok(K(0))
                    }
                }
            }
            "concretize" => {
                let k = self.concretize(st, &av[0], 64)?;
                Ok(K(k))
            }
            "decide" => {
                let c = self.cond8(&av[0]);
                Ok(K(self.decide(st, c) as u64))
            }
            "ite" => {
                let c = self.cond8(&av[0]);
                let (a, b) = (self.to_e(&av[1], 64), self.to_e(&av[2], 64));
                let r = self.x.ite(c, a, b);
                Ok(self.norm(r))
            }
            "cnf_implies" | "cnf_exists" => {
                let g = |v: &Val| if let K(k) = v { *k } else { 0 };
                let (p, n, ip, ni) = (g(&av[0]), g(&av[1]), g(&av[2]), g(&av[3]));
                let cnf = self.read_cnf(st, p, n)?;
                let mut inv = vec![];
                for i in 0..ni {
                    let v = self.byte_at(st, ip + i)?;
                    inv.push(self.cond8(&v));
                }
                let cond = self.cond8(&av[4]);
                self.asserts += 1;
                let msg = self.cstr(st, g(&av[5]), g(&av[6]));
                let syms = self.path_syms(st);
                let pc = st.pc.clone();
                let base = st.model.clone();
                let (r, m) = if name == "cnf_implies" {
                    self.smt.cnf_implies(&self.x, &pc, &cnf, &inv, cond, &base, &syms)
                } else {
                    self.smt.cnf_exists(&self.x, &pc, &cnf, &inv, cond, &base, &syms)
                };
                match r {
                    Res::Unsat => Ok(K(0)),
                    Res::Sat => Err(Stop::Violation { kind: name.into(), msg, model: Some(m) }),
                    Res::Unknown => {
                        *self.incomplete.entry(format!("solver unknown on {name}")).or_default() += 1;
                        Ok(K(0))
                    }
                }
            }
            "allow_panic" => {
                let c = self.cond8(&av[0]);
                st.panic_ok = self.decide(st, c);
                Ok(K(0))
            }
            "known" => {
                let c = self.cond8(&av[2]);
                if self.decide(st, c) {
                    if let (K(p), K(n)) = (&av[0], &av[1]) {
                        let s = self.cstr(st, *p, *n);
                        st.kf = Some(s.into());
                    }
                }
                Ok(K(0))
            }
            "witness" => {
                if let K(k) = av[0] {
                    *self.witness.entry(k).or_default() += 1;
                }
                Ok(K(0))
            }
            "trace" => {
                let v = self.simp(st, av[0].clone());
                let k = match v {
                    K(k) => k,
                    Val::E(e) => self.x.eval(e, &st.model, st.epoch) as u64,
                    _ => 0,
                };
                Rc::make_mut(&mut st.trace).push(k);
                Ok(K(0))
            }
            "is_engine" => Ok(K(1)),
            _ => Err(Stop::Unsupported(format!("__sym_{name}"))),
        }
    }
}
