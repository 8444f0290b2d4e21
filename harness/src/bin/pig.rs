//! The proof logging library (G01): every step is written as given, and constraint identifiers are counted as the checker counts them
use pigeons::{
    AbsConstraintId, Axiom, Conclusion, ConstraintId, ConstraintLike, Derivation, ObjectiveLike, ObjectiveUpdate, OperationLike, OperationSequence, Order, OrderVar,
    OutputGuarantee, OutputType, Proof, ProofGoal, ProofGoalId, ProofOnlyVar, SubproofElement, Substitution, VarLike,
};
use rustsat::instances::Objective;
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Cl, Clause, Lit, Var};
use symlib::*;

type Args = [u64; 4];

entries!(step, subproof, ranges, ops, constr, object, order, ending);

// ------------------------------------------------------------ reading what was written
struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}
fn blank(c: u8) -> bool {
    c == b' '
}
impl<'a> Rd<'a> {
    fn skip(&mut self) {
        while self.i < self.b.len() && blank(self.b[self.i]) {
            self.i += 1;
        }
    }
    /// the next word on the line
    fn word(&mut self) -> &'a [u8] {
        self.skip();
        let s = self.i;
        while self.i < self.b.len() && !blank(self.b[self.i]) && self.b[self.i] != b'\n' {
            self.i += 1;
        }
        &self.b[s..self.i]
    }
    fn kw(&mut self, opts: &[&str]) {
        let w = self.word();
        check(opts.iter().any(|o| o.as_bytes() == w), "the step has the keyword it should have");
    }
    fn eol(&mut self) {
        self.skip();
        check(self.i < self.b.len() && self.b[self.i] == b'\n', "nothing else stands on the line");
        self.i += 1;
        // empty lines mean nothing
        loop {
            let at = self.i;
            self.skip();
            if self.i < self.b.len() && self.b[self.i] == b'\n' {
                self.i += 1;
            } else {
                self.i = at;
                return;
            }
        }
    }
    fn eof(&mut self) {
        check(self.i == self.b.len(), "nothing else is in the proof");
    }
    fn ahead(&self, c: u8) -> bool {
        let mut i = self.i;
        while i < self.b.len() && blank(self.b[i]) {
            i += 1;
        }
        i < self.b.len() && self.b[i] == c
    }
    fn semi(&mut self) {
        self.skip();
        check(self.ahead(b';'), "a semicolon stands where one is due");
        self.i += 1;
    }
    fn num(&mut self) -> i64 {
        number(self.word())
    }
    fn is(&mut self, v: i64) {
        check(self.num() == v, "the number is the one given");
    }
    fn id(&mut self, v: Id) {
        self.is(v.txt());
    }
    /// variable index and sign of a literal on variables `x1`, ...
    fn lit(&mut self) -> (u32, bool) {
        let w = self.word();
        let (neg, w) = if w.first() == Some(&b'~') { (true, &w[1..]) } else { (false, w) };
        check(w.first() == Some(&b'x'), "a variable stands where one is due");
        (number(&w[1..]) as u32 - 1, neg)
    }
    fn ax(&mut self, a: L) {
        let (v, n) = self.lit();
        check((v == a.v) & (n == a.n), "the literal is the one given");
    }
    fn con(&mut self, c: &K) {
        for (k, l) in &c.t {
            self.is(*k as i64);
            self.ax(*l);
        }
        self.kw(&[">="]);
        self.is(c.d as i64);
    }
    fn sub(&mut self, s: S) {
        self.ax(L { v: s.v, n: false });
        self.kw(&["->"]);
        match s.w {
            0 | 1 => self.is(s.w as i64),
            _ => self.ax(s.l),
        }
    }
}
fn number(w: &[u8]) -> i64 {
    let (neg, w) = match w.first() {
        Some(b'-') => (true, &w[1..]),
        Some(b'+') => (false, &w[1..]),
        _ => (false, w),
    };
    check(!w.is_empty(), "a number stands where one is due");
    let mut v = 0i64;
    for &b in w {
        check((b >= b'0') & (b <= b'9'), "a number consists of digits");
        v = v * 10 + (b & 15) as i64;
    }
    if neg {
        -v
    } else {
        v
    }
}

// ------------------------------------------------------------ what is given
#[derive(Clone, Copy)]
struct L {
    v: u32,
    n: bool,
}
impl L {
    fn any() -> L {
        L { v: range(0, 8) as u32, n: choice() }
    }
    fn a(self) -> Axiom<Var> {
        Var::new(self.v).axiom(self.n)
    }
}
#[derive(Clone)]
struct K {
    t: Vec<(isize, L)>,
    d: isize,
}
fn signed(m: u64) -> isize {
    let v = range(0, m) as isize;
    if choice() {
        -v
    } else {
        v
    }
}
impl K {
    /// fixed data, where it does not matter
    fn some(v: u32) -> K {
        K { t: vec![(2, L { v, n: v & 1 == 1 })], d: 1 }
    }
}
impl ConstraintLike<Var> for K {
    fn rhs(&self) -> isize {
        self.d
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        self.t.iter().map(|(k, l)| (*k, l.a()))
    }
}
struct O {
    t: Vec<(isize, L)>,
    off: isize,
}
impl ObjectiveLike<Var> for O {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        self.t.iter().map(|(k, l)| (*k, l.a()))
    }
    fn offset(&self) -> isize {
        self.off
    }
}
#[derive(Clone, Copy)]
struct Id {
    rel: bool,
    n: usize,
}
impl Id {
    fn any(m: u64) -> Id {
        Id { rel: choice(), n: range(1, m) as usize }
    }
    fn id(self) -> ConstraintId {
        if self.rel {
            ConstraintId::last(self.n)
        } else {
            ConstraintId::abs(self.n)
        }
    }
    fn txt(self) -> i64 {
        if self.rel {
            -(self.n as i64)
        } else {
            self.n as i64
        }
    }
    fn abs(self, next: usize) -> i64 {
        if self.rel {
            next as i64 - self.n as i64
        } else {
            self.n as i64
        }
    }
}
#[derive(Clone, Copy)]
struct S {
    v: u32,
    w: u8,
    l: L,
}
impl S {
    fn any() -> S {
        let w = pick(3) as u8;
        S { v: range(0, 8) as u32, w, l: if w == 2 { L::any() } else { L { v: 0, n: false } } }
    }
    fn s(self) -> Substitution<Var> {
        let v = Var::new(self.v);
        match self.w {
            0 => v.substitute_fixed(false),
            1 => {
                if choice() {
                    v.substitute_fixed(true)
                } else {
                    Substitution::from(v.pos_axiom())
                }
            }
            _ => v.substitute_literal(self.l.a()),
        }
    }
}
fn none() -> [SubproofElement<Var, K>; 0] {
    []
}

// ------------------------------------------------------------ a proof
struct P {
    p: Proof<Vec<u8>>,
    nc: usize,
    next: usize,
}
impl P {
    fn new(opt: bool, m: u64) -> P {
        let nc = range(0, m) as usize;
        let p = Proof::new(Vec::with_capacity(512), nc, opt).unwrap();
        let p = P { p, nc, next: nc + 1 };
        p.ids();
        p
    }
    fn ids(&self) {
        check(self.p.first_proof_id() == AbsConstraintId::new(self.nc + 1), "the first identifier of the proof follows the instance's constraints");
        check(self.p.next_id() == AbsConstraintId::new(self.next), "the next identifier is the one the checker assigns next");
    }
    fn got(&mut self, id: AbsConstraintId) {
        check(id == AbsConstraintId::new(self.next), "the identifier returned is the one the checker assigns");
        self.next += 1;
        self.ids();
    }
    /// ends the proof; hands the reader over what follows the header
    fn end(mut self, f: impl FnOnce(&mut Rd)) {
        self.ids();
        let id = self.p.reverse_unit_prop(&K::some(3), None).unwrap();
        self.got(id);
        let nc = self.nc;
        let out = self.p.conclude::<Var>(OutputGuarantee::None, &Conclusion::None).unwrap();
        let mut r = Rd { b: &out, i: 0 };
        header(&mut r, nc);
        f(&mut r);
        rup(&mut r, &K::some(3), &[]);
        r.kw(&["output"]);
        r.kw(&["NONE"]);
        r.eol();
        r.kw(&["conclusion"]);
        r.kw(&["NONE"]);
        r.eol();
        tail(&mut r);
        witness(1);
    }
}
fn header(r: &mut Rd, nc: usize) {
    for w in ["pseudo-Boolean", "proof", "version", "2.0"] {
        r.kw(&[w]);
    }
    r.eol();
    r.kw(&["f"]);
    r.is(nc as i64);
    r.eol();
}
fn tail(r: &mut Rd) {
    for w in ["end", "pseudo-Boolean", "proof"] {
        r.kw(&[w]);
    }
    r.eol();
    r.eof();
}
fn rup(r: &mut Rd, k: &K, h: &[Id]) {
    r.kw(&["rup", "u"]);
    r.con(k);
    r.semi();
    for i in h {
        r.id(*i);
    }
    r.eol();
}

/// [kind, number of ids or terms, second number, magnitude]
fn step(p: Args) {
    let (n, n2, m) = (p[1] as usize, p[2] as usize, p[3].max(1));
    let mut q = P::new(matches!(p[0], 18..=20), m.min(9));
    // numbers of several digits stand in one place at a time
    let slot = if m > 9 { pick(3) } else { 3 };
    let at = |i: usize| if slot == i { m } else { m.min(9) };
    let k = K { t: (0..n).map(|_| (signed(at(0)), L::any())).collect(), d: signed(at(1)) };
    let m = at(2);
    match p[0] {
        0 => {
            let h: Vec<Id> = (0..n2).map(|_| Id::any(m)).collect();
            let id = q.p.reverse_unit_prop(&k, h.iter().map(|i| i.id())).unwrap();
            q.got(id);
            q.end(|r| rup(r, &k, &h));
        }
        1 => {
            let i = Id::any(m);
            let id = q.p.operations::<Var>(&OperationSequence::from(i.id())).unwrap();
            q.got(id);
            let l = L::any();
            let id = q.p.operations::<Var>(&OperationSequence::from(l.a())).unwrap();
            q.got(id);
            q.end(|r| {
                r.kw(&["pol", "p"]);
                r.id(i);
                r.eol();
                r.kw(&["pol", "p"]);
                r.ax(l);
                r.eol();
            });
        }
        2 | 3 => {
            let s: Vec<S> = (0..n2).map(|_| S::any()).collect();
            let it = s.iter().map(|s| s.s());
            let id = if p[0] == 2 { q.p.redundant(&k, it, none()) } else { q.p.dominated(&k, it, none()) }.unwrap();
            q.got(id);
            q.end(|r| {
                r.kw(&[if p[0] == 2 { "red" } else { "dom" }]);
                r.con(&k);
                r.semi();
                for s in &s {
                    r.sub(*s);
                }
                r.eol();
            });
        }
        4..=7 => {
            let i = if n2 == 1 { Some(Id::any(m)) } else { None };
            let ii = i.map(|i| i.id());
            match p[0] {
                4 => q.p.equals(&k, ii).unwrap(),
                5 => {
                    let id = q.p.equals_add(&k, ii).unwrap();
                    q.got(id);
                }
                6 => q.p.implied(&k, ii).unwrap(),
                _ => {
                    let id = q.p.implied_add(&k, ii).unwrap();
                    q.got(id);
                }
            }
            q.end(|r| {
                r.kw(&[["e", "ea", "i", "ia"][p[0] as usize - 4]]);
                r.con(&k);
                r.semi();
                if let Some(i) = i {
                    r.id(i);
                }
                r.eol();
            });
        }
        8 | 11 | 12 | 13 => {
            let h: Vec<Id> = (0..n2).map(|_| Id::any(m)).collect();
            let it = h.iter().map(|i| i.id());
            match p[0] {
                8 => q.p.delete_ids(it, none()),
                11 => q.p.delete_core_ids(it),
                12 => q.p.delete_derived_ids(it),
                _ => q.p.move_ids_to_core(it),
            }
            .unwrap();
            q.end(|r| {
                match p[0] {
                    8 => {
                        r.kw(&["del"]);
                        r.kw(&["id"]);
                    }
                    11 => r.kw(&["delc"]),
                    12 => r.kw(&["deld"]),
                    _ => {
                        r.kw(&["core"]);
                        r.kw(&["id"]);
                    }
                }
                for i in &h {
                    r.id(*i);
                }
                if r.ahead(b';') {
                    r.semi();
                }
                r.eol();
            });
        }
        9 => {
            q.p.delete_constr(&k).unwrap();
            q.end(|r| {
                r.kw(&["del"]);
                r.kw(&["spec"]);
                r.con(&k);
                r.semi();
                r.eol();
            });
        }
        15..=17 => {
            let ls: Vec<L> = (0..n2).map(|_| L::any()).collect();
            let it = ls.iter().map(|l| l.a());
            match p[0] {
                15 => q.p.solution(it).unwrap(),
                16 => {
                    let id = q.p.exclude_solution(it).unwrap();
                    q.got(id);
                }
                _ => {
                    let id = q.p.improve_solution(it).unwrap();
                    q.got(id);
                }
            }
            q.end(|r| {
                r.kw(&[["sol", "solx", "soli"][p[0] as usize - 15]]);
                for l in &ls {
                    r.ax(*l);
                }
                r.eol();
            });
        }
        18..=20 => {
            let o = O { t: k.t, off: k.d };
            match p[0] {
                18 => q.p.obj_equals(&o).unwrap(),
                19 => {
                    let u: ObjectiveUpdate<Var, &ORef, K> = ObjectiveUpdate::new(oref(&o), []);
                    q.p.update_objective(&u).unwrap();
                }
                _ => {
                    let u: ObjectiveUpdate<Var, &ORef, K> = ObjectiveUpdate::diff(oref(&o));
                    q.p.update_objective(&u).unwrap();
                }
            }
            q.end(|r| {
                match p[0] {
                    18 => r.kw(&["eobj"]),
                    19 => {
                        r.kw(&["obju"]);
                        r.kw(&["new"]);
                    }
                    _ => {
                        r.kw(&["obju"]);
                        r.kw(&["diff"]);
                    }
                }
                obj(r, &o);
                r.semi();
                r.eol();
            });
        }
        21 | 22 => {
            let v = range(0, 99) as usize;
            if p[0] == 21 { q.p.set_level(v) } else { q.p.wipe_level(v) }.unwrap();
            q.end(|r| {
                r.kw(&[if p[0] == 21 { "#" } else { "w" }]);
                r.is(v as i64);
                r.eol();
            });
        }
        23 => {
            let v = choice();
            q.p.strengthening_to_core(v).unwrap();
            q.end(|r| {
                r.kw(&["strengthening_to_core"]);
                r.kw(&[if v { "on" } else { "off" }]);
                r.eol();
            });
        }
        24 => {
            let vs: Vec<u32> = (0..n2).map(|_| range(0, 8) as u32).collect();
            q.p.load_order("simple", vs.iter().map(|v| Var::new(*v))).unwrap();
            q.end(|r| {
                r.kw(&["load_order"]);
                r.kw(&["simple"]);
                for v in &vs {
                    r.ax(L { v: *v, n: false });
                }
                r.eol();
            });
        }
        25 => {
            // a comment of several lines: each of them is one
            let c: Vec<u8> = (0..n2).map(|_| byte_in(b"a\n*")).collect();
            let c: Vec<u8> = c.into_iter().map(|b| concretize(b as u64) as u8).collect();
            q.p.multiline_comment(std::str::from_utf8(&c).unwrap()).unwrap();
            let v = range(0, 99);
            q.p.comment(&v).unwrap();
            q.end(|r| {
                let mut lines: Vec<&[u8]> = c.split(|b| *b == b'\n').collect();
                if lines.last() == Some(&&b""[..]) {
                    lines.pop();
                }
                for l in lines {
                    r.kw(&["*"]);
                    if !l.is_empty() {
                        check(r.word() == l, "the comment is the one given");
                    }
                    r.eol();
                }
                r.kw(&["*"]);
                r.is(v as i64);
                r.eol();
            });
        }
        26 => {
            let v = range(0, 99) as usize;
            q.p.verify_num_constraints(v).unwrap();
            let a = q.p.new_proof_var();
            let b = q.p.new_proof_var();
            check(a != b, "variables of the proof differ from each other");
            let (n1, n2) = (bool_(), bool_());
            q.p.redundant(&One(a.axiom(n1)), [b.substitute_literal(a.axiom(n2))], Vec::<SubproofElement<ProofOnlyVar, One>>::new()).unwrap();
            q.next += 1;
            q.end(|r| {
                r.kw(&["f"]);
                r.is(v as i64);
                r.eol();
                r.kw(&["red"]);
                r.is(1);
                let pv = |r: &mut Rd| {
                    let w = r.word();
                    let (n, w) = if w.first() == Some(&b'~') { (true, &w[1..]) } else { (false, w) };
                    check(w.starts_with(b"pv"), "name of a variable that is only in the proof");
                    (n, number(&w[2..]))
                };
                let (n, i) = pv(r);
                check(n == n1, "sign of the literal");
                r.kw(&[">="]);
                r.is(1);
                r.semi();
                let (n, j) = pv(r);
                check(!n & (i != j), "the substituted variable");
                r.kw(&["->"]);
                let (n, j) = pv(r);
                check((n == n2) & (i == j), "the substituting literal");
                r.eol();
            });
        }
        _ => {}
    }
}
struct One(Axiom<ProofOnlyVar>);
impl ConstraintLike<ProofOnlyVar> for One {
    fn rhs(&self) -> isize {
        1
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<ProofOnlyVar>)> {
        std::iter::once((1, self.0))
    }
}
#[repr(transparent)]
struct ORef(O);
fn oref(o: &O) -> &ORef {
    // `ORef` is a transparent wrapper
    unsafe { &*(o as *const O as *const ORef) }
}
impl ObjectiveLike<Var> for &ORef {
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        self.0.t.iter().map(|(k, l)| (*k, l.a()))
    }
    fn offset(&self) -> isize {
        self.0.off
    }
}
/// an objective: terms, and a constant unless it is 0
fn obj(r: &mut Rd, o: &O) {
    for (k, l) in &o.t {
        r.is(*k as i64);
        r.ax(*l);
    }
    if r.ahead(b';') {
        check(o.off == 0, "the constant of the objective is written");
    } else {
        r.is(o.off as i64);
    }
}

#[derive(Clone)]
enum D {
    Rup(K, Vec<Id>),
    Ops(Id, L),
}
impl D {
    fn any(kind: usize) -> D {
        match kind {
            0 => D::Rup(K::some(range(0, 8) as u32 & !1), vec![]),
            1 => D::Rup(K::some(1), vec![Id::any(9), Id::any(9)]),
            _ => D::Ops(Id::any(9), L::any()),
        }
    }
    fn d(&self) -> Derivation<Var, K> {
        match self {
            D::Rup(k, h) => Derivation::Rup(k.clone(), h.iter().map(|i| i.id()).collect()),
            D::Ops(i, l) => (i.id() + l.a()).into(),
        }
    }
    fn read(&self, r: &mut Rd) {
        match self {
            D::Rup(k, h) => rup(r, k, h),
            D::Ops(i, l) => {
                r.kw(&["pol", "p"]);
                r.id(*i);
                r.ax(*l);
                r.kw(&["+"]);
                r.eol();
            }
        }
    }
}
struct G {
    spec: Option<usize>,
    of: Id,
    ds: Vec<D>,
}
impl G {
    fn any(nd: usize) -> G {
        let spec = if choice() { Some(range(1, 99) as usize) } else { None };
        let of = if spec.is_none() { Id::any(9) } else { Id { rel: false, n: 1 } };
        G { spec, of, ds: (0..nd).map(|i| D::any(i % 3)).collect() }
    }
    fn g(&self) -> ProofGoal<Var, K> {
        let id = match self.spec {
            Some(n) => ProofGoalId::specific(n),
            None => ProofGoalId::from(self.of.id()),
        };
        if choice() {
            ProofGoal::new(id, self.ds.iter().map(|d| d.d()))
        } else {
            let mut g = ProofGoal::empty(id);
            g.extend(self.ds.iter().map(|d| d.d()));
            g
        }
    }
    fn read(&self, r: &mut Rd) {
        r.kw(&["proofgoal"]);
        match self.spec {
            Some(n) => {
                let w = r.word();
                check(w.first() == Some(&b'#'), "a numbered goal");
                check(number(&w[1..]) == n as i64, "number of the goal");
            }
            None => r.id(self.of),
        }
        r.eol();
        for d in &self.ds {
            d.read(r);
        }
        // a goal is closed by its last derivation
        r.kw(&["qed"]);
        r.is(-1);
        r.eol();
    }
}
/// [step: 0 red, 1 dom, 2 del, 3 obju; layout of the elements; derivations per goal; kind of derivation]
fn subproof(p: Args) {
    let mut q = P::new(p[0] == 3, 9);
    let k = K::some(2);
    // layout: digits 1 derivation, 2 goal, from the lowest
    let mut lay = p[1];
    let mut es: Vec<Result<D, G>> = vec![];
    while lay > 0 {
        es.push(if lay % 10 == 1 { Ok(D::any(p[3] as usize)) } else { Err(G::any(p[2] as usize)) });
        lay /= 10;
    }
    let ids: usize = es
        .iter()
        .map(|e| match e {
            Ok(_) => 1,
            // the negated goal and what is derived from it
            Err(g) => 1 + g.ds.len(),
        })
        .sum();
    let el = || {
        es.iter()
            .map(|e| match e {
                Ok(d) => SubproofElement::from(d.d()),
                Err(g) => SubproofElement::from(g.g()),
            })
            .collect::<Vec<_>>()
    };
    let read = |r: &mut Rd| {
        r.eol();
        for e in &es {
            match e {
                Ok(d) => d.read(r),
                Err(g) => g.read(r),
            }
        }
        r.kw(&["end"]);
        r.eol();
    };
    match p[0] {
        0 | 1 => {
            let s = S::any();
            let id = if p[0] == 0 { q.p.redundant(&k, [s.s()], el()) } else { q.p.dominated(&k, [s.s()], el()) }.unwrap();
            // the negated constraint comes first
            q.next += 1 + ids;
            q.got(id);
            q.end(|r| {
                r.kw(&[if p[0] == 0 { "red" } else { "dom" }]);
                r.con(&k);
                r.semi();
                r.sub(s);
                r.semi();
                r.kw(&["begin"]);
                read(r);
            });
        }
        2 => {
            let i = Id::any(9);
            q.p.delete_ids([i.id()], el()).unwrap();
            q.next += 1 + ids;
            q.end(|r| {
                r.kw(&["del"]);
                r.kw(&["id"]);
                r.id(i);
                r.semi();
                // no substitution
                r.semi();
                r.kw(&["begin"]);
                read(r);
            });
        }
        _ => {
            let o = O { t: vec![(3, L { v: 1, n: false })], off: 0 };
            let gs: Vec<ProofGoal<Var, K>> = es.iter().filter_map(|e| e.as_ref().err()).map(|g| g.g()).collect();
            let u: ObjectiveUpdate<Var, &ORef, K> = ObjectiveUpdate::new(oref(&o), gs);
            q.p.update_objective(&u).unwrap();
            q.next += ids;
            q.end(|r| {
                r.kw(&["obju"]);
                r.kw(&["new"]);
                obj(r, &o);
                r.semi();
                r.kw(&["begin"]);
                read(r);
            });
        }
    }
}

/// [0 del, 1 core; start 0 included, 1 excluded, 2 unbounded; end likewise; magnitude]
fn ranges(p: Args) {
    use std::ops::Bound;
    let mut q = P::new(false, p[3]);
    let (a, b) = (Id::any(p[3]), Id::any(p[3]));
    let bound = |k: u64, i: Id| match k {
        0 => Bound::Included(i.id()),
        1 => Bound::Excluded(i.id()),
        _ => Bound::Unbounded,
    };
    let next = q.next;
    let lo = match p[1] {
        0 => a.abs(next),
        1 => a.abs(next) + 1,
        _ => 1,
    };
    let hi = match p[2] {
        0 => b.abs(next) + 1,
        1 => b.abs(next),
        _ => next as i64,
    };
    // identifiers that count from the end exist
    assume(p[1] == 2 || a.abs(next) > 0);
    assume(p[2] == 2 || b.abs(next) > 0);
    // documented: empty ranges panic
    allow_panic(lo >= hi);
    let r = (bound(p[1], a), bound(p[2], b));
    if p[0] == 0 { q.p.delete_id_range(r) } else { q.p.move_range_to_core(r) }.unwrap();
    check(lo < hi, "empty ranges are rejected");
    q.end(|r| {
        r.kw(&[if p[0] == 0 { "del" } else { "core" }]);
        r.kw(&["range"]);
        let abs = |n: i64| if n < 0 { next as i64 + n } else { n };
        let (x, y) = (r.num(), r.num());
        check((x != 0) & (y != 0), "identifiers are not zero");
        check(abs(x) == lo, "first identifier of the range");
        check(abs(y) == hi, "the identifier after the range");
        r.eol();
    });
}

// ------------------------------------------------------------ operation sequences
/// what a sequence computes: coefficients and degree, without cancellation
#[derive(Clone, Copy)]
struct Val {
    e: bool,
    v: [u32; 3],
}
const ZERO: Val = Val { e: true, v: [0; 3] };
impl Val {
    fn add(self, o: Val) -> Val {
        Val { e: self.e & o.e, v: [self.v[0] + o.v[0], self.v[1] + o.v[1], self.v[2] + o.v[2]] }
    }
    fn mul(self, k: u32) -> Val {
        Val { e: self.e || k == 0, v: self.v.map(|x| x * k) }
    }
    fn div(self, k: u32) -> Val {
        Val { e: self.e, v: self.v.map(|x| (x + k - 1) / k) }
    }
    fn sat(self) -> Val {
        let m = |x: u32| ite(x < self.v[2], x as u64, self.v[2] as u64) as u32;
        Val { e: self.e, v: [m(self.v[0]), m(self.v[1]), self.v[2]] }
    }
}
struct Env {
    con: Vec<[u32; 3]>,
}
impl Env {
    fn id(&self, i: usize) -> Val {
        Val { e: false, v: self.con[i] }
    }
    fn ax(&self, v: u32, n: bool) -> Val {
        // four axioms, told apart by independent symbolic values
        Val { e: false, v: self.con[4 + 2 * v as usize + n as usize] }
    }
    fn eval(&self, w: &mut Rd) -> Val {
        let mut st: Vec<Val> = vec![];
        let mut nums: Option<u32> = None;
        loop {
            let t = w.word();
            if t.is_empty() {
                break;
            }
            if let Some(n) = nums.take() {
                if t == b"*" || t == b"d" {
                    check(!st.is_empty() && n > 0, "operand of a multiplication or division");
                    let x = st.pop().unwrap();
                    st.push(if t == b"*" { x.mul(n) } else { x.div(n) });
                    continue;
                }
                st.push(self.id(n as usize));
            }
            if t == b"+" {
                check(st.len() >= 2, "operands of an addition");
                let b = st.pop().unwrap();
                let a = st.pop().unwrap();
                st.push(a.add(b));
            } else if t == b"s" {
                check(!st.is_empty(), "operand of a saturation");
                let a = st.pop().unwrap();
                st.push(a.sat());
            } else if t[0] == b'x' {
                st.push(self.ax(number(&t[1..]) as u32 - 1, false));
            } else if t[0] == b'~' {
                st.push(self.ax(number(&t[2..]) as u32 - 1, true));
            } else {
                nums = Some(number(t) as u32);
            }
        }
        if let Some(n) = nums {
            st.push(self.id(n as usize));
        }
        check(st.len() == 1, "one constraint is left at the end");
        st[0]
    }
}
/// the base of an operand: an identifier or a literal
fn base(env: &Env) -> (OperationSequence<Var>, Val) {
    match pick(4) {
        0 => (ConstraintId::abs(1).into(), env.id(1)),
        1 => (AbsConstraintId::new(2).into(), env.id(2)),
        2 => (Var::new(0).pos_axiom().into(), env.ax(0, false)),
        _ => (OperationSequence::empty(), ZERO),
    }
}
/// [number of operations, first operation + 100 * second operation (99 any), form of added sequences, 1: add an operation on a literal]
fn ops(p: Args) {
    let env = Env { con: (0..8).map(|_| [range(0, 200) as u32, range(0, 200) as u32, range(0, 200) as u32]).collect() };
    let (mut s, mut v) = base(&env);
    for i in 0..p[0] {
        let op = if i < 2 && p[1] / [1, 100][i as usize] % 100 != 99 { (p[1] / [1, 100][i as usize] % 100) as usize } else { pick(10) };
        match op {
            0 => {
                // single operands added from the right
                match pick(4) {
                    0 => {
                        s = s + ConstraintId::abs(3);
                        v = v.add(env.id(3));
                    }
                    1 => {
                        s = s + Var::new(1).neg_axiom();
                        v = v.add(env.ax(1, true));
                    }
                    2 => {
                        s += AbsConstraintId::new(2);
                        v = v.add(env.id(2));
                    }
                    _ => {
                        s += Var::new(1).pos_axiom();
                        v = v.add(env.ax(1, false));
                    }
                }
            }
            1 => {
                // and from the left
                match pick(3) {
                    0 => {
                        s = ConstraintId::abs(3) + s;
                        v = env.id(3).add(v);
                    }
                    1 => {
                        s = AbsConstraintId::new(1) + s;
                        v = env.id(1).add(v);
                    }
                    _ => {
                        s = Var::new(0).neg_axiom() + s;
                        v = env.ax(0, true).add(v);
                    }
                }
            }
            2 | 3 => {
                // a sequence of its own
                let (t, w) = base(&env);
                let (t, w) = match p[2] {
                    0 => (t, w),
                    1 => (t * 2, w.mul(2)),
                    _ => {
                        let (u, x) = base(&env);
                        ((t + u).saturate(), w.add(x).sat())
                    }
                };
                v = v.add(w);
                if op == 2 {
                    s = s + t;
                } else {
                    s += t;
                }
            }
            4 | 5 | 6 => {
                let k = pick(4);
                v = v.mul(k as u32);
                match op {
                    4 => s = s * k,
                    5 => s *= k,
                    _ => s = k * s,
                }
            }
            7 | 8 => {
                let k = 1 + pick(3);
                v = v.div(k as u32);
                if op == 7 {
                    s = s / k;
                } else {
                    s /= k;
                }
            }
            _ => {
                s = s.saturate();
                v = v.sat();
            }
        }
    }
    // operations on literals and pairs of operands as such
    if p[3] == 1 {
        let l = Var::new(1).neg_axiom();
        let w = env.ax(1, true);
        let (t, w) = match pick(8) {
            0 => (l * 3, w.mul(3)),
            1 => (l / 2, w.div(2)),
            2 => (OperationLike::saturate(l), w.sat()),
            3 => (l + ConstraintId::abs(2), w.add(env.id(2))),
            4 => (l + AbsConstraintId::new(2), w.add(env.id(2))),
            5 => (l + Var::new(0).pos_axiom(), w.add(env.ax(0, false))),
            6 => (ConstraintId::abs(2) + l, env.id(2).add(w)),
            _ => (AbsConstraintId::new(2) + l, env.id(2).add(w)),
        };
        s = s + t;
        v = v.add(w);
    }
    check(s.is_empty() == v.e, "a sequence is empty iff it denotes nothing");
    if v.e {
        return;
    }
    let txt = format!("{s}\n");
    let mut r = Rd { b: txt.as_bytes(), i: 0 };
    let g = env.eval(&mut r);
    check((g.v[0] == v.v[0]) & (g.v[1] == v.v[1]) & (g.v[2] == v.v[2]), "the sequence written computes what was put together");
    witness(1);
}

// ------------------------------------------------------------ constraints and objectives of the main crate
fn sums(r: &mut Rd, bits: &[u8], until: u8) -> i64 {
    let mut s = 0i64;
    while !r.ahead(until) && !r.ahead(b'\n') {
        let k = r.num();
        if r.ahead(until) {
            // the constant
            return s + k;
        }
        let (v, n) = r.lit();
        let v = concretize(v as u64) as usize;
        check(v < bits.len(), "variable of the constraint");
        s += ite(bits[v] ^ n as u8 == 1, k as u64, 0) as i64;
    }
    s
}
struct ClRef<'a>(&'a Cl);
impl ConstraintLike<Var> for ClRef<'_> {
    fn rhs(&self) -> isize {
        self.0.rhs()
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<Var>)> {
        self.0.sum_iter()
    }
}
/// [0 clause, 1 borrowed clause, 2 cardinality <=, 3 >=, 4 PB <=, 5 PB >=, 6 axiom; n; magnitude; -]
fn constr(p: Args) {
    let n = p[1] as usize;
    let bs = bits(n);
    let mut q = P::new(false, 3);
    let neg: Vec<bool> = (0..n).map(|_| choice()).collect();
    let ls: Vec<Lit> = (0..n).map(|i| Lit::new(i as u32, neg[i])).collect();
    let lv: Vec<u8> = (0..n).map(|i| bs[i] ^ neg[i] as u8).collect();
    let hold;
    let id = match p[0] {
        0 | 1 => {
            hold = sum(&lv) >= 1;
            if p[0] == 0 {
                q.p.reverse_unit_prop(&Clause::from_iter(ls.iter().copied()), None)
            } else {
                q.p.reverse_unit_prop(&ClRef(Cl::new(&ls)), None)
            }
        }
        2 | 3 => {
            // `<=` with a bound above the number of literals has a negative right-hand side
            let b = range(0, p[2]) as usize;
            let c = if p[0] == 2 {
                hold = sum(&lv) <= b as u64;
                CardConstraint::new_ub(ls.iter().copied(), b)
            } else {
                hold = sum(&lv) >= b as u64;
                CardConstraint::new_lb(ls.iter().copied(), b)
            };
            q.p.reverse_unit_prop(&c, None)
        }
        4 | 5 => {
            let ws: Vec<isize> = (0..n).map(|_| signed(p[2])).collect();
            let b = signed(2 * p[2]);
            let mut s = 0i64;
            for i in 0..n {
                s += ite(lv[i] == 1, ws[i] as u64, 0) as i64;
            }
            let it: Vec<(Lit, isize)> = (0..n).map(|i| (ls[i], ws[i])).collect();
            let c = if p[0] == 4 {
                hold = s <= b as i64;
                PbConstraint::new_ub(it, b)
            } else {
                hold = s >= b as i64;
                PbConstraint::new_lb(it, b)
            };
            q.p.reverse_unit_prop(&c, None)
        }
        _ => {
            hold = lv[0] == 1;
            q.p.reverse_unit_prop(&Axiom::from(ls[0]), None)
        }
    }
    .unwrap();
    q.got(id);
    q.end(|r| {
        r.kw(&["rup", "u"]);
        let s = sums(r, &bs, b'>');
        r.kw(&[">="]);
        let d = r.num();
        check((s >= d) == hold, "the constraint written holds iff the constraint does");
        r.semi();
        r.eol();
    });
}
/// [weighted, n, magnitude, signed]
fn object(p: Args) {
    let n = p[1] as usize;
    let bs = bits(n);
    let mut q = P::new(true, 3);
    let mut o = Objective::default();
    let mut cost = 0i64;
    for i in 0..n {
        let neg = choice();
        // the last literal is over the first variable again
        let v = if i + 1 == n && n > 2 { 0 } else { i };
        let l = Lit::new(v as u32, neg);
        let w = if p[3] == 1 { signed(p[2]) } else { range(1, p[2]) as isize };
        o.increase_soft_lit_int(w, l);
        // a soft literal costs when it is true
        cost += ite(bs[v] ^ neg as u8 == 1, w as u64, 0) as i64;
    }
    let off = signed(p[2]);
    o.increase_offset(off);
    cost += off as i64;
    match p[0] {
        0 => q.p.obj_equals::<Var, _>(&o).unwrap(),
        1 => q.p.update_objective::<Var, _, K>(&ObjectiveUpdate::new(o, [])).unwrap(),
        _ => q.p.update_objective::<Var, _, K>(&ObjectiveUpdate::diff(o)).unwrap(),
    }
    q.end(|r| {
        match p[0] {
            0 => r.kw(&["eobj"]),
            1 => {
                r.kw(&["obju"]);
                r.kw(&["new"]);
            }
            _ => {
                r.kw(&["obju"]);
                r.kw(&["diff"]);
            }
        }
        let s = sums(r, &bs, b';');
        check(s == cost, "the objective written has the value of the objective");
        r.semi();
        r.eol();
    });
}

// ------------------------------------------------------------ orders
struct OK(Vec<(isize, bool, OrderVar<Var>)>, isize);
impl ConstraintLike<OrderVar<Var>> for OK {
    fn rhs(&self) -> isize {
        self.1
    }
    fn sum_iter(&self) -> impl Iterator<Item = (isize, Axiom<OrderVar<Var>>)> {
        self.0.iter().map(|(k, n, v)| (*k, v.axiom(*n)))
    }
}
fn ovar(r: &mut Rd, pre: &[u8], v: u32) {
    let w = r.word();
    check(w.starts_with(pre), "name of a variable in an order");
    check(number(&w[pre.len()..]) == v as i64 + 1, "variable of an order");
}
/// [number of variables, definition constraints, reflexivity proofs (mask), derivations]
fn order(p: Args) {
    let mut q = P::new(false, 9);
    let (nv, nd) = (p[0] as usize, p[1] as usize);
    let mut ord: Order<Var, OK> = Order::new("simple".to_string());
    check(ord.name() == "simple", "name of the order");
    let vs: Vec<u32> = (0..nv).map(|i| 2 * i as u32).collect();
    let mut ov = vec![];
    for v in &vs {
        ov.push(ord.use_var(Var::new(*v)));
        // using a variable again changes nothing
        if choice() {
            ord.use_var(Var::new(*v));
        }
    }
    check(ord.used_vars().count() == nv, "number of used variables");
    let mut defs = vec![];
    for i in 0..nd {
        let (k, n, d) = (signed(9), choice(), signed(9));
        let tr: Vec<Id> = (0..p[3]).map(|_| Id::any(9)).collect();
        let rf: Vec<Id> = (0..p[3]).map(|_| Id::any(9)).collect();
        let refl = p[2] >> i & 1 == 1;
        let c = OK(vec![(k, n, ov[i % nv].0), (1, false, ov[i % nv].1)], d);
        let der = |ids: &[Id]| ids.iter().map(|i| (i.id() + OrderVar::FreshRight(Var::new(4)).neg_axiom()).into()).collect::<Vec<Derivation<OrderVar<Var>, OK>>>();
        ord.add_definition_constraint(c, der(&tr), if refl { Some(der(&rf)) } else { None });
        defs.push((k, n, d, tr, rf, refl));
    }
    q.p.define_order(&ord).unwrap();
    q.end(|r| {
        let line = |r: &mut Rd, ws: &[&str]| {
            for w in ws {
                r.kw(&[w]);
            }
        };
        let vars = |r: &mut Rd, pre: &[u8]| {
            // in any order, each once
            let mut seen = 0u32;
            while !r.ahead(b'\n') {
                let w = r.word();
                check(w.len() > 3 && &w[..3] == pre, "name of a variable in an order");
                let v = number(&w[3..]) - 1;
                let at = vs.iter().position(|x| *x as i64 == v);
                check(at.is_some(), "variable of an order");
                seen = seen * 16 + 1 + at.unwrap_or(0) as u32;
            }
            seen
        };
        line(r, &["def_order", "simple"]);
        r.eol();
        line(r, &["vars"]);
        r.eol();
        line(r, &["left"]);
        let a = vars(r, b"u_x");
        r.eol();
        line(r, &["right"]);
        let b = vars(r, b"v_x");
        r.eol();
        line(r, &["aux"]);
        r.eol();
        line(r, &["end"]);
        r.eol();
        let mut all = 0;
        for i in 0..nv {
            all += 1 + i as u32;
        }
        let tot = |mut s: u32| {
            let mut t = 0;
            while s > 0 {
                t += s % 16;
                s /= 16;
            }
            t
        };
        check(a == b && tot(a) == all, "left and right variables correspond and are all there");
        line(r, &["def"]);
        r.eol();
        for (i, (k, n, d, ..)) in defs.iter().enumerate() {
            r.is(*k as i64);
            ovar(r, if *n { b"~u_x" } else { b"u_x" }, vs[i % nv]);
            r.is(1);
            ovar(r, b"v_x", vs[i % nv]);
            r.kw(&[">="]);
            r.is(*d as i64);
            r.semi();
            r.eol();
        }
        line(r, &["end"]);
        r.eol();
        line(r, &["transitivity"]);
        r.eol();
        line(r, &["vars"]);
        r.eol();
        line(r, &["fresh_right"]);
        let c = vars(r, b"w_x");
        check(a == c, "fresh variables correspond to the others");
        r.eol();
        line(r, &["end"]);
        r.eol();
        line(r, &["proof"]);
        r.eol();
        let goal = |r: &mut Rd, i: usize, ids: &[Id]| {
            r.kw(&["proofgoal"]);
            let w = r.word();
            check(w.first() == Some(&b'#'), "goals are numbered");
            check(number(&w[1..]) == i as i64 + 1, "number of the goal");
            r.eol();
            for d in ids {
                r.kw(&["pol", "p"]);
                r.id(*d);
                r.kw(&["~w_x5"]);
                r.kw(&["+"]);
                r.eol();
            }
            line(r, &["qed", "-1"]);
            r.eol();
        };
        for (i, d) in defs.iter().enumerate() {
            goal(r, i, &d.3);
        }
        line(r, &["qed"]);
        r.eol();
        line(r, &["end"]);
        r.eol();
        if defs.iter().any(|d| d.5) {
            line(r, &["reflexivity"]);
            r.eol();
            line(r, &["proof"]);
            r.eol();
            for (i, d) in defs.iter().enumerate() {
                if d.5 {
                    goal(r, i, &d.4);
                }
            }
            line(r, &["qed"]);
            r.eol();
            line(r, &["end"]);
            r.eol();
        }
        line(r, &["end"]);
        r.eol();
    });
}

// ------------------------------------------------------------ endings
struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// [conclusion; 0 concluded, 1 dropped, 2 dropped after an update, 3 made with it and dropped, 4 dropped with a default that is overruled; options; guarantee]
fn ending(p: Args) {
    let nc = range(0, 9) as usize;
    let g = |k: u64| {
        let t = if k & 1 == 1 { OutputType::File } else { OutputType::Implicit };
        match k / 2 {
            0 => OutputGuarantee::None,
            1 => OutputGuarantee::Derivable(t),
            2 => OutputGuarantee::Equisatisfiable(t),
            _ => OutputGuarantee::Equioptimal(t),
        }
    };
    let id = if p[2] & 1 == 1 { Some(Id::any(99)) } else { None };
    let sol: Option<Vec<L>> = if p[2] & 2 == 2 { Some((0..2).map(|_| L::any()).collect()) } else { None };
    let lo = signed(12);
    let hi = lo + range(0, 12) as isize;
    let ax = sol.as_ref().map(|s| s.iter().map(|l| l.a()).collect::<Vec<_>>());
    let c: Conclusion<Var> = match p[0] {
        0 => Conclusion::None,
        1 => Conclusion::Sat(ax),
        2 => Conclusion::Unsat(id.map(|i| i.id())),
        _ => Conclusion::Bounds { range: lo..hi + 1, lb_id: id.map(|i| i.id()), ub_sol: ax },
    };
    let buf = std::rc::Rc::new(std::cell::RefCell::new(Vec::with_capacity(512)));
    let w = Shared(buf.clone());
    let mut none = false;
    match p[1] {
        0 => {
            let q = Proof::new(w, nc, false).unwrap();
            q.conclude(g(p[3]), &c).unwrap();
        }
        1 => {
            none = true;
            drop(Proof::new(w, nc, false).unwrap());
        }
        2 => {
            let mut q = Proof::new(w, nc, true).unwrap();
            q.update_default_conclusion(g(p[3]), &c);
        }
        3 => {
            let q = Proof::new_with_conclusion(w, nc, false, g(p[3]), &c).unwrap();
            check(q.first_proof_id() == AbsConstraintId::new(nc + 1), "first identifier of the proof");
            check(q.next_id() == AbsConstraintId::new(nc + 1), "next identifier of the proof");
        }
        _ => {
            let q = Proof::new_with_conclusion(w, nc, false, OutputGuarantee::Derivable(OutputType::File), &Conclusion::<Var>::Sat(None)).unwrap();
            q.conclude(g(p[3]), &c).unwrap();
        }
    }
    let out = buf.borrow().clone();
    let mut r = Rd { b: &out, i: 0 };
    header(&mut r, nc);
    r.kw(&["output"]);
    let gk = if none { 0 } else { p[3] };
    r.kw(&[["NONE", "DERIVABLE", "EQUISATISFIABLE", "EQUIOPTIMAL"][gk as usize / 2]]);
    if gk / 2 > 0 {
        r.kw(&[if gk & 1 == 1 { "FILE" } else { "IMPLICIT" }]);
    }
    r.eol();
    r.kw(&["conclusion"]);
    let lits = |r: &mut Rd| {
        if let Some(s) = &sol {
            r.kw(&[":"]);
            for l in s {
                r.ax(*l);
            }
        }
    };
    let cid = |r: &mut Rd| {
        if let Some(i) = id {
            r.kw(&[":"]);
            r.id(i);
        }
    };
    match if none { 0 } else { p[0] } {
        0 => r.kw(&["NONE"]),
        1 => {
            r.kw(&["SAT"]);
            lits(&mut r);
        }
        2 => {
            r.kw(&["UNSAT"]);
            cid(&mut r);
        }
        _ => {
            r.kw(&["BOUNDS"]);
            r.is(lo as i64);
            cid(&mut r);
            r.is(hi as i64);
            lits(&mut r);
        }
    }
    r.eol();
    tail(&mut r);
    witness(1);
}
