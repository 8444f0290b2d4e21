//! Certified encodings (E13): the proof text is checked line by line, every truth assignment to all variables of the proof being symbolic
use pigeons::{AbsConstraintId, Conclusion, OutputGuarantee, Proof};
use rustsat::encodings::card::cert as cc;
use rustsat::encodings::card::simulators as cs;
use rustsat::encodings::card::Totalizer;
use rustsat::encodings::cert::{CollectClauses as Certs, ConstraintEncodingError};
use rustsat::encodings::pb::cert as pc;
use rustsat::encodings::pb::simulators as ps;
use rustsat::encodings::pb::GeneralizedTotalizer as Gte;
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeLike};
use rustsat::encodings::totdb::{Db, Node, Semantics};
use rustsat::encodings::{CollectClauses, EnforceError};
use rustsat::instances::{BasicVarManager, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, Var};
use symlib::*;

entries!(card, pb, card_hist, pb_hist, db);

// ------------------------------------------------------------ pseudo-Boolean constraints
/// sum of |c[v]| * (c[v] > 0 ? v : not v) >= d
#[derive(Clone)]
struct Con {
    c: Vec<i64>,
    d: i64,
}
impl Con {
    fn new(nv: usize) -> Con {
        Con { c: vec![0; nv], d: 0 }
    }
    /// adds the term `k * (v xor neg)` to the left side
    fn term(&mut self, k: i64, v: usize, neg: bool) {
        if k < 0 {
            // -k l = -k + k (not l)
            self.d -= k;
            return self.term(-k, v, !neg);
        }
        let k = if neg { -k } else { k };
        let o = self.c[v];
        if (o > 0 && k < 0) || (o < 0 && k > 0) {
            self.d -= o.abs().min(k.abs());
        }
        self.c[v] = o + k;
    }
    fn of(nv: usize, ls: &[(Lit, i64)], d: i64) -> Con {
        let mut c = Con::new(nv);
        c.d = d;
        for (l, w) in ls {
            c.term(*w, l.vidx(), l.is_neg());
        }
        c
    }
    fn add(&mut self, o: &Con) {
        self.d += o.d;
        for v in 0..self.c.len() {
            if o.c[v] != 0 {
                self.term(o.c[v].abs(), v, o.c[v] < 0);
            }
        }
    }
    fn mul(&mut self, k: i64) {
        for c in &mut self.c {
            *c *= k;
        }
        self.d *= k;
    }
    fn div(&mut self, k: i64) {
        for c in &mut self.c {
            let a = (c.abs() + k - 1) / k;
            *c = if *c < 0 { -a } else { a };
        }
        self.d = if self.d > 0 { (self.d + k - 1) / k } else { self.d / k };
    }
    fn sat(&mut self) {
        let m = self.d.max(0);
        for c in &mut self.c {
            *c = (*c).clamp(-m, m);
        }
    }
    fn weaken(&mut self, v: usize) {
        self.d -= self.c[v].abs();
        self.c[v] = 0;
    }
    fn negated(&self) -> Con {
        let s: i64 = self.c.iter().map(|c| c.abs()).sum();
        Con { c: self.c.iter().map(|c| -c).collect(), d: s - self.d + 1 }
    }
    fn set(&self, v: usize, t: bool) -> Con {
        let mut r = self.clone();
        if (r.c[v] > 0) == t {
            r.d -= r.c[v].abs();
        }
        r.c[v] = 0;
        r
    }
    /// truth value, without branching
    fn val(&self, bits: &[u8]) -> u8 {
        if self.d <= 0 {
            return 1;
        }
        let mut s = 0u16;
        for v in 0..self.c.len() {
            let c = self.c[v];
            if c != 0 {
                s += (bits[v] ^ (c < 0) as u8) as u16 * c.unsigned_abs() as u16;
            }
        }
        (s >= self.d as u16) as u8
    }
    fn slack(&self, a: &[i8]) -> i64 {
        let mut s = -self.d;
        for v in 0..self.c.len() {
            let c = self.c[v];
            if c != 0 && !((c > 0 && a[v] < 0) || (c < 0 && a[v] > 0)) {
                s += c.abs();
            }
        }
        s
    }
}

// ------------------------------------------------------------ proof checker
struct Checker {
    nv: usize,
    db: Vec<Option<Con>>,
    val: Vec<u8>,
    bits: Vec<u8>,
}
fn num(t: &str) -> i64 {
    match t.parse::<i64>() {
        Ok(n) => n,
        Err(_) => {
            check(false, "the proof has a number where one is due");
            0
        }
    }
}
impl Checker {
    fn new(nv: usize, init: &[Con]) -> Checker {
        let mut k = Checker { nv, db: vec![None], val: vec![1], bits: bits(nv) };
        for c in init {
            let mut c = c.clone();
            c.c.resize(nv, 0);
            k.push(c);
        }
        k
    }
    fn push(&mut self, c: Con) {
        self.val.push(c.val(&self.bits));
        self.db.push(Some(c));
    }
    fn all(&self) -> u8 {
        let mut r = 1;
        for i in 1..self.db.len() {
            if self.db[i].is_some() {
                r &= self.val[i];
            }
        }
        r
    }
    fn id(&self, t: &str) -> usize {
        let n = num(t);
        let n = if n < 0 { self.db.len() as i64 + n } else { n };
        check(n > 0 && (n as usize) < self.db.len() && self.db[n as usize].is_some(), "a constraint that a proof step refers to exists and is not deleted");
        n as usize
    }
    fn lit(&self, t: &str) -> (usize, bool) {
        let (neg, t) = match t.strip_prefix('~') {
            Some(t) => (true, t),
            None => (false, t),
        };
        let v = match t.strip_prefix('x') {
            Some(t) => num(t) - 1,
            None => -1,
        };
        check(v >= 0 && (v as usize) < self.nv, "the proof uses variables of the encoding");
        (v as usize, neg)
    }
    fn constr<'a>(&self, ts: &mut impl Iterator<Item = &'a str>) -> Con {
        let mut c = Con::new(self.nv);
        loop {
            match ts.next() {
                Some(">=") => {
                    c.d += num(ts.next().unwrap_or(""));
                    return c;
                }
                Some(k) => {
                    let (v, n) = self.lit(ts.next().unwrap_or(""));
                    c.term(num(k), v, n);
                }
                None => {
                    check(false, "constraint is cut off");
                    return c;
                }
            }
        }
    }
    fn pol(&self, ts: &[&str]) -> Con {
        let mut st: Vec<Con> = vec![];
        let mut i = 0;
        while i < ts.len() {
            let t = ts[i];
            i += 1;
            let f = t.as_bytes()[0];
            if t == "+" {
                check(st.len() >= 2, "operands of an addition");
                let b = st.pop().unwrap();
                st.last_mut().unwrap().add(&b);
            } else if t == "s" {
                check(!st.is_empty(), "operand of a saturation");
                st.last_mut().unwrap().sat();
            } else if t == ";" {
                break;
            } else if f == b'x' || f == b'~' {
                let (v, n) = self.lit(t);
                if i < ts.len() && ts[i] == "w" {
                    i += 1;
                    check(!st.is_empty(), "operand of a weakening");
                    st.last_mut().unwrap().weaken(v);
                } else {
                    let mut c = Con::new(self.nv);
                    c.term(1, v, n);
                    st.push(c);
                }
            } else if i < ts.len() && (ts[i] == "*" || ts[i] == "d") {
                let k = num(t);
                check(k > 0 && !st.is_empty(), "operands of a multiplication or division");
                if ts[i] == "*" {
                    st.last_mut().unwrap().mul(k);
                } else {
                    st.last_mut().unwrap().div(k);
                }
                i += 1;
            } else {
                st.push(self.db[self.id(t)].clone().unwrap());
            }
        }
        check(st.len() == 1, "one constraint is left at the end");
        st.pop().unwrap()
    }
    /// unit propagation over the hinted constraints (all if there are none) and the negation reaches a conflict
    fn rup(&self, c: &Con, hints: &[usize]) -> bool {
        let mut set: Vec<Con> = if hints.is_empty() {
            self.db.iter().flatten().cloned().collect()
        } else {
            hints.iter().map(|i| self.db[*i].clone().unwrap()).collect()
        };
        set.push(c.negated());
        let mut a = vec![0i8; self.nv];
        loop {
            let mut changed = false;
            for k in &set {
                let s = k.slack(&a);
                if s < 0 {
                    return true;
                }
                for v in 0..self.nv {
                    if a[v] == 0 && k.c[v].abs() > s {
                        a[v] = if k.c[v] > 0 { 1 } else { -1 };
                        changed = true;
                    }
                }
            }
            if !changed {
                return false;
            }
        }
    }
    fn line(&mut self, l: &str) {
        let ts: Vec<&str> = l.split_ascii_whitespace().collect();
        if ts.is_empty() {
            return;
        }
        let mut it = ts[1..].iter().copied();
        match ts[0] {
            "*" => {}
            "pol" | "p" => {
                let c = self.pol(&ts[1..]);
                // what follows by cutting planes holds
                check(self.all() <= c.val(&self.bits), "a derived constraint is implied");
                self.push(c);
            }
            "rup" | "u" => {
                let c = self.constr(&mut it);
                check(it.next() == Some(";"), "end of the constraint");
                let h: Vec<usize> = it.map(|t| self.id(t)).collect();
                check(self.all() <= c.val(&self.bits), "a constraint added by unit propagation is implied");
                check(self.rup(&c, &h), "a constraint added by unit propagation follows by unit propagation from the hints");
                self.push(c);
            }
            "e" => {
                let c = self.constr(&mut it);
                check(it.next() == Some(";"), "end of the constraint");
                let i = match it.next() {
                    Some(t) => self.id(t),
                    None => self.db.len() - 1,
                };
                check(c.val(&self.bits) == self.val[i], "a stated equality holds");
            }
            "red" => {
                let c = self.constr(&mut it);
                check(it.next() == Some(";"), "end of the constraint");
                let mut sub: Vec<(usize, bool)> = vec![];
                while let Some(t) = it.next() {
                    if t == ";" {
                        break;
                    }
                    let (v, n) = self.lit(t);
                    check(it.next() == Some("->"), "form of a substitution");
                    let b = it.next().unwrap_or("");
                    check(b == "0" || b == "1", "substitutes a constant");
                    sub.push((v, (b == "1") ^ n));
                }
                let hyp = self.all() & (c.val(&self.bits) ^ 1);
                let mut goal = 1;
                let mut w = c.clone();
                for &(v, t) in &sub {
                    w = w.set(v, t);
                }
                goal &= w.val(&self.bits);
                for i in 1..self.db.len() {
                    if let Some(k) = &self.db[i] {
                        if sub.iter().any(|(v, _)| k.c[*v] != 0) {
                            let mut w = k.clone();
                            for &(v, t) in &sub {
                                w = w.set(v, t);
                            }
                            goal &= w.val(&self.bits);
                        }
                    }
                }
                check(hyp <= goal, "a constraint added by redundance is redundant");
                self.push(c);
            }
            "del" => {
                check(it.next() == Some("id"), "form of a deletion");
                let mut some = false;
                for t in it {
                    if t == ";" {
                        break;
                    }
                    let i = self.id(t);
                    self.db[i] = None;
                    some = true;
                }
                check(some, "a deletion names what it deletes");
            }
            _ => check(false, "known proof step"),
        }
    }
}

// ------------------------------------------------------------ clauses with their place in the proof
#[derive(Default)]
struct Col {
    cls: Vec<(Clause, Option<AbsConstraintId>)>,
}
impl CollectClauses for Col {
    fn n_clauses(&self) -> usize {
        self.cls.len()
    }
    fn extend_clauses<T>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = Clause>,
    {
        for c in it {
            self.cls.push((c, None));
        }
        Ok(())
    }
}
impl Certs for Col {
    fn extend_cert_clauses<T>(&mut self, it: T) -> Result<(), rustsat::OutOfMemory>
    where
        T: IntoIterator<Item = (Clause, AbsConstraintId)>,
    {
        for (c, i) in it {
            self.cls.push((c, Some(i)));
        }
        Ok(())
    }
}
impl Col {
    fn flat(&self) -> Flat {
        let mut f = Flat::new();
        for (c, _) in &self.cls {
            f.clause(c);
        }
        f
    }
}
fn first_id() -> AbsConstraintId {
    AbsConstraintId::default()
}
/// checks the proof and that every collected clause is the constraint of its identifier
fn verify(proof: Proof<Vec<u8>>, init: &[Con], col: &Col, nv: usize) {
    let next = proof.next_id();
    let text = match proof.conclude::<Var>(OutputGuarantee::None, &Conclusion::None) {
        Ok(t) => t,
        Err(_) => {
            check(false, "the proof is finished");
            return;
        }
    };
    let text = unsafe { std::str::from_utf8_unchecked(&text) };
    #[cfg(feature = "native")]
    if std::env::var("SHOW").is_ok() {
        eprintln!("{text}");
        for (c, i) in &col.cls {
            eprintln!("{c} {i:?}");
        }
    }
    let mut k = Checker::new(nv, init);
    let ls: Vec<&str> = text.lines().collect();
    check(ls.len() >= 5 && ls[0] == "pseudo-Boolean proof version 2.0", "header");
    check(ls[1].strip_prefix("f ").map(num) == Some(init.len() as i64), "number of constraints");
    let e = ls.len();
    check(ls[e - 3] == "output NONE" && ls[e - 2] == "conclusion NONE" && ls[e - 1] == "end pseudo-Boolean proof", "footer");
    for l in &ls[2..e - 3] {
        k.line(l);
    }
    check(usize_of(next) == k.db.len(), "the next identifier counts the constraints of the proof");
    for (c, i) in &col.cls {
        let i = match i {
            Some(i) => usize_of(*i),
            None => {
                check(false, "every clause of a certified encoding comes with its constraint identifier");
                return;
            }
        };
        check(i < k.db.len() && k.db[i].is_some(), "the constraint of a clause exists and is not deleted");
        let mut v = 0;
        for l in c.iter() {
            v |= lit_val(*l, &k.bits);
        }
        check(v == k.val[i], "the constraint of a clause is the clause");
    }
}
fn usize_of(i: AbsConstraintId) -> usize {
    num(&i.to_string()) as usize
}
fn new_proof(n: usize) -> Proof<Vec<u8>> {
    Proof::new(Vec::with_capacity(1 << 14), n, false).unwrap()
}
fn vm(n: usize) -> BasicVarManager {
    BasicVarManager::from_next_free(var(n))
}

// ------------------------------------------------------------ whole constraints
fn lits(n: usize, m: u64) -> Vec<Lit> {
    (0..n).map(|i| lit(i, m >> i & 1 != 0)).collect()
}
/// literals of a constraint; the mask gives the polarities, from 16 on the last literal repeats (16) or negates (32) the first
fn lits_rep(n: usize, m: u64) -> Vec<Lit> {
    let mut ls = lits(n, m);
    if m & 16 != 0 {
        ls[n - 1] = ls[0];
    }
    if m & 32 != 0 {
        ls[n - 1] = !ls[0];
    }
    ls
}
fn initial(n: usize, ts: &[(Lit, i64)], kind: usize, b: i64) -> Vec<Con> {
    let neg: Vec<_> = ts.iter().map(|(l, w)| (*l, -w)).collect();
    match kind {
        0 => vec![Con::of(n, &neg, -b)],
        1 => vec![Con::of(n, ts, b)],
        _ => vec![Con::of(n, ts, b), Con::of(n, &neg, -b)],
    }
}
fn holds(ts: &[(Lit, i64)], kind: usize, b: i64, inp: &[u8]) -> bool {
    let mut s = 0i16;
    for (l, w) in ts {
        s += lit_val(*l, inp) as i16 * *w as i16;
    }
    let b = b as i16;
    match kind {
        0 => s <= b,
        1 => s >= b,
        _ => s == b,
    }
}
fn judge(r: Result<bool, ()>, proof: Proof<Vec<u8>>, init: &[Con], col: &Col, v: &BasicVarManager, n: usize, cond: bool, inp: &[u8]) {
    witness(1);
    match r {
        Ok(true) => {
            let nv = (v.n_used() as usize).max(n);
            verify(proof, init, col, nv);
            let f = col.flat();
            f.iff(inp, cond, "the clauses imply the constraint", "the clauses are satisfiable wherever the constraint holds");
        }
        Ok(false) => {
            // refused as unsatisfiable
            check(!cond, "only an unsatisfiable constraint is refused");
            let _ = proof.conclude::<Var>(OutputGuarantee::None, &Conclusion::None);
        }
        Err(()) => check(false, "encoding succeeds"),
    }
}
fn res(r: Result<(), ConstraintEncodingError>) -> Result<bool, ()> {
    match r {
        Ok(()) => Ok(true),
        Err(ConstraintEncodingError::Unsat) => Ok(false),
        Err(_) => Err(()),
    }
}
type DblTot = cs::Double<Totalizer, Totalizer>;
type InvTot = cs::Inverted<Totalizer>;

/// [literals, encoder, polarity mask, kind]
fn card([n, which, m, kind]: [u64; 4]) {
    let (n, kind) = (n as usize, kind as usize);
    let ls = lits_rep(n, m);
    let b = pick(n + 2);
    let c = match kind {
        0 => CardConstraint::new_ub(ls.iter().copied(), b),
        1 => CardConstraint::new_lb(ls.iter().copied(), b),
        _ => CardConstraint::new_eq(ls.iter().copied(), b),
    };
    let ts: Vec<(Lit, i64)> = ls.iter().map(|l| (*l, 1)).collect();
    let init = initial(n, &ts, kind, b as i64);
    let (mut v, mut col, mut p) = (vm(n), Col::default(), new_proof(init.len()));
    let id = first_id();
    let r = match which {
        0 => cc::default_encode_cardinality_constraint((c, id), &mut col, &mut v, &mut p).map(|()| true).map_err(|_| ()),
        1 => res(<Totalizer as cc::BoundBoth>::encode_constr_cert((c, id), &mut col, &mut v, &mut p)),
        2 => match c {
            CardConstraint::Ub(c) => <InvTot as cc::BoundUpper>::encode_ub_constr_cert((c, id), &mut col, &mut v, &mut p).map(|()| true).map_err(|_| ()),
            CardConstraint::Lb(c) => res(<InvTot as cc::BoundLower>::encode_lb_constr_cert((c, id), &mut col, &mut v, &mut p)),
            CardConstraint::Eq(_) => return,
        },
        3 => res(<DblTot as cc::BoundBoth>::encode_constr_cert((c, id), &mut col, &mut v, &mut p)),
        _ => cc::encode_cardinality_constraint::<DblTot, _, _>((c, id), &mut col, &mut v, &mut p).map(|()| true).map_err(|_| ()),
    };
    let inp = bits(n);
    let cond = holds(&ts, kind, b as i64, &inp);
    judge(r, p, &init, &col, &v, n, cond, &inp);
}

type DblGte = ps::Double<Gte, ps::Inverted<Gte>>;
type CardTot = ps::Card<Totalizer>;
/// [literals, encoder, largest weight + 16 * polarity mask, kind]; kind + 4: the weights may be negative or zero
fn pb([n, which, mw, kind]: [u64; 4]) {
    let n = n as usize;
    let (w, m) = (mw & 15, mw >> 4);
    let ls = lits_rep(n, m);
    let signed = kind & 4 != 0;
    let kind = kind as usize & 3;
    let ts: Vec<(Lit, i64)> = ls
        .iter()
        .map(|l| (*l, if signed { pick(2 * w as usize + 1) as i64 - w as i64 } else { pick(w as usize) as i64 + 1 }))
        .collect();
    let hi: i64 = ts.iter().map(|(_, w)| (*w).max(0)).sum();
    let lo: i64 = ts.iter().map(|(_, w)| (*w).min(0)).sum();
    let b = lo - 1 + pick((hi - lo + 3) as usize) as i64;
    let its = ts.iter().map(|(l, w)| (*l, *w as isize));
    let c = match kind {
        0 => PbConstraint::new_ub(its, b as isize),
        1 => PbConstraint::new_lb(its, b as isize),
        _ => PbConstraint::new_eq(its, b as isize),
    };
    let init = initial(n, &ts, kind, b);
    let (mut v, mut col, mut p) = (vm(n), Col::default(), new_proof(init.len()));
    let id = first_id();
    let r = match which {
        0 => pc::default_encode_pb_constraint((c, id), &mut col, &mut v, &mut p).map(|()| true).map_err(|_| ()),
        1 => match c {
            PbConstraint::Ub(c) => res(<Gte as pc::BoundUpper>::encode_ub_constr_cert((c, id), &mut col, &mut v, &mut p)),
            PbConstraint::Lb(c) => res(<ps::Inverted<Gte> as pc::BoundLower>::encode_lb_constr_cert((c, id), &mut col, &mut v, &mut p)),
            PbConstraint::Eq(_) => res(<DblGte as pc::BoundBoth>::encode_constr_cert((c, id), &mut col, &mut v, &mut p)),
        },
        2 => res(<CardTot as pc::BoundBoth>::encode_constr_cert((c, id), &mut col, &mut v, &mut p)),
        _ => pc::encode_pb_constraint::<CardTot, _, _>((c, id), &mut col, &mut v, &mut p).map(|()| true).map_err(|_| ()),
    };
    let inp = bits(n);
    let cond = holds(&ts, kind, b, &inp);
    judge(r, p, &init, &col, &v, n, cond, &inp);
}

// ------------------------------------------------------------ histories
macro_rules! go {
    ($e:expr) => {
        check($e.is_ok(), "encoding succeeds")
    };
}
/// what is needed of an incremental certified encoder
trait Inc {
    fn make(ls: &[(Lit, usize)]) -> Self;
    fn add(&mut self, ls: &[(Lit, usize)]);
    /// kind 0: both, 1: upper, 2: lower; change or not
    fn enc(&mut self, kind: u8, change: bool, r: std::ops::Range<usize>, c: &mut Col, v: &mut BasicVarManager, p: &mut Proof<Vec<u8>>);
    fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError>;
    fn lb(&self, b: usize) -> Result<Vec<Lit>, EnforceError>;
}
macro_rules! inc {
    ($t:ty, $add:expr, $make:expr, [$($ub:ident $ubc:ident $eub:ident)?], [$($lb:ident $lbc:ident $elb:ident)?], [$($bo:ident $boc:ident)?]) => {
        impl Inc for $t {
            fn make(ls: &[(Lit, usize)]) -> Self {
                $make(ls)
            }
            fn add(&mut self, ls: &[(Lit, usize)]) {
                $add(self, ls)
            }
            fn enc(&mut self, kind: u8, change: bool, r: std::ops::Range<usize>, c: &mut Col, v: &mut BasicVarManager, p: &mut Proof<Vec<u8>>) {
                $(if kind == 0 {
                    if change { go!(self.$boc(r.clone(), c, v, p)) } else { go!(self.$bo(r.clone(), c, v, p)) }
                })?
                $(if kind == 1 {
                    if change { go!(self.$ubc(r.clone(), c, v, p)) } else { go!(self.$ub(r.clone(), c, v, p)) }
                })?
                $(if kind == 2 {
                    if change { go!(self.$lbc(r.clone(), c, v, p)) } else { go!(self.$lb(r.clone(), c, v, p)) }
                })?
                let _ = (kind, change, r, c, v, p);
            }
            fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                $(return self.$eub(b).map_err(|e| e.into());)?
                #[allow(unreachable_code)]
                { let _ = b; unreachable!() }
            }
            fn lb(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                $(return self.$elb(b).map_err(|e| e.into());)?
                #[allow(unreachable_code)]
                { let _ = b; unreachable!() }
            }
        }
    };
}
mod ccard {
    use super::*;
    use rustsat::encodings::card::cert::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
    use rustsat::encodings::card::{BoundLower as L, BoundUpper as U};
    fn mk<T: FromIterator<Lit>>(ls: &[(Lit, usize)]) -> T {
        ls.iter().map(|l| l.0).collect()
    }
    fn ad<T: Extend<Lit>>(t: &mut T, ls: &[(Lit, usize)]) {
        t.extend(ls.iter().map(|l| l.0))
    }
    inc!(Totalizer, ad, mk, [encode_ub_cert encode_ub_change_cert enforce_ub], [encode_lb_cert encode_lb_change_cert enforce_lb], [encode_both_cert encode_both_change_cert]);
    inc!(InvTot, ad, mk, [encode_ub_cert encode_ub_change_cert enforce_ub], [encode_lb_cert encode_lb_change_cert enforce_lb], [encode_both_cert encode_both_change_cert]);
    inc!(DblTot, ad, mk, [encode_ub_cert encode_ub_change_cert enforce_ub], [encode_lb_cert encode_lb_change_cert enforce_lb], [encode_both_cert encode_both_change_cert]);
}
mod cpb {
    use super::*;
    use rustsat::encodings::pb::cert::{BoundBoth, BoundBothIncremental, BoundLower, BoundLowerIncremental, BoundUpper, BoundUpperIncremental};
    use rustsat::encodings::pb::{BoundLower as L, BoundUpper as U};
    fn mk<T: FromIterator<(Lit, usize)>>(ls: &[(Lit, usize)]) -> T {
        ls.iter().copied().collect()
    }
    fn ad<T: Extend<(Lit, usize)>>(t: &mut T, ls: &[(Lit, usize)]) {
        t.extend(ls.iter().copied())
    }
    inc!(Gte, ad, mk, [encode_ub_cert encode_ub_change_cert enforce_ub], [], []);
    inc!(InvGte, ad, mk, [], [encode_lb_cert encode_lb_change_cert enforce_lb], []);
    inc!(DblGte, ad, mk, [encode_ub_cert encode_ub_change_cert enforce_ub], [encode_lb_cert encode_lb_change_cert enforce_lb], [encode_both_cert encode_both_change_cert]);
    inc!(CardTot, ad, mk, [encode_ub_cert encode_ub_change_cert enforce_ub], [encode_lb_cert encode_lb_change_cert enforce_lb], [encode_both_cert encode_both_change_cert]);
}
type InvGte = ps::Inverted<Gte>;

fn run_hist<E: Inc>(ls: &[(Lit, usize)], kinds: u64, lits_first: usize) {
    let n = ls.len();
    let k0 = (kinds % 4) as u8;
    let k1 = (kinds / 4 % 4) as u8;
    let (mut v, mut col, mut p) = (vm(n), Col::default(), new_proof(0));
    let mut e = E::make(&ls[..lits_first]);
    let mut last = None;
    let mut have = lits_first;
    for (step, k) in [k0, k1].into_iter().enumerate() {
        if k == 3 {
            continue;
        }
        if step == 1 {
            e.add(&ls[lits_first..]);
            have = n;
        }
        let sum: usize = ls[..have].iter().map(|l| l.1).sum();
        // range lo..hi with hi up to one past the sum
        let lo = pick(sum + 2);
        let hi = lo + pick(sum + 3 - lo);
        let change = step == 1 || choice();
        e.enc(k, change, lo..hi, &mut col, &mut v, &mut p);
        last = Some((k, lo, hi, sum));
    }
    let nv = (v.n_used() as usize).max(n);
    verify(p, &[], &col, nv);
    witness(1);
    let Some((k, lo, hi, _)) = last else { return };
    let inp = bits(n);
    let mut s = 0u8;
    for (l, w) in &ls[..have] {
        s += lit_val(*l, &inp) * *w as u8;
    }
    for b in lo..hi {
        if k != 2 {
            match e.ub(b) {
                Ok(a) => {
                    let mut f = col.flat();
                    for l in a {
                        f.unit(l);
                    }
                    f.iff(&inp, s <= b as u8, "the upper bound is enforced", "the upper bound leaves every solution");
                }
                Err(_) => check(false, "an encoded upper bound is not refused"),
            }
        }
        if k != 1 {
            match e.lb(b) {
                Ok(a) => {
                    let mut f = col.flat();
                    for l in a {
                        f.unit(l);
                    }
                    f.iff(&inp, s >= b as u8, "the lower bound is enforced", "the lower bound leaves every solution");
                }
                Err(EnforceError::Unsat) => check(s < b as u8, "a lower bound above the sum is refused"),
                Err(_) => check(false, "an encoded lower bound is not refused"),
            }
        }
    }
}
/// [literals + 16 * literals before the second operation, encoder, polarities, first operation + 4 * second operation]
fn card_hist([n, which, m, kinds]: [u64; 4]) {
    let (n, first) = ((n & 15) as usize, (n >> 4) as usize);
    let ls: Vec<(Lit, usize)> = lits(n, m).into_iter().map(|l| (l, 1)).collect();
    match which {
        0 => run_hist::<Totalizer>(&ls, kinds, first),
        1 => run_hist::<InvTot>(&ls, kinds, first),
        _ => run_hist::<DblTot>(&ls, kinds, first),
    }
}
/// [literals + 16 * literals before the second operation, encoder, largest weight + 16 * polarities, first operation + 4 * second operation]
fn pb_hist([n, which, mw, kinds]: [u64; 4]) {
    let (n, first) = ((n & 15) as usize, (n >> 4) as usize);
    let (w, m) = (mw & 15, mw >> 4);
    let ls: Vec<(Lit, usize)> = lits(n, m).into_iter().map(|l| (l, 1 + pick(w as usize))).collect();
    match which {
        0 => run_hist::<Gte>(&ls, kinds, first),
        1 => run_hist::<InvGte>(&ls, kinds, first),
        2 => run_hist::<DblGte>(&ls, kinds, first),
        _ => run_hist::<CardTot>(&ls, kinds, first),
    }
}

// ------------------------------------------------------------ the totalizer database itself
/// A node over a part of the outputs of another and a second totalizer.
/// Weighted nodes pass on all outputs above the offset.
/// [literals left + 16 * right, offset + 16 * number of outputs passed on (0 all), 0 or largest weight on the left, outputs defined + 16 * polarities]
fn db([n, con, w, steps]: [u64; 4]) {
    let (na, nb) = ((n & 15) as usize, (n >> 4) as usize);
    let (off, lim) = ((con & 15) as usize, (con >> 4) as usize);
    let n = na + nb;
    let ls = lits(n, steps >> 4);
    let mut d = Db::default();
    let mut ws = vec![1usize; na];
    let a = if w == 0 {
        d.lit_tree(ls[..na].iter().copied()).unwrap()
    } else {
        for x in &mut ws {
            *x = 1 + pick(w as usize);
        }
        let it: Vec<(Lit, usize)> = (0..na).map(|i| (ls[i], ws[i])).collect();
        let c = d.weighted_lit_tree(&it).unwrap();
        if c.offset() != 0 || c.multiplier() != 1 {
            return;
        }
        c.id
    };
    let top: usize = ws.iter().sum();
    // values of the left node
    let mut vals: Vec<usize> = vec![];
    for m in 1u32..1 << na {
        let v = (0..na).filter(|i| m >> i & 1 == 1).map(|i| ws[i]).sum();
        if v > off && !vals.contains(&v) {
            vals.push(v);
        }
    }
    vals.sort_unstable();
    if vals.is_empty() {
        return;
    }
    let last = if lim == 0 || lim >= vals.len() { top } else { vals[lim - 1] };
    let b = d.lit_tree(ls[na..].iter().copied()).unwrap();
    let lcon = if lim == 1 && w == 0 && choice() {
        NodeCon::single(a, off + 1, 1)
    } else if lim > 0 {
        NodeCon::limited(a, off, lim, 1)
    } else {
        NodeCon::offset_weighted(a, off, 1)
    };
    let c = d.insert(if choice() { Node::internal(lcon, NodeCon::full(b), &d) } else { Node::internal(NodeCon::full(b), lcon, &d) });
    let (mut v, mut col, mut p) = (vm(n), Col::default(), new_proof(0));
    d[a].reserve_vars(off + 1..=last, &mut v);
    let max = last - off + nb;
    check(d[c].max_val() == max, "largest value of a node");
    let mut defs: Vec<(usize, u8, Lit)> = vec![];
    let inp = bits(n);
    let mut s = 0u8;
    for i in 0..na {
        s += lit_val(ls[i], &inp) * ws[i] as u8;
    }
    s = ite(s > last as u8, last as u64, s as u64) as u8;
    s = ite(s > off as u8, s.wrapping_sub(off as u8) as u64, 0) as u8;
    for i in na..n {
        s += lit_val(ls[i], &inp);
    }
    if w == 0 {
        let mut leaves = vec![Lit::new(0, false); d[c].n_leaves()];
        let mut init = false;
        for _ in 0..steps & 15 {
            let idx = pick(max);
            let k = pick(3) as u8;
            let sem = [Semantics::If, Semantics::OnlyIf, Semantics::IfAndOnlyIf][k as usize];
            match d.define_unweighted_cert(c, idx, sem, &mut col, &mut v, &mut p, (&mut leaves, init, false)) {
                Ok((l, i)) => {
                    init = i;
                    defs.push((idx + 1, k, l));
                }
                Err(_) => check(false, "encoding succeeds"),
            }
        }
    } else {
        let mut leaves = vec![(Lit::new(0, false), 0); d[c].n_leaves()];
        let mut init = false;
        for _ in 0..steps & 15 {
            let val = 1 + pick(max);
            match d.define_weighted_cert(c, val, &mut col, &mut v, &mut p, (&mut leaves, init, false)) {
                Ok(Some((l, i))) => {
                    init |= i;
                    defs.push((val, 0, l));
                }
                Ok(None) => {
                    let bs = (0..=nb).any(|k| val >= k && (val == k || vals.iter().any(|x| *x <= last && *x - off == val - k)));
                    check(!bs, "a value that the node takes is defined");
                }
                Err(_) => check(false, "encoding succeeds"),
            }
        }
    }
    if choice() {
        go!(d.delete_semantics(&mut p));
    }
    let nv = (v.n_used() as usize).max(n);
    verify(p, &[], &col, nv);
    witness(1);
    for (val, k, l) in defs {
        if w > 0 {
            // outputs of weighted nodes are only implied by their exact value
            let mut f = col.flat();
            f.unit(!l);
            f.implies(&inp, s != val as u8, "an output is true where the sum is its value");
            f.exists(&inp, s < val as u8, "an output may be false where the sum is smaller");
        } else if k != 1 {
            let mut f = col.flat();
            f.unit(!l);
            f.iff(&inp, s < val as u8, "an output is true where the sum reaches its value", "an output may be false where the sum is smaller");
        }
        if k != 0 {
            let mut f = col.flat();
            f.unit(l);
            f.iff(&inp, s >= val as u8, "an output is false where the sum is smaller than its value", "an output may be true where the sum reaches its value");
        }
    }
}
