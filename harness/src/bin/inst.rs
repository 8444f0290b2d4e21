//! Instances: I01 CNF containers, I02 conversions, I03 variable managers, I04 re-indexing, I05 objectives, I06 objective conversions
use rustsat::encodings::CollectClauses;
use rustsat::instances::{BasicVarManager, Cnf, ManageVars, MultiOptInstance, ObjectVarManager, Objective, OptInstance, ReindexVars, ReindexingVarManager, SatInstance};
use rustsat::types::constraints::{CardConstraint, ConstraintRef, PbConstraint};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use symlib::*;

entries!(vm_basic, vm_obj, vm_reind, vm_combine, cnf_hist, cnf_norm, inst_conv, inst_sanitize, inst_eval, inst_extend, inst_vars, reindex, obj_hist, obj_partial, obj_conv, obj_norm, obj_norm_cl, obj_big, opt_conv, multi_conv);

// ------------------------------------------------------------------ I03
/// whether the witness variable `x` is in use, kept by the rules of the documentation
struct Used {
    x: u32,
    used: bool,
    n: u32,
}
impl Used {
    fn new(x: u32) -> Self {
        Used { x, used: false, n: 0 }
    }
    /// all variables below `v` are used
    fn below(&mut self, v: u32) {
        self.used |= self.x < v;
        self.n = ite(v > self.n, v as u64, self.n as u64) as u32;
    }
    fn forget(&mut self, v: u32) {
        self.used &= self.x < v;
        self.n = ite(v < self.n, v as u64, self.n as u64) as u32;
    }
    fn handed(&mut self, v: u32) {
        check(!(self.used & (self.x == v)), "a variable that is in use is never handed out");
        self.below(v + 1);
    }
    fn look<M: ManageVars>(&self, m: &M) {
        match m.max_var() {
            None => {
                check(!self.used, "no maximum is reported only if no variable is in use");
                check(m.n_used() == 0, "no variables are counted if there is no maximum");
                check(self.n == 0, "the maximum variable is reported");
            }
            Some(v) => {
                check(!self.used | (self.x <= v.idx32()), "no variable in use is above the reported maximum");
                check(v.idx32() + 1 == self.n, "the reported maximum is the highest variable in use");
                check(m.n_used() == v.idx32() + 1, "the number of used variables matches the maximum");
            }
        }
    }
}
const TOP: u32 = Var::MAX_IDX;
fn sym_var(steps: usize) -> u32 {
    let v = u32_();
    // beyond the last variables the counter itself cannot be represented
    assume(v < TOP - steps as u32 - 1);
    v
}
/// operations all managers share; returns false if `op` is not one of them
fn shared<M: ManageVars>(m: &mut M, u: &mut Used, op: usize, k: usize) {
    match op {
        0 => {
            let v = m.new_var();
            u.handed(v.idx32());
        }
        1 => {
            let l = m.new_lit();
            check(l.is_pos(), "new literals are positive");
            u.handed(l.vidx32());
        }
        2 => {
            let v = sym_var(k);
            let r = m.increase_next_free(Var::new(v));
            check(r == (v > u.n), "increase_next_free reports whether the next free variable changed");
            u.below(v);
        }
        3 => {
            let v = sym_var(k);
            let r = m.mark_used(Var::new(v));
            check(r == (v >= u.n), "mark_used reports whether the next free variable changed");
            u.below(v + 1);
        }
        _ => {
            let v = sym_var(k);
            m.forget_from(Var::new(v));
            u.forget(v);
        }
    }
}
fn vm_basic(a: [u64; 4]) {
    let k = a[0] as usize;
    let mut u = Used::new(u32_());
    let mut m = if choice() {
        let f = sym_var(k);
        u.below(f);
        BasicVarManager::from_next_free(Var::new(f))
    } else {
        BasicVarManager::default()
    };
    u.look(&m);
    for _ in 0..k {
        let op = pick(6);
        if op < 5 {
            shared(&mut m, &mut u, op, k);
        } else {
            let f = sym_var(k);
            m.combine(BasicVarManager::from_next_free(Var::new(f)));
            u.below(f);
        }
        u.look(&m);
    }
    u.handed(m.new_var().idx32());
    witness(1);
}
fn obj_var(m: &mut ObjectVarManager, o: usize) -> Var {
    match o {
        0 => m.object_var(1u32),
        1 => m.object_var(2u32),
        2 => m.object_var(1u64),
        3 => m.object_var("a"),
        _ => m.object_var((1u32, 'b')),
    }
}
fn vm_obj(a: [u64; 4]) {
    let k = a[0] as usize;
    let no = a[1] as usize;
    let mut u = Used::new(u32_());
    let mut m = ObjectVarManager::default();
    if choice() {
        let f = sym_var(k);
        u.below(f);
        m = ObjectVarManager::from_next_free(Var::new(f));
    }
    let mut map: [Option<u32>; 5] = [None; 5];
    let mut fixed = a[2] as usize;
    for _ in 0..k {
        // a fixed order of operations, base 8
        let op = if fixed > 0 { fixed % 8 - 1 } else { pick(3 + no) };
        fixed /= 8;
        if op >= 3 {
            let o = op - 3;
            let v = obj_var(&mut m, o).idx32();
            match map[o] {
                Some(w) => check(v == w, "the same variable is returned for equal objects"),
                None => {
                    u.handed(v);
                    for w in map.iter().flatten() {
                        check(*w != v, "different objects have different variables");
                    }
                    map[o] = Some(v);
                }
            }
        } else {
            let op = [0, 3, 4][op];
            if op == 4 {
                let v = sym_var(k);
                m.forget_from(Var::new(v));
                u.forget(v);
                for x in map.iter_mut() {
                    if matches!(x, Some(w) if *w >= v) {
                        *x = None;
                    }
                }
            } else {
                shared(&mut m, &mut u, op, k);
            }
        }
        u.look(&m);
    }
    u.handed(m.new_var().idx32());
    witness(1);
}
fn vm_reind(a: [u64; 4]) {
    let k = a[0] as usize;
    let nv = a[1] as usize;
    let f = pick(3);
    let mut u = Used::new(u32_());
    let mut m = ReindexingVarManager::default();
    let mut map: Vec<Option<u32>> = vec![None; nv];
    if f > 0 {
        m = ReindexingVarManager::from_next_free(var(f));
        for i in 0..f.min(nv) {
            // documented: variables below the first free one are mapped with the identity
            map[i] = Some(i as u32);
        }
        u.below(f as u32);
    }
    // variables handed out without re-indexing
    let mut plain: Vec<u32> = vec![];
    for _ in 0..k {
        match pick(5) {
            0 => {
                let i = pick(nv);
                let n = choice();
                let l = m.reindex_lit(lit(i, n));
                check(l.is_neg() == n, "re-indexing keeps the polarity");
                let v = l.vidx32();
                match map[i] {
                    Some(w) => check(v == w, "re-indexing a variable again gives the same variable"),
                    None => {
                        u.handed(v);
                        map[i] = Some(v);
                    }
                }
                check(m.reindex(var(i)) == l.var(), "literals and variables are re-indexed alike");
            }
            1 => {
                let v = m.new_var();
                u.handed(v.idx32());
                plain.push(v.idx32());
            }
            2 => {
                let v = pick(4) as u32;
                m.mark_used(Var::new(v));
                u.below(v + 1);
            }
            3 => {
                let v = pick(4) as u32;
                m.increase_next_free(Var::new(v));
                u.below(v);
            }
            _ => {
                let v = pick(4) as u32;
                m.forget_from(Var::new(v));
                u.forget(v);
                for x in map.iter_mut() {
                    if matches!(x, Some(w) if *w >= v) {
                        *x = None;
                    }
                }
                plain.retain(|p| *p < v);
            }
        }
        u.look(&m);
        for i in 0..nv {
            if let Some(v) = map[i] {
                check(m.reverse(Var::new(v)) == Some(var(i)), "the reverse query maps re-indexed variables back");
                check(m.reverse_lit(Lit::new(v, true)) == Some(neg(i)), "the reverse query keeps the polarity");
                for j in 0..i {
                    check(map[j] != Some(v), "different variables are re-indexed to different variables");
                }
            }
        }
        for p in &plain {
            if let Some(i) = m.reverse(Var::new(*p)) {
                check(i.idx() >= nv || map[i.idx()].is_none(), "the reverse query invents no origin of a re-indexed variable");
            }
        }
    }
    u.handed(m.new_var().idx32());
    witness(1);
}
/// combining managers with disjoint or agreeing contents
fn vm_combine(a: [u64; 4]) {
    let k = a[0] as usize;
    if a[1] == 0 {
        let mut m = ObjectVarManager::default();
        let mut map: [Option<Var>; 5] = [None; 5];
        for _ in 0..k {
            let o = pick(4);
            map[o] = Some(obj_var(&mut m, o));
        }
        let mut o2 = ObjectVarManager::from_next_free(Var::new(m.n_used() + pick(2) as u32));
        for _ in 0..k {
            let o = pick(4);
            map[o] = Some(obj_var(&mut o2, o));
        }
        let n = o2.n_used().max(m.n_used());
        m.combine(o2);
        check(m.n_used() == n, "the combined manager counts the variables of both");
        for o in 0..4 {
            if let Some(v) = map[o] {
                check(obj_var(&mut m, o) == v, "combining keeps the objects of both, the other's taking precedence");
            }
        }
        check(m.new_var().idx32() >= n, "a combined manager hands out fresh variables");
    } else {
        let mut m = ReindexingVarManager::default();
        let mut map: [Option<Var>; 5] = [None; 5];
        for _ in 0..k {
            let o = pick(2);
            map[o] = Some(m.reindex(var(o)));
        }
        // the other one continues after the first
        let mut o2 = ReindexingVarManager::default();
        o2.increase_next_free(Var::new(m.n_used() + pick(2) as u32));
        for _ in 0..k {
            let o = 2 + pick(2);
            map[o] = Some(o2.reindex(var(o)));
        }
        let n = o2.n_used().max(m.n_used());
        m.combine(o2);
        check(m.n_used() == n, "the combined manager counts the variables of both");
        for o in 0..4 {
            if let Some(v) = map[o] {
                check(m.reindex(var(o)) == v, "combining keeps the re-indexed variables of both");
                check(m.reverse(v) == Some(var(o)), "combining keeps the reverse mapping of both");
            }
        }
        check(m.new_var().idx32() >= n, "a combined manager hands out fresh variables");
    }
    witness(1);
}

// ------------------------------------------------------------------ I01
/// truth value of a list of clauses: 0 true, 1 false, 2 don't care
fn cnf_tv(cls: &[Vec<Lit>], ts: &[TernaryVal]) -> u8 {
    let (mut all, mut some) = (1u8, 0u8);
    for c in cls {
        let (mut t, mut f) = (0u8, 1u8);
        for l in c {
            t |= is_t(*l, ts);
            f &= is_f(*l, ts);
        }
        all &= t;
        some |= f;
    }
    ite(some == 1, 1, ite(all == 1, 0, 2)) as u8
}
fn lits(k: usize, n: usize) -> Vec<Lit> {
    (0..k).map(|_| sym_lit(n)).collect()
}
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
fn cnf_hist(a: [u64; 4]) {
    let k = a[0] as usize;
    let n = a[1] as usize;
    let mut c = Cnf::new();
    let mut model: Vec<Vec<Lit>> = vec![];
    let mut ordered = true;
    for _ in 0..k {
        let op = pick(17);
        // the order of literals in implications is not part of the property
        ordered &= op < 13;
        match op {
            0 => {
                let l = lits(pick(3), n);
                c.add_clause(Clause::from_iter(l.iter().copied()));
                model.push(l);
            }
            1 => {
                let l = lits(1, n);
                c.add_unit(l[0]);
                model.push(l);
            }
            2 => {
                let l = lits(2, n);
                c.add_binary(l[0], l[1]);
                model.push(l);
            }
            3 => {
                let l = lits(3, n);
                c.add_ternary(l[0], l[1], l[2]);
                model.push(l);
            }
            4 => {
                let l = lits(2, n);
                c.add_nary(&l);
                model.push(l);
            }
            5 => {
                let (x, y) = (lits(2, n), lits(1, n));
                let mut o = Cnf::new();
                o.add_nary(&x);
                o.add_nary(&y);
                c = c.join(o);
                model.push(x);
                model.push(y);
            }
            6 => {
                let (x, y) = (lits(1, n), lits(2, n));
                c.extend(vec![Clause::from(&x[..]), Clause::from(&y[..])]);
                model.push(x);
                model.push(y);
            }
            7 => {
                let (x, y) = (lits(1, n), lits(2, n));
                check(c.extend_clauses(vec![Clause::from(&x[..]), Clause::from(&y[..])]).is_ok(), "collecting clauses succeeds");
                model.push(x);
                model.push(y);
            }
            8 => {
                let m = pick(4);
                let v: Vec<Vec<Lit>> = (0..m).map(|_| lits(1, n)).collect();
                let it = v.clone().into_iter().map(|l| Clause::from(&l[..]));
                check(c.extend_clauses(NoHint(it)).is_ok(), "collecting clauses of unknown number succeeds");
                model.extend(v);
            }
            9 => {
                let l = lits(2, n);
                c &= l[0] | l[1];
                model.push(l);
            }
            10 => {
                let l = lits(1, n);
                c &= l[0];
                model.push(l);
            }
            11 => {
                let l = lits(2, n);
                check(CollectClauses::add_clause(&mut c, Clause::from(&l[..])).is_ok(), "collecting a clause succeeds");
                model.push(l);
            }
            12 => {
                c.clear();
                model.clear();
            }
            13 => {
                let l = lits(2, n);
                c.add_lit_impl_lit(l[0], l[1]);
                model.push(vec![!l[0], l[1]]);
            }
            14 => {
                let l = lits(3, n);
                c.add_cube_impl_lit(&l[..2], l[2]);
                model.push(vec![!l[0], !l[1], l[2]]);
            }
            15 => {
                let l = lits(3, n);
                c.add_lit_impl_cube(l[0], &l[1..]);
                model.push(vec![!l[0], l[1]]);
                model.push(vec![!l[0], l[2]]);
            }
            _ => {
                let l = lits(3, n);
                c.add_clause_impl_clause(&l[..2], &l[2..]);
                model.push(vec![!l[0], l[2]]);
                model.push(vec![!l[1], l[2]]);
            }
        }
    }
    check(c.len() == model.len(), "the number of clauses matches");
    check(c.is_empty() == model.is_empty() && c.n_clauses() == model.len(), "the number of clauses matches");
    for (i, m) in model.iter().enumerate() {
        let cl: &[Lit] = c[i].as_ref();
        check(cl.len() == m.len(), "clauses are kept in order");
        let mut same = true;
        for (j, x) in m.iter().enumerate() {
            let mut has = false;
            for y in cl {
                has |= x == y;
            }
            // the order of literals in implications is not part of the property
            same &= has & (!ordered || cl[j] == *x);
        }
        check(same, "clauses are kept in order with their literals");
    }
    if a[2] == 0 {
        let ts: Vec<TernaryVal> = (0..n).map(|_| tern()).collect();
        let r = tv(c.evaluate(&asg(&ts)));
        check(r == cnf_tv(&model, &ts), "the formula is the conjunction of the clauses added");
        let c2: Cnf = c.clone().into_iter().collect();
        check(tv(c2.evaluate(&asg(&ts))) == r, "collecting the clauses again gives the same formula");
    }
    witness(1);
}
fn cnf_norm(a: [u64; 4]) {
    let (m, n) = (a[0] as usize, a[1] as usize);
    let inp = bits(n);
    let cls: Vec<Vec<Lit>> = (0..m).map(|i| lits(if i == 0 { a[2] as usize } else { pick(a[2] as usize + 1) }, n)).collect();
    let mut v = 1u8;
    for c in &cls {
        v &= clause_val(c, &inp);
    }
    let f = Cnf::from_iter(cls.iter().map(|c| Clause::from(&c[..])));
    let g = if a[3] == 0 { f.normalize() } else { f.sanitize() };
    let mut w = 1u8;
    for c in g.iter() {
        let l: &[Lit] = c.as_ref();
        w &= clause_val(l, &inp);
        check(!c.is_tautology(), "no tautologies remain");
        if a[3] == 0 {
            for i in 1..l.len() {
                check(l[i - 1] < l[i], "normalized clauses are sorted and duplicate-free");
            }
        }
    }
    check(v == w, "the truth value is kept");
    if a[3] == 0 {
        for i in 1..g.len() {
            check(g[i - 1] < g[i], "normalized formulas are sorted and duplicate-free");
        }
    }
    check(g.len() <= m, "no clauses are added");
    witness(1);
}

// ------------------------------------------------------------------ I02
enum K {
    Cl(Vec<Lit>),
    Card(usize, Vec<Lit>, usize),
    Pb(usize, Vec<(Lit, isize)>, isize),
}
fn rel(kind: usize, s: i64, b: i64) -> bool {
    match kind {
        0 => s <= b,
        1 => s >= b,
        _ => s == b,
    }
}
impl K {
    /// a few constraints of each kind, the latter two with auxiliary variables in their encoding
    fn few(which: u64) -> K {
        match if which == 0 { pick(5) } else { which as usize - 1 } {
            0 => K::Cl(vec![pol_lit(0), pol_lit(1)]),
            1 => K::Card(pick(3), vec![pol_lit(0), pol_lit(1), pol_lit(2)], 1 + pick(2)),
            2 => K::Pb(pick(3), vec![(pol_lit(0), 2), (pol_lit(1), 1), (pol_lit(2), -1)], pick(3) as isize),
            3 => K::Card(2, vec![], 1),
            _ => K::Cl(vec![]),
        }
    }
    /// forks over constraints over variables lo..lo+n with symbolic polarities
    fn pick(lo: usize, n: usize, w: usize) -> K {
        match pick(3) {
            0 => K::Cl((0..pick(n + 1)).map(|i| pol_lit(lo + i)).collect()),
            1 => {
                let m = pick(n + 1);
                let mut ls: Vec<Lit> = (0..m).map(|i| pol_lit(lo + i)).collect();
                if m > 1 && choice() {
                    ls[m - 1] = if choice() { ls[0] } else { !ls[0] };
                }
                K::Card(pick(3), ls, pick(m + 2))
            }
            _ => {
                let m = pick(n + 1);
                let ls: Vec<(Lit, isize)> = (0..m).map(|i| (pol_lit(lo + i), pick(2 * w + 1) as isize - w as isize)).collect();
                let (mut l, mut h) = (0, 0);
                for (_, c) in &ls {
                    if *c < 0 {
                        l += *c
                    } else {
                        h += *c
                    }
                }
                K::Pb(pick(3), ls, l - 1 + pick((h - l) as usize + 3) as isize)
            }
        }
    }
    fn add<V: ManageVars>(&self, i: &mut SatInstance<V>) {
        match self {
            K::Cl(c) => i.add_clause(Clause::from(&c[..])),
            K::Card(k, ls, b) => i.add_card_constr(match k {
                0 => CardConstraint::new_ub(ls.iter().copied(), *b),
                1 => CardConstraint::new_lb(ls.iter().copied(), *b),
                _ => CardConstraint::new_eq(ls.iter().copied(), *b),
            }),
            K::Pb(k, ls, b) => i.add_pb_constr(match k {
                0 => PbConstraint::new_ub(ls.iter().copied(), *b),
                1 => PbConstraint::new_lb(ls.iter().copied(), *b),
                _ => PbConstraint::new_eq(ls.iter().copied(), *b),
            }),
        }
    }
    fn val(&self, inp: &[u8]) -> bool {
        match self {
            K::Cl(c) => clause_val(c, inp) != 0,
            K::Card(k, ls, b) => {
                let mut s = 0i64;
                for l in ls {
                    s += lit_val(*l, inp) as i64;
                }
                rel(*k, s, *b as i64)
            }
            K::Pb(k, ls, b) => {
                let mut s = 0i64;
                for (l, w) in ls {
                    s += (lit_val(*l, inp) as i64) * (*w as i64);
                }
                rel(*k, s, *b as i64)
            }
        }
    }
    fn max(&self) -> Option<usize> {
        match self {
            K::Cl(c) => c.iter().map(|l| l.vidx()).max(),
            K::Card(_, ls, _) => ls.iter().map(|l| l.vidx()).max(),
            K::Pb(_, ls, _) => ls.iter().map(|l| l.0.vidx()).max(),
        }
    }
}
fn constraints(m: usize, n: usize, w: usize) -> Vec<K> {
    (0..m).map(|i| K::pick(i % 2, n - (i % 2), w)).collect()
}
fn all(ks: &[K], inp: &[u8]) -> bool {
    let mut r = true;
    for k in ks {
        r &= k.val(inp);
    }
    r
}
/// a[0] constraints over a[1] variables, weights up to a[2]; a[3]: 0 into_cnf, 1 convert_to_cnf, 2 into_pbs
fn inst_conv(a: [u64; 4]) {
    let (m, n, w) = (a[0] as usize, a[1] as usize, a[2] as usize);
    let ks = constraints(m, n, w);
    let mut i = SatInstance::<BasicVarManager>::new();
    for k in &ks {
        k.add(&mut i);
    }
    check(i.n_constraints() == m, "every constraint is counted");
    let inp = bits(n);
    let want = all(&ks, &inp);
    let used = i.n_vars();
    for k in &ks {
        if let Some(v) = k.max() {
            check(used > v as u32, "the variables of constraints are marked as used");
        }
    }
    match a[3] {
        2 => {
            let (pbs, vm) = i.into_pbs();
            let mut got = true;
            for p in &pbs {
                got &= p.evaluate(&total(&inp)) == TernaryVal::True;
            }
            check(got == want, "the pseudo-Boolean constraints mean the same");
            check(vm.n_used() >= used, "the variable manager is kept");
        }
        _ => {
            i.var_manager_mut().increase_next_free(var(n));
            let (cnf, vm) = if a[3] == 0 {
                i.into_cnf()
            } else {
                i.convert_to_cnf();
                check(i.n_cards() == 0 && i.n_pbs() == 0, "only clauses remain after the conversion");
                let v = BasicVarManager::from_next_free(Var::new(i.n_vars()));
                (i.cnf().clone(), v)
            };
            let mut f = Flat::new();
            f.cnf(&cnf);
            f.iff(&inp, want, "the CNF has no models beyond the instance's", "the CNF keeps every model of the instance");
            if let Some(mv) = f.max_var() {
                check(mv < vm.n_used(), "the variable manager knows all variables of the CNF");
            }
        }
    }
    witness(1);
}
fn inst_sanitize(a: [u64; 4]) {
    let (m, n, w) = (a[0] as usize, a[1] as usize, a[2] as usize);
    let ks = constraints(m, n, w);
    let mut i = SatInstance::<BasicVarManager>::new();
    for k in &ks {
        k.add(&mut i);
    }
    let inp = bits(n);
    let want = all(&ks, &inp);
    let i = i.sanitize();
    check((i.evaluate(&total(&inp)) == TernaryVal::True) == want, "sanitizing keeps the models exactly");
    for v in i.var_set() {
        check(v.idx32() < i.n_vars(), "the variables of a sanitized instance are marked as used");
    }
    witness(1);
}
fn inst_eval(a: [u64; 4]) {
    let (m, n, w) = (a[0] as usize, a[1] as usize, a[2] as usize);
    let ks = constraints(m, n, w);
    let mut i = SatInstance::<BasicVarManager>::new();
    for k in &ks {
        k.add(&mut i);
    }
    let ts: Vec<TernaryVal> = (0..n).map(|_| ctern()).collect();
    let asg = asg(&ts);
    // an arbitrary completion of the assignment
    let inp: Vec<u8> = ts.iter().map(|t| match t {
        TernaryVal::True => 1,
        TernaryVal::False => 0,
        TernaryVal::DontCare => bit(),
    }).collect();
    let want = all(&ks, &inp);
    let full = ts.iter().all(|t| *t != TernaryVal::DontCare);
    match i.evaluate(&asg) {
        TernaryVal::True => check(want, "an instance evaluates to true only if every completion satisfies it"),
        TernaryVal::False => check(!want, "an instance evaluates to false only if no completion satisfies it"),
        TernaryVal::DontCare => check(!full, "total assignments have a truth value"),
    }
    match i.unsat_constraint(&asg) {
        None => check(want, "no violated constraint is reported only if all are satisfied"),
        Some(c) => {
            check(!full || !want, "a violated constraint is reported only if one is");
            let v = match c {
                ConstraintRef::Clause(c) => c.evaluate(&asg),
                ConstraintRef::Card(c) => c.evaluate(&asg),
                ConstraintRef::Pb(c) => c.evaluate(&asg),
            };
            check(v != TernaryVal::True, "the reported constraint is not satisfied");
        }
    }
    witness(1);
}
fn inst_extend(a: [u64; 4]) {
    let (n, w) = (a[1] as usize, a[2] as usize);
    let (k1, k2) = (constraints(a[0] as usize, n, w), constraints(1, n, w));
    let (mut i, mut j) = (SatInstance::<BasicVarManager>::new(), SatInstance::<BasicVarManager>::new());
    for k in &k1 {
        k.add(&mut i);
    }
    for k in &k2 {
        k.add(&mut j);
    }
    let used = i.n_vars().max(j.n_vars());
    i.extend(j);
    let inp = bits(n);
    let want = all(&k1, &inp) & all(&k2, &inp);
    check((i.evaluate(&total(&inp)) == TernaryVal::True) == want, "the extended instance is the conjunction of both");
    check(i.n_vars() == used, "the extended instance knows the variables of both");
    check(i.n_constraints() == k1.len() + k2.len(), "all constraints are kept");
    witness(1);
}
/// every way of adding constraints to an instance marks their variables as used
fn inst_vars(_: [u64; 4]) {
    let (n, m) = (sym_var(4), sym_var(4));
    let (x, y) = (Lit::new(n, bool_()), Lit::new(m, bool_()));
    let mut i = SatInstance::<BasicVarManager>::new();
    match pick(23) {
        0 => i.add_clause(x | y),
        1 => i.add_binary(x, y),
        2 => i.add_nary(&[x, y]),
        3 => i.add_ternary(x, y, x),
        4 => {
            i.add_unit(x);
            i.add_unit(y)
        }
        5 => i.add_lit_impl_lit(x, y),
        6 => i.add_lit_impl_clause(x, &[y]),
        7 => i.add_lit_impl_cube(x, &[y]),
        8 => i.add_cube_impl_lit(&[x], y),
        9 => i.add_clause_impl_lit(&[x], y),
        10 => i.add_cube_impl_clause(&[x], &[y]),
        11 => i.add_clause_impl_clause(&[x], &[y]),
        12 => i.add_clause_impl_cube(&[x], &[y]),
        13 => i.add_cube_impl_cube(&[x], &[y]),
        14 => i.add_card_constr(CardConstraint::new_ub([x, y], 1)),
        15 => i.add_pb_constr(PbConstraint::new_ub([(x, 2), (y, -1)], 1)),
        16 => i = SatInstance::from(Cnf::from_iter([x | y])),
        17 => i = [x | y].into_iter().collect(),
        18 => i = [CardConstraint::new_lb([x, y], 1)].into_iter().collect(),
        19 => i = [PbConstraint::new_lb([(x, 1), (y, 3)], 1)].into_iter().collect(),
        20 => Extend::extend(&mut i, vec![x | y]),
        21 => check(i.extend_clauses(vec![x | y]).is_ok(), "collecting clauses succeeds"),
        _ => {
            let mut j = SatInstance::<BasicVarManager>::new();
            j.add_binary(x, y);
            i.extend(j)
        }
    }
    let v = i.new_var();
    check((v.idx32() > n) & (v.idx32() > m), "new variables do not appear in the instance");
    check(i.max_var() == Some(v), "the new variable is the highest");
    check(i.n_vars() == v.idx32() + 1, "the number of variables counts the new one");
    witness(1);
}

// ------------------------------------------------------------------ I04
/// a[0]: 0 SAT, 1 optimization, 2 multi-objective; a[1]: ordered; a[2]: constraints; a[3]: variables
fn reindex(a: [u64; 4]) {
    let n = a[3] as usize;
    // original variables with gaps
    let org: Vec<usize> = vec![5, 0, 9, 2][..n].to_vec();
    let ls: Vec<Lit> = (0..n).map(|i| pol_lit(org[i])).collect();
    let mut i = SatInstance::<BasicVarManager>::new();
    let mut cons: Vec<(usize, Vec<usize>)> = vec![];
    for _ in 0..a[2] {
        let kind = pick(4);
        let mut vs: Vec<usize> = vec![];
        for _ in 0..pick(if a[2] == 1 { 4 } else { 3 }) {
            let v = pick(n);
            if !vs.contains(&v) {
                vs.push(v);
            }
        }
        match kind {
            0 => i.add_clause(vs.iter().map(|v| ls[*v]).collect()),
            1 => i.add_card_constr(CardConstraint::new_ub(vs.iter().map(|v| ls[*v]), 1)),
            2 => i.add_pb_constr(PbConstraint::new_lb(vs.iter().map(|v| (ls[*v], 1 + *v as isize)), 2)),
            _ => i.add_pb_constr(PbConstraint::new_eq(vs.iter().map(|v| (ls[*v], 1 - *v as isize)), 0)),
        }
        cons.push((kind, vs));
    }
    let mut o = Objective::new();
    let mut o2 = Objective::new();
    let wt = 1 + pick(2);
    if a[0] > 0 {
        o.increase_soft_lit(2, ls[n - 1]);
        o.increase_soft_clause(wt, ls[0] | ls[1]);
        o.increase_offset(3);
        // all of weight 1, one of them twice
        o2.increase_soft_lit(1, ls[0]);
        o2.increase_soft_lit(1, ls[1]);
        o2.increase_soft_lit(1, ls[0]);
    }
    let rm = ReindexingVarManager::default();
    let ord = a[1] != 0;
    let (j, os) = match a[0] {
        0 => (if ord { i.clone().reindex_ordered(rm) } else { i.clone().reindex(rm) }, vec![]),
        1 => {
            let x = OptInstance::compose(i.clone(), o.clone());
            let y = if ord { x.reindex_ordered(rm) } else { x.reindex(rm) };
            let (c, b) = y.decompose();
            (c, vec![b])
        }
        _ => {
            let x = MultiOptInstance::compose(i.clone(), vec![o.clone(), o2.clone()]);
            let y = if ord { x.reindex_ordered(rm) } else { x.reindex(rm) };
            y.decompose()
        }
    };
    // the variables that occur
    let mut occ: Vec<usize> = cons.iter().flat_map(|(_, vs)| vs.iter().copied()).collect();
    if a[0] > 0 {
        occ.extend([0, 1, n - 1]);
    }
    occ.sort_unstable();
    occ.dedup();
    let vm = j.var_manager_ref();
    check(vm.n_used() as usize >= occ.len(), "every variable is re-indexed");
    let mut map: Vec<(usize, usize)> = vec![];
    for v in 0..vm.n_used() as usize {
        if let Some(w) = vm.reverse(var(v)) {
            map.push((w.idx(), v));
        }
    }
    map.sort_unstable();
    check(map.len() == occ.len(), "re-indexed variables correspond to the original ones");
    let mut inp = vec![0u8; 10];
    for v in &org {
        inp[*v] = bit();
    }
    let mut inp2 = vec![0u8; 10];
    for (x, y) in &map {
        check(occ.iter().any(|v| org[*v] == *x), "only variables of the instance are re-indexed");
        inp2[*y] = inp[*x];
    }
    for p in map.windows(2) {
        check(p[0].0 != p[1].0, "an original variable has only one re-indexed variable");
        if ord {
            check(p[0].1 < p[1].1, "ordered re-indexing keeps the order");
        }
    }
    if ord {
        check(map.iter().all(|(_, y)| *y < map.len()), "ordered re-indexing closes gaps");
    }
    let (s, t) = (total(&inp), total(&inp2));
    check(i.evaluate(&s) == j.evaluate(&t), "the re-indexed instance means the same");
    if a[0] > 0 {
        check(o.evaluate(&s) == os[0].evaluate(&t), "the re-indexed objective has the same value");
    }
    if a[0] > 1 {
        check(os.len() == 2 && o2.evaluate(&s) == os[1].evaluate(&t), "the re-indexed second objective has the same value");
    }
    witness(1);
}

// ------------------------------------------------------------------ I05
/// what an objective is meant to be: weights of literals (2*var+sign) and clauses
struct Obj {
    l: Vec<u64>,
    c: Vec<(Vec<Lit>, u64)>,
    off: i64,
}
impl Obj {
    fn new(nv: usize) -> Self {
        Obj { l: vec![0; 2 * nv], c: vec![], off: 0 }
    }
    fn value(&self, inp: &[u8]) -> i64 {
        let mut s = self.off;
        for (i, w) in self.l.iter().enumerate() {
            s += (*w * (inp[i / 2] ^ (i & 1) as u8) as u64) as i64;
        }
        for (c, w) in &self.c {
            s += (*w * (1 - clause_val(c, inp)) as u64) as i64;
        }
        s
    }
}
const CL: [&[(usize, bool)]; 5] = [&[(0, false), (1, false)], &[(0, true), (1, false)], &[], &[(0, false)], &[(1, true), (0, true)]];
fn cl(i: usize) -> Clause {
    CL[i].iter().map(|(v, n)| lit(*v, *n)).collect()
}
/// one of the weights: symbolic of a[..] bits
fn weight(w: u64) -> usize {
    mag(w) as usize
}
/// a[0] operations with weights of a[1] bits; a[2] bit 0: set operations, bit 1: clauses, bit 2: fewer literals
fn history(a: [u64; 4]) -> (Objective, Obj) {
    let (k, w) = (a[0] as usize, a[1]);
    let (sets, cls, few) = (a[2] & 1 != 0, a[2] & 2 != 0, a[2] & 4 != 0);
    let nv = 2;
    let mut o = Objective::new();
    let mut m = Obj::new(nv);
    for i in 0..CL.len() {
        m.c.push((CL[i].iter().map(|(v, n)| lit(*v, *n)).collect(), 0));
    }
    for step in 0..k {
        let mut ops: Vec<usize> = vec![1, 2];
        if sets {
            ops.push(0);
            ops.push(5);
        }
        if cls {
            ops.push(4);
            if sets {
                ops.push(3);
            }
        }
        // the first operations may be given, to split the work
        let given = if step < 2 { (a[2] >> (8 + 4 * step)) as usize & 15 } else { 0 };
        let op = if given > 0 { ops[given - 1] } else { ops[pick(ops.len())] };
        match op {
            0 => {
                let i = if few { pick(2) } else { pick(2 * nv) };
                let x = weight(w);
                let old = o.add_soft_lit(x, lit(i / 2, i & 1 != 0));
                check(old.unwrap_or(0) as u64 == m.l[i], "setting a weight returns the old one");
                m.l[i] = x as u64;
            }
            1 => {
                let i = if few { pick(2) } else { pick(2 * nv) };
                let x = weight(w);
                o.increase_soft_lit(x, lit(i / 2, i & 1 != 0));
                m.l[i] += x as u64;
            }
            2 => {
                let i = if few { pick(2) } else { pick(2 * nv) };
                let x = weight(w);
                if choice() {
                    o.increase_soft_lit_int(x as isize, lit(i / 2, i & 1 != 0));
                    m.l[i] += x as u64;
                } else {
                    o.increase_soft_lit_int(-(x as isize), lit(i / 2, i & 1 != 0));
                    m.l[i ^ 1] += x as u64;
                    m.off -= x as i64;
                }
            }
            3 | 4 if few && !cls => (),
            3 => {
                let i = pick(4);
                let x = weight(w);
                let old = o.add_soft_clause(x, cl(i));
                match i {
                    2 => {
                        // an empty soft clause is always falsified
                        m.off += x as i64;
                    }
                    3 => {
                        check(old.unwrap_or(0) as u64 == m.l[1], "setting the weight of a unit soft clause returns the old one");
                        m.l[1] = x as u64;
                    }
                    _ => {
                        check(old.unwrap_or(0) as u64 == m.c[i].1, "setting the weight of a soft clause returns the old one");
                        m.c[i].1 = x as u64;
                    }
                }
            }
            4 => {
                let i = pick(CL.len());
                let x = weight(w);
                o.increase_soft_clause(x, cl(i));
                match i {
                    2 => m.off += x as i64,
                    3 => m.l[1] += x as u64,
                    _ => m.c[i].1 += x as u64,
                }
            }
            _ => {
                let x = weight(w) as isize - 1;
                if choice() {
                    o.set_offset(x);
                    m.off = x as i64;
                } else {
                    o.increase_offset(x);
                    m.off += x as i64;
                }
            }
        }
    }
    (o, m)
}
fn obj_hist(a: [u64; 4]) {
    let (o, m) = history(a);
    let inp = cbits(2);
    check(o.evaluate(&total(&inp)) as i64 == m.value(&inp), "the value is the offset plus the accumulated weights");
    check(o.evaluate_no_offset(&total(&inp)) as i64 == m.value(&inp) - m.off, "the value without the offset");
    check(o.offset() as i64 == m.off, "the offset is the accumulated one");
    let (mut ls, mut cs) = (0u64, 0u64);
    let (mut ml, mut mc) = (0u64, 0u64);
    let (mut nl, mut nc) = (u64::MAX, u64::MAX);
    let up = |v: &mut u64, w: u64| *v = ite(w > *v, w, *v);
    let dn = |v: &mut u64, w: u64| *v = ite((w != 0) & (w < *v), w, *v);
    for (i, w) in m.l.iter().enumerate() {
        check(o.lit_weight(lit(i / 2, i & 1 != 0)).unwrap_or(0) as u64 == *w, "the weight of a literal is the accumulated one");
        ls += *w;
        up(&mut ml, *w);
        dn(&mut nl, *w);
    }
    for (i, (_, w)) in m.c.iter().enumerate() {
        if i != 2 && i != 3 {
            check(o.clause_weight(&cl(i)).unwrap_or(0) as u64 == *w, "the weight of a clause is the accumulated one");
            cs += *w;
            up(&mut mc, *w);
            dn(&mut nc, *w);
        }
    }
    check(o.lit_weight_sum() as u64 == ls && o.clause_weight_sum() as u64 == cs && o.weight_sum() as u64 == ls + cs, "weight sums");
    check(o.constant() == (ls + cs == 0), "constant iff there are no softs");
    check(o.is_empty() == (ls + cs == 0 && m.off == 0), "empty iff the value is constantly zero");
    if ls > 0 {
        check(o.max_lit_weight() as u64 == ml, "maximum literal weight");
        check(o.min_lit_weight() as u64 == nl, "minimum literal weight");
    }
    if cs > 0 {
        check(o.max_clause_weight() as u64 == mc, "maximum clause weight");
        check(o.min_clause_weight() as u64 == nc, "minimum clause weight");
    }
    if ls + cs > 0 {
        check(o.max_weight() as u64 == ite(ml > mc, ml, mc), "maximum weight");
        check(o.min_weight() as u64 == ite(nl < nc, nl, nc), "minimum weight");
        let mv = if (m.l[2] | m.l[3]) != 0 || cs > 0 { 1 } else { 0 };
        check(o.max_var() == Some(var(mv)), "the maximum variable");
        witness(2);
    }
    let mut n = 0u64;
    for w in &m.l {
        n += (*w != 0) as u64;
    }
    check((o.n_lits() as u64 == 0) == (n == 0) && o.n_lits() as u64 >= n, "the number of soft literals");
    if o.weighted() {
        check(o.n_lits() as u64 == n, "the number of soft literals in weighted form");
        witness(3);
    }
    check(o.n_softs() == o.n_lits() + o.n_clauses(), "softs are literals and clauses");
    witness(1);
}

/// under a partial assignment only falsified clauses and literals set incur cost
fn obj_partial(a: [u64; 4]) {
    let (o, m) = history(a);
    let ts: Vec<TernaryVal> = (0..2).map(|_| ctern()).collect();
    let mut s = 0;
    for (i, w) in m.l.iter().enumerate() {
        s += *w * is_t(lit(i / 2, i & 1 != 0), &ts) as u64;
    }
    for (c, w) in &m.c {
        s += *w * c.iter().map(|l| is_f(*l, &ts)).fold(1, |x, y| x & y) as u64;
    }
    check(o.evaluate_no_offset(&asg(&ts)) as u64 == s, "the value without the offset under a partial assignment");
    check(o.evaluate(&asg(&ts)) as i64 == s as i64 + m.off, "the value under a partial assignment");
    witness(1);
}

// ------------------------------------------------------------------ I06
/// a[3]: the conversion
fn obj_conv(a: [u64; 4]) {
    let (o, m) = history(a);
    let mut inp = bits(2);
    let cost = |cs: &[(Clause, usize)], inp: &[u8]| {
        let mut s = 0i64;
        for (c, w) in cs {
            s += ((1 - clause_val(c.as_ref(), inp)) as u64 * *w as u64) as i64;
        }
        s
    };
    match a[3] {
        0 => {
            let (cs, off) = o.into_soft_cls();
            let cs: Vec<_> = cs.into_iter().collect();
            check(cost(&cs, &inp) + off as i64 == m.value(&inp), "soft clauses keep the value");
        }
        1 => {
            let (cs, w, off) = o.into_unweighted_soft_cls();
            let cs: Vec<_> = cs.into_iter().map(|c| (c, w)).collect();
            check(cost(&cs, &inp) + off as i64 == m.value(&inp), "unweighted soft clauses keep the value");
        }
        2 => {
            let cs: Vec<_> = o.iter_soft_cls().into_iter().collect();
            check(cost(&cs, &inp) + o.offset() as i64 == m.value(&inp), "the soft clause iterator keeps the value");
            match o.iter_soft_lits() {
                Ok(it) => {
                    let mut s = o.offset() as i64;
                    for (l, w) in it {
                        s += (lit_val(l, &inp) as u64 * w as u64) as i64;
                    }
                    check(s == m.value(&inp), "the soft literal iterator keeps the value");
                }
                Err(_) => {
                    let mut cs = 0;
                    for (i, (_, w)) in m.c.iter().enumerate() {
                        if i != 2 && i != 3 {
                            cs |= *w;
                        }
                    }
                    check(cs != 0, "the soft literal iterator is refused only if there are soft clauses");
                }
            }
        }
        k => {
            let mut vm = BasicVarManager::from_next_free(var(2));
            let (cnf, ls, off): (Cnf, Vec<(Lit, usize)>, isize) = match k {
                3 => {
                    let (c, (l, off)) = o.into_soft_lits(&mut vm);
                    (c, l.into_iter().collect(), off)
                }
                4 => {
                    let (c, l, w, off) = o.into_unweighted_soft_lits(&mut vm);
                    (c, l.into_iter().map(|l| (l, w)).collect(), off)
                }
                _ => {
                    let mut o = o;
                    let c = o.convert_to_soft_lits(&mut vm);
                    let v = match o.iter_soft_lits() {
                        Ok(it) => it.into_iter().collect(),
                        Err(_) => {
                            check(false, "no soft clauses remain");
                            vec![]
                        }
                    };
                    (c, v, o.offset())
                }
            };
            let want = m.value(&inp);
            soft_lits(&cnf, &ls, off, 2, vm.n_used(), &mut inp, want);
        }
    }
    witness(1);
}
/// the minimum over all extensions of the relaxation variables is `want`, checked by evaluating the CNF with fixed values of
/// the relaxation variables: a relaxation variable of a clause may be false iff the rest of the clause is satisfied
fn soft_lits(cnf: &Cnf, ls: &[(Lit, usize)], off: isize, first: u32, used: u32, inp: &mut Vec<u8>, want: i64) {
    let mut f = Flat::new();
    f.cnf(cnf);
    for (l, _) in ls {
        check(l.vidx32() < used, "the variable manager knows all soft literals");
    }
    // relaxation variables take arbitrary values: no extension is cheaper
    let n = inp.len();
    for _ in n..used as usize {
        inp.push(bit());
    }
    let val = |inp: &[u8]| {
        let mut s = off as i64;
        for (l, w) in ls {
            s += (lit_val(*l, inp) as u64 * *w as u64) as i64;
        }
        s
    };
    check(!f.eval(inp) | (val(inp) >= want), "no extension makes the cost lower");
    // the extension that relaxes exactly the falsified clauses reaches it
    for v in first..used {
        inp[v as usize] = 0;
    }
    for c in cnf.iter() {
        let s = clause_val(c.as_ref(), inp);
        for l in c.iter() {
            if l.vidx32() >= first {
                check(l.is_pos(), "relaxation literals are positive");
                inp[l.vidx()] |= 1 - s;
            }
        }
    }
    check(f.eval(inp), "relaxing the falsified clauses satisfies the hard clauses");
    check(val(inp) == want, "relaxing the falsified clauses reaches the original cost");
}
fn obj_norm(a: [u64; 4]) {
    let (o, m) = history(a);
    let o = o.normalize();
    let inp = cbits(2);
    check(o.evaluate(&total(&inp)) as i64 == m.value(&inp), "normalizing keeps the value");
    if a[3] != 0 {
        let o = o.normalize();
        check(o.evaluate(&total(&inp)) as i64 == m.value(&inp), "normalizing again keeps the value");
    }
    witness(1);
}
const NCL: [&[(usize, bool)]; 8] = [
    &[(0, false), (0, false)],
    &[(0, true), (0, true)],
    &[(0, false), (0, true)],
    &[(1, false), (0, false), (1, false)],
    &[(0, false), (1, false)],
    &[(1, false), (0, false)],
    &[(1, true), (1, true), (1, true)],
    &[(0, true), (1, false), (0, false)],
];
/// a[0] clauses that are not in normal form next to soft literals of both polarities, weights of a[1] bits
fn obj_norm_cl(a: [u64; 4]) {
    let mut o = Objective::new();
    let mut m = Obj::new(2);
    for i in 0..2 {
        let x = weight(a[1]);
        o.increase_soft_lit(x, lit(0, i != 0));
        m.l[i] += x as u64;
    }
    for k in 0..a[0] {
        let i = if k == 0 && a[2] > 0 { a[2] as usize - 1 } else { pick(NCL.len()) };
        let c: Vec<Lit> = NCL[i].iter().map(|(v, n)| lit(*v, *n)).collect();
        let x = weight(a[1]);
        o.increase_soft_clause(x, Clause::from(&c[..]));
        m.c.push((c, x as u64));
    }
    let o = o.normalize();
    let inp = cbits(2);
    check(o.evaluate(&total(&inp)) as i64 == m.value(&inp), "normalizing keeps the value");
    let o = o.normalize();
    check(o.evaluate(&total(&inp)) as i64 == m.value(&inp), "normalizing again keeps the value");
    witness(1);
}
/// the value of a single soft literal with any weight
fn obj_big(a: [u64; 4]) {
    let w = u64_() as isize;
    let l = pol_lit(0);
    let mut o = Objective::new();
    o.increase_soft_lit_int(w, l);
    if a[0] == 1 {
        // and taken back
        assume(w != isize::MIN);
        o.increase_soft_lit_int(-w, l);
    }
    let inp = cbits(1);
    // the value may wrap for weights below the smallest negated one
    allow_panic(w == isize::MIN);
    let want = if lit_val(l, &inp) == 1 && a[0] == 0 { w } else { 0 };
    check(o.evaluate(&total(&inp)) == want, "the value is the weight of the literal");
    witness(1);
}
/// a soft literal or clause over variables that only the objective mentions
fn soft(o: &mut Objective, base: usize, light: bool) -> (Vec<Lit>, u64) {
    let w = if light { 1 } else { 1 + pick(2) };
    let c: Vec<Lit> = match pick(3) {
        0 => vec![pol_lit(base)],
        1 => vec![pol_lit(0), pol_lit(base)],
        _ => vec![pol_lit(1), pol_lit(base), pol_lit(base + 1)],
    };
    o.increase_soft_clause(w, Clause::from(&c[..]));
    (c, w as u64)
}
fn opt_conv(a: [u64; 4]) {
    let ks = [K::few(a[2])];
    let mut i = OptInstance::<BasicVarManager>::new();
    let mut cs = vec![];
    // softs before or after the constraints, added through the objective
    for k in &ks {
        k.add(i.constraints_mut());
    }
    for s in 0..a[0] as usize {
        cs.push(soft(i.objective_mut(), 2 + s, a[3] != 0));
    }
    i.objective_mut().increase_offset(-2);
    // new variables may start right after the highest one
    let nv = ks.iter().filter_map(K::max).chain(cs.iter().flat_map(|(c, _)| c.iter().map(|l| l.vidx()))).max().map_or(0, |v| v + 1);
    let inp = bits(nv);
    let hard = all(&ks, &inp);
    let mut want = -2i64;
    for (c, w) in &cs {
        want += ((1 - clause_val(c, &inp)) as u64 * w) as i64;
    }
    match a[1] {
        2 => match i.cost(&total(&inp)) {
            None => check(!hard, "a cost is reported for every solution"),
            Some(v) => check(hard & (v as i64 == want), "the cost of a solution is the objective's value"),
        },
        0 => {
            let (cnf, (it, off), vm) = i.into_hard_cls_soft_cls();
            let sc: Vec<_> = it.into_iter().collect();
            conv_check(&cnf, &[(sc, off, want)], &inp, hard, vm.n_used(), nv);
        }
        _ => {
            let (cnf, (it, off), vm) = i.into_hard_cls_soft_lits();
            let sc: Vec<_> = it.into_iter().map(|(l, w)| (Clause::from_iter([!l]), w)).collect();
            conv_check(&cnf, &[(sc, off, want)], &inp, hard, vm.n_used(), nv);
        }
    }
    witness(1);
}
fn multi_conv(a: [u64; 4]) {
    let ks = [K::few(a[2])];
    let no = 2;
    let mut i = MultiOptInstance::<BasicVarManager>::new(no);
    for k in &ks {
        k.add(i.constraints_mut());
    }
    let mut cs = vec![];
    for s in 0..a[0] as usize {
        let oi = pick(no);
        let (c, w) = soft(i.objective_mut(oi), 2 + s, a[3] != 0);
        cs.push((oi, c, w));
    }
    i.objective_mut(1).increase_offset(3);
    let nv = ks.iter().filter_map(K::max).chain(cs.iter().flat_map(|(_, c, _)| c.iter().map(|l| l.vidx()))).max().map_or(0, |v| v + 1);
    let inp = bits(nv);
    let hard = all(&ks, &inp);
    let mut want = vec![0i64, 3];
    for (oi, c, w) in &cs {
        want[*oi] += ((1 - clause_val(c, &inp)) as u64 * w) as i64;
    }
    match a[1] {
        2 => match i.cost(&total(&inp)) {
            None => check(!hard, "costs are reported for every solution"),
            Some(v) => check(hard & (v.len() == 2) & (v[0] as i64 == want[0]) & (v[1] as i64 == want[1]), "the costs of a solution are the objectives' values"),
        },
        0 => {
            let (cnf, its, vm) = i.into_hard_cls_soft_cls();
            let v: Vec<_> = its.into_iter().zip(&want).map(|((it, off), w)| (it.into_iter().collect::<Vec<_>>(), off, *w)).collect();
            conv_check(&cnf, &v, &inp, hard, vm.n_used(), nv);
        }
        _ => {
            let (cnf, its, vm) = i.into_hard_cls_soft_lits();
            let v: Vec<_> = its.into_iter().zip(&want).map(|((it, off), w)| (it.into_iter().map(|(l, w)| (Clause::from_iter([!l]), w)).collect::<Vec<_>>(), off, *w)).collect();
            conv_check(&cnf, &v, &inp, hard, vm.n_used(), nv);
        }
    }
    witness(1);
}
/// hard clauses hold exactly in the instance's models, and the minimum over extensions of each objective is its value
fn conv_check(cnf: &Cnf, objs: &[(Vec<(Clause, usize)>, isize, i64)], inp: &[u8], hard: bool, used: u32, nv: usize) {
    let mut f = Flat::new();
    f.cnf(cnf);
    if let Some(mv) = f.max_var() {
        check(mv < used, "the variable manager knows all variables");
    }
    f.iff(inp, hard, "the hard clauses have no models beyond the instance's", "the hard clauses keep every model of the instance");
    for (sc, off, want) in objs {
        // softs over original variables are falsified or not by the assignment; a new relaxation variable is only helpful if it
        // may be false exactly when the original soft clause holds
        let mut fixed = *off as i64;
        let mut relaxed: Vec<(Lit, u64)> = vec![];
        for (c, w) in sc {
            check(*w > 0, "soft weights are positive");
            let s: &[Lit] = c.as_ref();
            if s.len() == 1 && s[0].vidx() >= nv {
                relaxed.push((!s[0], *w as u64));
            } else {
                for l in s {
                    check(l.vidx() < nv, "softs mention original variables or relaxation variables");
                }
                fixed += ((1 - clause_val(s, inp)) as u64 * *w as u64) as i64;
            }
        }
        // all subsets of relaxed literals being false
        let r = relaxed.len();
        for m in 0..1usize << r {
            let mut g = f.clone();
            let mut v = fixed;
            for (i, (l, w)) in relaxed.iter().enumerate() {
                if m >> i & 1 != 0 {
                    v += *w as i64;
                } else {
                    g.unit(!*l);
                }
            }
            // keeping the others false is possible exactly if the cost is high enough
            g.implies(inp, v >= *want, "no extension makes the cost lower");
            g.exists(inp, hard & (v == *want) & exact(&relaxed, m, *want, fixed), "an extension reaches the original cost");
        }
    }
}
/// whether no other choice of relaxed literals has the same cost (then this one must be possible)
fn exact(relaxed: &[(Lit, u64)], m: usize, want: i64, fixed: i64) -> bool {
    let mut other = false;
    for k in 0..1usize << relaxed.len() {
        if k != m {
            let mut v = fixed;
            for (i, (_, w)) in relaxed.iter().enumerate() {
                if k >> i & 1 != 0 {
                    v += *w as i64;
                }
            }
            other |= v == want;
        }
    }
    !other
}
