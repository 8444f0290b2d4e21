//! Cardinality encodings: E03 bounds, E04 incremental histories, E05 constraints, E11 statistics, E12 refusals, E14 extended assignments
use rustsat::encodings::card::simulators::{Double, Inverted};
use rustsat::encodings::card::totalizer::referenced::{Tot, TotCell};
use rustsat::encodings::card::*;
use rustsat::encodings::nodedb::NodeById;
use rustsat::encodings::totdb;
use rustsat::encodings::{EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars};
use rustsat::types::constraints::CardConstraint;
use rustsat::types::Lit;
use std::ops::{Bound, RangeBounds};
use symlib::*;

entries!(bound, hist, constr, constr_big, both_hist, referenced, strict);

type R = (Bound<usize>, Bound<usize>);
/// forks over ranges; `full` adds the half-open and unbounded forms
fn pick_range(n: usize, full: bool) -> R {
    let s = if full {
        match pick(3) {
            0 => Bound::Included(pick(n + 2)),
            1 => Bound::Excluded(pick(n + 1)),
            _ => Bound::Unbounded,
        }
    } else {
        Bound::Included(pick(n + 2))
    };
    let e = if full {
        match pick(4) {
            0 => Bound::Included(pick(n + 2)),
            1 => Bound::Excluded(pick(n + 3)),
            2 => Bound::Unbounded,
            _ => Bound::Included(usize::MAX),
        }
    } else {
        Bound::Included(pick(n + 2))
    };
    (s, e)
}
/// forks over the ranges used in histories: each single bound, all bounds, an empty one
fn pick_step(n: usize) -> R {
    let b = pick(n + 3);
    if b <= n {
        (Bound::Included(b), Bound::Included(b))
    } else if b == n + 1 {
        (Bound::Unbounded, Bound::Unbounded)
    } else {
        (Bound::Included(1), Bound::Excluded(1))
    }
}
fn cnt(ls: &[Lit], inp: &[u8]) -> u64 {
    let mut s = 0;
    for l in ls {
        s += lit_val(*l, inp) as u64;
    }
    s
}
const SEM: u64 = 1; // E03: enforced bounds mean what they say
const STAT: u64 = 2; // E11
const REF: u64 = 4; // E12: nothing but encoded bounds is enforced

fn with(f: &Flat, a: &[Lit]) -> Flat {
    let mut f = f.clone();
    for l in a {
        f.unit(*l);
    }
    f
}
/// checks every bound; `ub`/`lb`: whether upper/lower bound b must be available
fn check_bounds<E: BoundUpper + BoundLower>(e: &E, f: &Flat, ls: &[Lit], inp: &[u8], what: u64, ub: &dyn Fn(usize) -> bool, lb: &dyn Fn(usize) -> bool, sides: u8) {
    let n = ls.len();
    let s = cnt(ls, inp);
    if sides & 1 != 0 {
        for b in 0..n + 2 {
            match e.enforce_ub(b) {
                Ok(a) => {
                    if what & (SEM | REF) != 0 && (ub(b) || what & REF != 0) {
                        with(f, &a).iff(inp, s <= b as u64, "the enforced upper bound excludes larger sums", "the enforced upper bound keeps every sum up to the bound");
                    }
                }
                Err(_) => check(!ub(b) && b < n, "an encoded or trivial upper bound can be enforced"),
            }
        }
    }
    if sides & 2 != 0 {
        for b in 0..n + 2 {
            match e.enforce_lb(b) {
                Ok(a) => {
                    if what & (SEM | REF) != 0 && (lb(b) || what & REF != 0) {
                        with(f, &a).iff(inp, s >= b as u64, "the enforced lower bound excludes smaller sums", "the enforced lower bound keeps every sum from the bound on");
                    }
                }
                Err(EnforceError::Unsat) => check(b > n, "a lower bound reported unsatisfiable is"),
                Err(_) => check(!lb(b) && b > 0, "an encoded or trivial lower bound can be enforced"),
            }
        }
        check(matches!(e.enforce_lb(usize::MAX), Err(EnforceError::Unsat)), "a huge lower bound is unsatisfiable");
    }
    if sides & 1 != 0 {
        check(matches!(e.enforce_ub(usize::MAX), Ok(a) if a.is_empty()), "a huge upper bound is trivial");
    }
}
fn fresh(cnf: &Cnf, first: u32, used: u32, n_in: usize) {
    for c in cnf.iter() {
        for l in c.iter() {
            let v = l.vidx32();
            check((v < n_in as u32) | ((v >= first) & (v < first + used)), "clauses only mention inputs and variables handed out");
        }
    }
}

fn b1<E: BoundBoth + EncodeStats + FromIterator<Lit>>(a: [u64; 4]) {
    let n = a[1] as usize;
    let rep = (a[2] >> 8) as usize;
    let what = a[2] & 0xff;
    let full = a[3] & 1 != 0;
    let mut ls: Vec<Lit> = (0..n - rep).map(pol_lit).collect();
    for _ in 0..rep {
        ls.push(lit(pick(n - rep), choice()));
    }
    let first = (n + 2) as u32;
    let inp = bits(first as usize);
    let r = if rep > 0 { pick_step(n) } else { pick_range(n, full) };
    let mode = pick(3);
    let mut e: E = ls.iter().copied().collect();
    check(Encode::n_lits(&e) == n, "number of input literals");
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first as usize));
    let ok = match mode {
        0 => e.encode_ub(r, &mut cnf, &mut vm),
        1 => e.encode_lb(r, &mut cnf, &mut vm),
        _ => e.encode_both(r, &mut cnf, &mut vm),
    };
    check(ok.is_ok(), "encoding succeeds");
    check(Encode::n_lits(&e) == n, "number of input literals after encoding");
    let mut f = Flat::new();
    f.cnf(&cnf);
    if what & STAT != 0 {
        check(EncodeStats::n_clauses(&e) == cnf.len(), "reported number of clauses");
        let used = vm.new_var().idx32() - first;
        check(EncodeStats::n_vars(&e) == used, "reported number of variables");
        fresh(&cnf, first, used, n);
    }
    if what & SEM != 0 {
        f.exists(&inp, true, "without an enforced bound every input assignment is possible");
        if mode == 2 {
            for b in 0..n + 2 {
                let s = cnt(&ls, &inp);
                match e.enforce_eq(b) {
                    Ok(a) => with(&f, &a).iff(&inp, s == b as u64, "the enforced equality excludes other sums", "the enforced equality keeps its sum"),
                    Err(EnforceError::Unsat) => check(b > n, "an equality reported unsatisfiable is"),
                    Err(_) => check(!r.contains(&b), "an encoded equality can be enforced"),
                }
            }
        }
    }
    if what & (SEM | REF) != 0 {
        check_bounds(&e, &f, &ls, &inp, what, &|b| mode != 1 && r.contains(&b), &|b| mode != 0 && r.contains(&b), 3);
    }
    witness(1);
}
/// bound(encoder, n, checks + 256*repetitions, all range forms)
fn bound(a: [u64; 4]) {
    match a[0] {
        0 => b1::<Totalizer>(a),
        1 => b1::<Inverted<Totalizer>>(a),
        2 => b1::<Double<Totalizer, Totalizer>>(a),
        3 => b1::<Inverted<Double<Totalizer, Totalizer>>>(a),
        4 => b1::<Double<Inverted<Totalizer>, Inverted<Totalizer>>>(a),
        _ => b1::<Inverted<Inverted<Totalizer>>>(a),
    }
}

fn h1<E: BoundBothIncremental + EncodeStats + FromIterator<Lit> + Extend<Lit>>(a: [u64; 4]) {
    let (n0, steps) = (a[1] as usize, a[2] as usize);
    let what = a[3] & 0xff;
    let nmax = n0 + 2 * steps;
    let all: Vec<Lit> = (0..nmax).map(pol_lit).collect();
    let first = (nmax + 1) as u32;
    let inp = bits(first as usize);
    let mut k = n0;
    let mut e: E = all[..k].iter().copied().collect();
    let mut cnf = Cnf::new();
    let mut total_cl = 0;
    let mut vm = BasicVarManager::from_next_free(var(first as usize));
    let mut ubs: Vec<R> = vec![];
    let mut lbs: Vec<R> = vec![];
    for _ in 0..steps {
        match pick(7) {
            0 => {
                let d = 1 + pick(2);
                e.extend(all[k..k + d].iter().copied());
                k += d;
                ubs.clear();
                lbs.clear();
            }
            1 => {
                let r = pick_step(k);
                e.encode_ub_change(r, &mut cnf, &mut vm).unwrap();
                ubs.push(r);
            }
            2 => {
                let r = pick_step(k);
                e.encode_lb_change(r, &mut cnf, &mut vm).unwrap();
                lbs.push(r);
            }
            3 => {
                let r = pick_step(k);
                e.encode_both_change(r, &mut cnf, &mut vm).unwrap();
                ubs.push(r);
                lbs.push(r);
            }
            4 => e.reserve(&mut vm),
            // from scratch: the new collector alone must do
            5 => {
                let r = pick_step(k);
                if what & REF == 0 {
                    total_cl += cnf.len();
                    cnf = Cnf::new();
                }
                e.encode_ub(r, &mut cnf, &mut vm).unwrap();
                ubs = vec![r];
                lbs.clear();
            }
            _ => {
                let r = pick_step(k);
                if what & REF == 0 {
                    total_cl += cnf.len();
                    cnf = Cnf::new();
                }
                e.encode_lb(r, &mut cnf, &mut vm).unwrap();
                lbs = vec![r];
                ubs.clear();
            }
        }
    }
    total_cl += cnf.len();
    let ls = &all[..k];
    check(Encode::n_lits(&e) == k, "number of input literals");
    let mut f = Flat::new();
    f.cnf(&cnf);
    if what & SEM != 0 {
        f.exists(&inp, true, "the clauses alone exclude no input assignment");
        check_bounds(&e, &f, ls, &inp, SEM, &|b| ubs.iter().any(|r| r.contains(&b)), &|b| lbs.iter().any(|r| r.contains(&b)), (!ubs.is_empty()) as u8 | (!lbs.is_empty() as u8) << 1);
    }
    if what & REF != 0 {
        check_bounds(&e, &f, ls, &inp, REF, &|b| ubs.iter().any(|r| r.contains(&b)), &|b| lbs.iter().any(|r| r.contains(&b)), 3);
    }
    if what & STAT != 0 {
        let used = vm.new_var().idx32() - first;
        check(EncodeStats::n_clauses(&e) == total_cl, "reported number of clauses");
        check(EncodeStats::n_vars(&e) == used, "reported number of variables");
        fresh(&cnf, first, used, nmax);
    }
    witness(1);
}
/// hist(encoder, literals at the start, steps, checks)
fn hist(a: [u64; 4]) {
    match a[0] {
        0 => h1::<Totalizer>(a),
        1 => h1::<Inverted<Totalizer>>(a),
        2 => h1::<Double<Totalizer, Totalizer>>(a),
        _ => h1::<Double<Inverted<Totalizer>, Inverted<Totalizer>>>(a),
    }
}

/// strict(n, steps, repetitions): extended assignments after a history of encoding and adding literals
fn strict(a: [u64; 4]) {
    let (n0, steps, rep) = (a[0] as usize, a[1] as usize, a[2] as usize);
    let nmax = n0 + 2 * (steps - 1);
    let mut all: Vec<Lit> = (0..nmax).map(pol_lit).collect();
    for _ in 0..rep {
        let l = lit(pick(n0), choice());
        all.insert(0, l);
    }
    let first = nmax + 1;
    let inp = bits(first);
    let mut k = n0 + rep;
    let mut e: Totalizer = all[..k].iter().copied().collect();
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first));
    let (mut ubs, mut lbs): (Vec<R>, Vec<R>) = (vec![], vec![]);
    let asg = total(&inp);
    for step in 0..steps {
        match pick(5 - (step == 0) as usize) {
            0 => {
                let r = pick_step(k);
                e.encode_ub_change(r, &mut cnf, &mut vm).unwrap();
                ubs.push(r);
            }
            1 => {
                let r = pick_step(k);
                e.encode_lb_change(r, &mut cnf, &mut vm).unwrap();
                lbs.push(r);
            }
            2 => {
                let r = pick_step(k);
                e.encode_both_change(r, &mut cnf, &mut vm).unwrap();
                ubs.push(r);
                lbs.push(r);
            }
            3 => e.reserve(&mut vm),
            _ => {
                let d = 1 + pick(2);
                e.extend(all[k..k + d].iter().copied());
                k += d;
                ubs.clear();
                lbs.clear();
            }
        }
    }
    let used = vm.new_var().idx() - first;
    let (val, set) = extended(&inp, used, e.strictly_extend_assignment(&asg));
    for c in cnf.iter() {
        let mut sat = 0;
        for l in c.iter() {
            check(set[l.vidx()], "every variable of the encoding is assigned");
            sat |= lit_val(*l, &val);
        }
        check(sat == 1, "the extended assignment satisfies the encoding");
    }
    let s = cnt(&all[..k], &inp);
    for b in 0..=k {
        let all_true = |a: &[Lit]| {
            let mut r = 1;
            for l in a {
                check(set[l.vidx()], "the literals that enforce a bound are assigned");
                r &= lit_val(*l, &val);
            }
            r == 1
        };
        if ubs.iter().any(|r| r.contains(&b)) {
            let a = e.enforce_ub(b);
            check(a.is_ok(), "an encoded upper bound can be enforced");
            check(all_true(&a.unwrap()) == (s <= b as u64), "the extended assignment meets the upper bounds of its sum");
        }
        if lbs.iter().any(|r| r.contains(&b)) {
            let a = e.enforce_lb(b);
            check(a.is_ok(), "an encoded lower bound can be enforced");
            check(all_true(&a.unwrap()) == (s >= b as u64), "the extended assignment meets the lower bounds of its sum");
        }
    }
    witness(1);
}

/// both_hist(encoder, n): `encode_both` starts over
fn bh<E: BoundBothIncremental + FromIterator<Lit>>(n: usize) {
    let ls: Vec<Lit> = (0..n).map(pol_lit).collect();
    let inp = bits(n);
    let mut e: E = ls.iter().copied().collect();
    let mut vm = BasicVarManager::from_next_free(var(n));
    let mut old = Cnf::new();
    let r0 = pick_step(n);
    e.encode_both(r0, &mut old, &mut vm).unwrap();
    let mut cnf = Cnf::new();
    let r = pick_step(n);
    e.encode_both(r, &mut cnf, &mut vm).unwrap();
    let mut f = Flat::new();
    f.cnf(&cnf);
    check_bounds(&e, &f, &ls, &inp, SEM, &|b| r.contains(&b), &|b| r.contains(&b), 3);
    witness(1);
}
fn both_hist(a: [u64; 4]) {
    let n = a[1] as usize;
    match a[0] {
        0 => bh::<Totalizer>(n),
        1 => bh::<Inverted<Totalizer>>(n),
        _ => bh::<Double<Totalizer, Totalizer>>(n),
    }
}

fn card(kind: usize, ls: Vec<Lit>, b: usize) -> CardConstraint {
    match kind {
        0 => CardConstraint::new_ub(ls, b),
        1 => CardConstraint::new_lb(ls, b),
        _ => CardConstraint::new_eq(ls, b),
    }
}
fn run_constr(how: usize, kind: usize, ls: &[Lit], b: usize, cnf: &mut Cnf, vm: &mut BasicVarManager) -> Result<(), bool> {
    use rustsat::encodings::ConstraintEncodingError as CE;
    let c = card(kind, ls.to_vec(), b);
    let m = |r: Result<(), CE>| r.map_err(|e| matches!(e, CE::Unsat));
    match how {
        0 => default_encode_cardinality_constraint(c, cnf, vm).map_err(|_| false),
        1 => m(<Totalizer as BoundBoth>::encode_constr(c, cnf, vm)),
        2 => encode_cardinality_constraint::<Inverted<Totalizer>, _>(c, cnf, vm).map_err(|_| false),
        3 => m(<Inverted<Totalizer> as BoundBoth>::encode_constr(c, cnf, vm)),
        4 => m(<Double<Totalizer, Totalizer> as BoundBoth>::encode_constr(c, cnf, vm)),
        _ => m(<Double<Inverted<Totalizer>, Inverted<Totalizer>> as BoundBoth>::encode_constr(c, cnf, vm)),
    }
}
/// constr(how, n, repetitions)
fn constr(a: [u64; 4]) {
    let (n, rep) = (a[1] as usize, a[2] as usize);
    let mut ls: Vec<Lit> = (0..n - rep).map(pol_lit).collect();
    for _ in 0..rep {
        ls.push(lit(pick(n - rep), choice()));
    }
    let kind = pick(3);
    let b = match pick(2) {
        0 => pick(n + 3),
        _ => usize::MAX - pick(2),
    };
    let first = n + 1;
    let inp = bits(first);
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first));
    let r = run_constr(a[0] as usize, kind, &ls, b, &mut cnf, &mut vm);
    let s = cnt(&ls, &inp);
    let want = match kind {
        0 => s <= b as u64,
        1 => s >= b as u64,
        _ => s == b as u64,
    };
    match r {
        Ok(()) => {
            let mut f = Flat::new();
            f.cnf(&cnf);
            f.iff(&inp, want, "the clauses exclude every assignment violating the constraint", "the clauses keep every assignment satisfying the constraint");
            fresh(&cnf, first as u32, vm.new_var().idx32() - first as u32, n);
        }
        Err(unsat) => {
            check(unsat && kind != 0, "only equalities and lower bounds are reported unsatisfiable");
            check(!want, "a constraint reported unsatisfiable is");
        }
    }
    witness(1);
}
/// symbolic bounds above the number of literals
fn constr_big(a: [u64; 4]) {
    let n = a[1] as usize;
    let ls: Vec<Lit> = (0..n).map(pol_lit).collect();
    let kind = pick(3);
    let b = usize_();
    assume(b > n);
    let inp = bits(n);
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(n));
    match run_constr(a[0] as usize, kind, &ls, b, &mut cnf, &mut vm) {
        Ok(()) => {
            let mut f = Flat::new();
            f.cnf(&cnf);
            f.iff(&inp, kind == 0, "an unsatisfiable constraint has no models", "a trivial constraint excludes nothing");
        }
        Err(unsat) => check(unsat && kind != 0, "only unsatisfiable constraints are refused"),
    }
    witness(1);
}

/// referenced(cell, n, checks): totalizers over a node database
fn referenced(a: [u64; 4]) {
    let n = a[1] as usize;
    let what = a[2];
    let ls: Vec<Lit> = (0..n).map(pol_lit).collect();
    let inp = bits(n);
    let mut db = totdb::Db::default();
    let root = db.lit_tree(ls.iter().copied()).unwrap();
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(n));
    fn go<E: BoundUpperIncremental + BoundLowerIncremental>(mut e: E, what: u64, ls: &[Lit], inp: &[u8], cnf: &mut Cnf, vm: &mut BasicVarManager) {
        let n = ls.len();
        check(e.n_lits() == n, "number of input literals");
        let (mut ubs, mut lbs): (Vec<R>, Vec<R>) = (vec![], vec![]);
        for _ in 0..2 {
            let m = pick(5);
            let r = if m < 4 { pick_step(n) } else { (Bound::Included(0), Bound::Excluded(0)) };
            match m {
                0 => {
                    *cnf = Cnf::new();
                    e.encode_ub(r, cnf, vm).unwrap();
                    ubs = vec![r];
                    lbs.clear();
                }
                1 => {
                    *cnf = Cnf::new();
                    e.encode_lb(r, cnf, vm).unwrap();
                    lbs = vec![r];
                    ubs.clear();
                }
                2 => {
                    e.encode_ub_change(r, cnf, vm).unwrap();
                    ubs.push(r);
                }
                3 => {
                    e.encode_lb_change(r, cnf, vm).unwrap();
                    lbs.push(r);
                }
                _ => e.reserve(vm),
            }
        }
        let mut f = Flat::new();
        f.cnf(cnf);
        f.exists(inp, true, "the clauses alone exclude no input assignment");
        check_bounds(&e, &f, ls, inp, what, &|b| ubs.iter().any(|r| r.contains(&b)), &|b| lbs.iter().any(|r| r.contains(&b)), (!ubs.is_empty()) as u8 | (!lbs.is_empty() as u8) << 1);
        let used = vm.new_var().idx32() - n as u32;
        fresh(cnf, n as u32, used, n);
    }
    if a[0] == 0 {
        go(Tot::new(root, &mut db), what, &ls, &inp, &mut cnf, &mut vm);
    } else {
        let cell = std::cell::RefCell::new(&mut db);
        go(TotCell::new(root, &cell), what, &ls, &inp, &mut cnf, &mut vm);
    }
    witness(1);
}
