//! E01 implication builders, E02 at-most-one encodings
use rustsat::encodings::am1::*;
use rustsat::encodings::{atomics, EncodeStats, IterInputs};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit};
use symlib::*;

entries!(imp, imp_card, imp_pb, am1, am1_seq);

fn all_true(ls: &[Lit], inp: &[u8]) -> u8 {
    let mut r = 1;
    for l in ls {
        r &= lit_val(*l, inp);
    }
    r
}

/// imp(na, nb, target): free functions (0), formula (1) or instance (2)
fn imp(a: [u64; 4]) {
    let (na, nb) = (a[0] as usize, a[1] as usize);
    let nv = 3;
    let xs: Vec<Lit> = (0..na).map(|_| sym_lit(nv)).collect();
    let ys: Vec<Lit> = (0..nb).map(|_| sym_lit(nv)).collect();
    let inp = bits(nv);
    let which = pick(9);
    // single literals on either side where the name says so
    if matches!(which, 0 | 1 | 2) && na != 1 || matches!(which, 0 | 3 | 4) && nb != 1 {
        return;
    }
    let (ca, ka) = (clause_val(&xs, &inp), all_true(&xs, &inp));
    let (cb, kb) = (clause_val(&ys, &inp), all_true(&ys, &inp));
    let want = match which {
        0 => (lit_val(xs[0], &inp) ^ 1) | lit_val(ys[0], &inp),
        1 => (lit_val(xs[0], &inp) ^ 1) | cb,
        2 => (lit_val(xs[0], &inp) ^ 1) | kb,
        3 => (ka ^ 1) | lit_val(ys[0], &inp),
        4 => (ca ^ 1) | lit_val(ys[0], &inp),
        5 => (ka ^ 1) | cb,
        6 => (ca ^ 1) | cb,
        7 => (ca ^ 1) | kb,
        _ => (ka ^ 1) | kb,
    };
    let cls: Vec<Clause> = match a[2] {
        0 => match which {
            0 => vec![atomics::lit_impl_lit(xs[0], ys[0])],
            1 => vec![atomics::lit_impl_clause(xs[0], &ys)],
            2 => atomics::lit_impl_cube(xs[0], &ys).collect(),
            3 => vec![atomics::cube_impl_lit(&xs, ys[0])],
            4 => atomics::clause_impl_lit(&xs, ys[0]).collect(),
            5 => vec![atomics::cube_impl_clause(&xs, &ys)],
            6 => atomics::clause_impl_clause(&xs, &ys).collect(),
            7 => atomics::clause_impl_cube(&xs, &ys).collect(),
            _ => atomics::cube_impl_cube(&xs, &ys).collect(),
        },
        1 => {
            let mut f = Cnf::new();
            match which {
                0 => f.add_lit_impl_lit(xs[0], ys[0]),
                1 => f.add_lit_impl_clause(xs[0], &ys),
                2 => f.add_lit_impl_cube(xs[0], &ys),
                3 => f.add_cube_impl_lit(&xs, ys[0]),
                4 => f.add_clause_impl_lit(&xs, ys[0]),
                5 => f.add_cube_impl_clause(&xs, &ys),
                6 => f.add_clause_impl_clause(&xs, &ys),
                7 => f.add_clause_impl_cube(&xs, &ys),
                _ => f.add_cube_impl_cube(&xs, &ys),
            }
            f.into_iter().collect()
        }
        _ => {
            let mut f: SatInstance = SatInstance::new();
            match which {
                0 => f.add_lit_impl_lit(xs[0], ys[0]),
                1 => f.add_lit_impl_clause(xs[0], &ys),
                2 => f.add_lit_impl_cube(xs[0], &ys),
                3 => f.add_cube_impl_lit(&xs, ys[0]),
                4 => f.add_clause_impl_lit(&xs, ys[0]),
                5 => f.add_cube_impl_clause(&xs, &ys),
                6 => f.add_clause_impl_clause(&xs, &ys),
                7 => f.add_clause_impl_cube(&xs, &ys),
                _ => f.add_cube_impl_cube(&xs, &ys),
            }
            check(f.n_vars() <= nv as u32, "no variable invented");
            let nf = f.new_var().idx32();
            for l in xs.iter().chain(&ys) {
                check(nf > l.vidx32(), "the next free variable of the instance is not one of the implication's");
            }
            let (c, _) = f.into_cnf();
            c.into_iter().collect()
        }
    };
    let mut got = 1;
    for c in &cls {
        got &= clause_val(c.as_ref(), &inp);
    }
    check(got == want, "the clauses hold exactly when the implication holds");
    witness(which as u64);
}

fn card_val(kind: usize, ls: &[Lit], b: u64, inp: &[u8]) -> bool {
    let mut s = 0;
    for l in ls {
        s += lit_val(*l, inp) as u64;
    }
    match kind {
        0 => s <= b,
        _ => s >= b,
    }
}
fn pb_val(c: &PbConstraint, inp: &[u8]) -> bool {
    let mut s = 0i64;
    for (l, w) in c.iter() {
        s = s.wrapping_add(ite(lit_val(*l, inp) != 0, *w as u64, 0) as i64);
    }
    let b = c.bound() as i64;
    match c {
        PbConstraint::Ub(_) => s <= b,
        PbConstraint::Lb(_) => s >= b,
        PbConstraint::Eq(_) => s == b,
    }
}
/// reified cardinality constraints: imp_card(n)
fn imp_card(a: [u64; 4]) {
    let n = a[0] as usize;
    let kind = pick(2);
    let b = if choice() { pick(n + 3) as u64 } else { mag(32) };
    let ls: Vec<Lit> = (0..n).map(|_| sym_lit(n)).collect();
    let l = sym_lit(n + 1);
    let inp = bits(n + 1);
    let sat = card_val(kind, &ls, b, &inp);
    let c = if kind == 0 { CardConstraint::new_ub(ls.clone(), b as usize) } else { CardConstraint::new_lb(ls.clone(), b as usize) };
    // documented to panic on unsatisfiable constraints
    if kind == 1 {
        allow_panic(b > n as u64);
    }
    let lv = lit_val(l, &inp) != 0;
    if choice() {
        let p = atomics::lit_impl_card(l, &c);
        check(pb_val(&p, &inp) == (!lv | sat), "literal implies cardinality constraint");
    } else {
        let p = atomics::card_impl_lit(&c, l);
        check(pb_val(&p, &inp) == (!sat | lv), "cardinality constraint implies literal");
    }
    witness(1);
}
/// reified pseudo-boolean constraints: imp_pb(n, bits)
fn imp_pb(a: [u64; 4]) {
    let (n, w) = (a[0] as usize, a[1]);
    let kind = pick(2);
    let ls: Vec<(Lit, usize)> = (0..n).map(|v| (pol_lit(v), mag(w) as usize)).collect();
    let neg = choice();
    let m = mag(w + 2) as isize;
    let b = if neg { -1 - m } else { m };
    let l = if choice() { pol_lit(n) } else { pol_lit(0) };
    let inp = bits(n + 1);
    let c = if kind == 0 { PbConstraint::new_ub_unsigned(ls.clone(), b) } else { PbConstraint::new_lb_unsigned(ls.clone(), b) };
    let sat = pb_val(&c, &inp);
    let tot: u64 = ls.iter().map(|(_, w)| *w as u64).sum();
    if kind == 0 {
        allow_panic(b < 0);
    } else {
        allow_panic((b > 0) & (b as u64 > tot));
    }
    let lv = lit_val(l, &inp) != 0;
    if choice() {
        let p = atomics::lit_impl_pb(l, &c);
        check(pb_val(&p, &inp) == (!lv | sat), "literal implies PB constraint");
    } else {
        let p = atomics::pb_impl_lit(&c, l);
        check(pb_val(&p, &inp) == (!sat | lv), "PB constraint implies literal");
    }
    witness(1);
}

fn run_am1<E: Encode + EncodeStats + IterInputs>(mut e: E, ls: &[Lit], first: u32, inp: &[u8], pre: &[u32]) {
    let n = ls.len();
    check(e.n_lits() == n, "number of input literals");
    let mut i = 0;
    for l in IterInputs::iter(&e) {
        check(l == ls[i], "input iterator");
        i += 1;
    }
    check(i == n, "input iterator length");
    let mut cnf = Cnf::new();
    for _ in 0..pre.len() {
        cnf.add_clause(Clause::from([Lit::new(first - 1, false), Lit::new(first - 1, true)].as_slice()));
    }
    let mut vm = BasicVarManager::from_next_free(var(first as usize));
    let r = e.encode(&mut cnf, &mut vm);
    check(r.is_ok(), "encoding succeeds");
    let mut f = Flat::new();
    f.cnf(&cnf);
    let cond = sum_lits(ls, inp) <= 1;
    f.implies(inp, cond, "the clauses exclude every assignment with two true literals");
    f.exists(inp, cond, "every assignment with at most one true literal stays allowed");
    check(EncodeStats::n_clauses(&e) == cnf.len() - pre.len(), "reported number of clauses");
    let used = vm.new_var().idx32() - first;
    check(EncodeStats::n_vars(&e) == used, "reported number of variables");
    for c in cnf.iter() {
        for l in c.iter() {
            check(l.vidx32() < first + used, "clauses only use input and allocated variables");
        }
    }
    witness(1);
}
fn sum_lits(ls: &[Lit], inp: &[u8]) -> u64 {
    let mut s = 0;
    for l in ls {
        s += lit_val(*l, inp) as u64;
    }
    s
}
/// am1(encoding, n, repeat): `repeat` literals at the end repeat or negate earlier variables
fn am1(a: [u64; 4]) {
    let (n, rep) = (a[1] as usize, a[2] as usize);
    let mut ls: Vec<Lit> = (0..n - rep).map(pol_lit).collect();
    for _ in 0..rep {
        ls.push(lit(pick(n - rep), choice()));
    }
    // the next free variable may be above the inputs
    let gap = if a[3] != 0 { 3 } else { 0 };
    let first = (n + gap) as u32;
    let inp = bits(first as usize);
    let pre = vec![0u32; if first > 0 && choice() { 2 } else { 0 }];
    let l2 = ls.clone();
    match a[0] {
        0 => run_am1(Pairwise::from(l2), &ls, first, &inp, &pre),
        1 => run_am1(Ladder::from(l2), &ls, first, &inp, &pre),
        2 => run_am1(Bitwise::from(l2), &ls, first, &inp, &pre),
        3 => run_am1(<Commander>::from(l2), &ls, first, &inp, &pre),
        4 => run_am1(<Bimander>::from(l2), &ls, first, &inp, &pre),
        5 => run_am1(<TwoProduct>::from(l2), &ls, first, &inp, &pre),
        6 => run_am1(Commander::<2, Bitwise>::from(l2), &ls, first, &inp, &pre),
        7 => run_am1(Bimander::<3, Ladder>::from(l2), &ls, first, &inp, &pre),
        8 => run_am1(TwoProduct::<TwoProduct>::from(l2), &ls, first, &inp, &pre),
        9 => run_am1(Commander::<3, Ladder>::from(l2), &ls, first, &inp, &pre),
        10 => run_am1(Bimander::<1>::from(l2), &ls, first, &inp, &pre),
        _ => run_am1(Commander::<1>::from(l2), &ls, first, &inp, &pre),
    }
}
fn go<E: Encode + EncodeStats + IterInputs + FromIterator<Lit> + Extend<Lit>>(a: [u64; 4]) {
    // two constraints over disjoint inputs encoded into the same collector, literals added by extend
    let (n1, n2) = (a[1] as usize, a[2] as usize);
    let l1: Vec<Lit> = (0..n1).map(pol_lit).collect();
    let l2: Vec<Lit> = (n1..n1 + n2).map(pol_lit).collect();
    let inp = bits(n1 + n2);
    let k = pick(n2 + 1);
    let mut e1: E = l1.iter().copied().collect();
    let mut e2: E = l2[..k].iter().copied().collect();
    e2.extend(l2[k..].iter().copied());
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(n1 + n2));
    e1.encode(&mut cnf, &mut vm).unwrap();
    let c1 = cnf.len();
    e2.encode(&mut cnf, &mut vm).unwrap();
    check(EncodeStats::n_clauses(&e1) == c1, "clauses of the first encoding");
    check(EncodeStats::n_clauses(&e2) == cnf.len() - c1, "clauses of the second encoding");
    check(EncodeStats::n_vars(&e1) + EncodeStats::n_vars(&e2) == vm.new_var().idx32() - (n1 + n2) as u32, "variables of both encodings");
    let mut f = Flat::new();
    f.cnf(&cnf);
    let cond = (sum_lits(&l1, &inp) <= 1) & (sum_lits(&l2, &inp) <= 1);
    f.iff(&inp, cond, "two constraints in one formula exclude what they should", "two constraints in one formula do not interfere");
    witness(1);
}
fn am1_seq(a: [u64; 4]) {
    match a[0] {
        0 => go::<Pairwise>(a),
        1 => go::<Ladder>(a),
        2 => go::<Bitwise>(a),
        3 => go::<Commander<2>>(a),
        4 => go::<Bimander<2>>(a),
        _ => go::<TwoProduct>(a),
    }
}
