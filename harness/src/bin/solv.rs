//! Solving: S01 simulated incremental solving, S02 MaxSAT search, S03 BatSat backend
use rustsat::algs::maxsat::{Solve as MaxSatSolve, SolutionImprovingSearch};
use rustsat::encodings::pb::{BinaryAdder, GeneralizedTotalizer};
use rustsat::instances::OptInstance;
use rustsat::solvers::simulators::Incremental;
use rustsat::solvers::Solve;
use rustsat::types::{Assignment, Clause, Lit, TernaryVal, Var};
use symlib::*;

#[path = "../hist.rs"]
mod hist;
use hist::*;
pub const W: usize = 4;
pub const NV: usize = 8;

entries!(sim_hist, search, opt_search, batsat_hist, sim_ways, batsat_ways);

fn sim_hist(a: [u64; 4]) {
    hist::<Incremental<Spy<false>>>(a, true);
}
fn batsat_hist(a: [u64; 4]) {
    hist::<rustsat_batsat::BasicSolver>(a, false);
}
fn sim_ways(a: [u64; 4]) {
    ways::<Incremental<Spy<false>>>(a, true);
}
fn batsat_ways(a: [u64; 4]) {
    ways::<rustsat_batsat::BasicSolver>(a, false);
}

// ------------------------------------------------------------ S02
fn cost_of(objs: &[(Vec<Lit>, usize)], k: u64) -> i64 {
    // the weight counts for falsified clauses
    objs.iter().map(|(c, w)| if c.iter().any(|l| (k >> l.vidx() & 1 == 1) == l.is_pos()) { 0 } else { *w as i64 }).sum()
}
/// the returned solution over the first `n` variables is optimal
fn optimal(n: usize, hard: M, softs: &[(Vec<Lit>, usize)], offset: i64, res: Option<(Assignment, i64)>) {
    let Some((sol, cost)) = res else {
        check(hard.empty(), "no solution only if there is none");
        return witness(1);
    };
    let mut cube = M::all();
    let mut known = vec![];
    for v in 0..n as u32 {
        match sol.var_value(Var::new(v)) {
            TernaryVal::True => {
                cube = cube.and(M::lit(Lit::positive(v)));
                known.push((v, true));
            }
            TernaryVal::False => {
                cube = cube.and(M::lit(Lit::negative(v)));
                known.push((v, false));
            }
            TernaryVal::DontCare => (),
        }
    }
    check(cube.and(hard.not()).empty(), "the solution satisfies the hard clauses");
    for k in 0..1u64 << n {
        let c = cost_of(softs, k) + offset;
        check(!hard.has(k) | (c >= cost), "no solution has a lower cost");
        if known.iter().all(|(v, t)| (k >> v & 1 == 1) == *t) {
            check(c == cost, "the cost of the solution is reported");
        }
    }
    witness(2);
}
/// a[0] variables, a[1] % 10 hard clauses of up to a[1] / 10 literals, a[2] objective terms with weights up to a[3] % 10, a[3] / 10: encoding
fn search(a: [u64; 4]) {
    let n = a[0] as usize;
    let mut s: Spy<true> = Spy::default();
    let mut hard = M::all();
    for _ in 0..a[1] % 10 {
        let c = sym_clause(n, pick(a[1] as usize / 10 + 1));
        s.add_clause(Clause::from(&c[..])).unwrap();
        hard = hard.and(M::clause(&c));
    }
    let mut obj = vec![];
    let mut softs = vec![];
    for _ in 0..a[2] {
        let l = pick_lit(n);
        let w = 1 + pick(a[3] as usize % 10);
        obj.push((l, w));
        softs.push((vec![!l], w));
    }
    let res = match a[3] / 10 {
        0 => SolutionImprovingSearch::<_, GeneralizedTotalizer>::solve(&mut s, &obj),
        _ => SolutionImprovingSearch::<_, BinaryAdder>::solve(&mut s, &obj),
    };
    optimal(n, hard, &softs, 0, res.map(|(s, c)| (s, c as i64)));
}
/// a[0] variables, a[1] % 10 hard clauses of up to a[1] / 10 literals, a[2] % 10 softs of up to a[2] / 10 literals with weights up to a[3]
fn opt_search(a: [u64; 4]) {
    let n = a[0] as usize;
    let mut inst: OptInstance = OptInstance::new();
    let mut hard = M::all();
    for _ in 0..a[1] % 10 {
        let len = pick(a[1] as usize / 10 + 1);
        let c: Vec<Lit> = (0..len).map(|_| pick_lit(n)).collect();
        inst.constraints_mut().add_clause(Clause::from(&c[..]));
        hard = hard.and(M::clause(&c));
    }
    let mut softs = vec![];
    for _ in 0..a[2] % 10 {
        let len = pick(a[2] as usize / 10 + 1);
        let c: Vec<Lit> = (0..len).map(|_| pick_lit(n)).collect();
        let w = 1 + pick(a[3] as usize);
        inst.objective_mut().increase_soft_clause(w, Clause::from(&c[..]));
        softs.push((c, w));
    }
    let off = pick(3) as isize - 1;
    inst.objective_mut().increase_offset(off);
    let res = inst.solve_maxsat::<SolutionImprovingSearch<Spy<true>, GeneralizedTotalizer>>();
    optimal(n, hard, &softs, off as i64, res.map(|(s, c)| (s, c as i64)));
}
