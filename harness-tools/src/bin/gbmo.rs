//! The tools gbmosplit, mo2ilp and enumerator: X02, X03
use rustsat::instances::{MultiOptInstance, Objective, OptInstance};
use rustsat::solvers::{Solve, SolveIncremental, SolverResult};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Assignment, Clause, Lit, TernaryVal};
use symlib::*;

entries!(split, ilp, enumerate);

#[allow(dead_code, unused_imports)]
mod g {
    include!(concat!(env!("OUT_DIR"), "/gbmosplit.rs"));
    /// splits an instance, returning the new instance and the multipliers of the objectives
    pub fn run_split<VM: rustsat::instances::ManageVars>(inst: OptInstance<VM>, alg: u64, max_combs: usize) -> (MultiOptInstance<VM>, Vec<usize>) {
        let cli = Cli {
            in_path: None,
            out_path: None,
            input_format: InputFormat::Wcnf,
            output_format: OutputFormat::Mcnf,
            split_alg: match alg {
                0 => SplitAlg::Bmo,
                1 => SplitAlg::Gcd,
                _ => SplitAlg::Gbmo,
            },
            max_combs,
            always_dump: false,
            opb_opts: fio::opb::Options::default(),
            stdout: termcolor::BufferWriter::stdout(termcolor::ColorChoice::Never),
            stderr: termcolor::BufferWriter::stderr(termcolor::ColorChoice::Never),
        };
        let (inst, stats) = split(inst, &cli);
        (inst, stats.obj_stats.into_iter().map(|s| s.multiplier).collect())
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// cost of the objective for a total assignment
fn cost(obj: &[(Clause, usize)], inp: &[u8]) -> u64 {
    let mut s = 0;
    for (c, w) in obj {
        s += ite(clause_val(&c[..], inp) == 1, 0, *w as u64);
    }
    s
}

/// the positions (in the ascending weights) after which the documented criterion allows a split
fn want_splits(ws: &[usize], alg: u64) -> Vec<usize> {
    let n = ws.len();
    let mut r = vec![];
    let mut left = 0;
    for i in 0..n - 1 {
        left += ws[i];
        let right = &ws[i + 1..];
        if right[0] == ws[i] {
            continue;
        }
        let g = right.iter().fold(0, |g, w| gcd(g, *w));
        // smallest difference between two different sums of the right side
        let mut min = usize::MAX;
        for a in 0..1usize << right.len() {
            for b in 0..1usize << right.len() {
                let s = |m: usize| right.iter().enumerate().map(|(i, w)| if m >> i & 1 == 1 { *w } else { 0 }).sum::<usize>();
                let (x, y) = (s(a), s(b));
                if x > y {
                    min = min.min(x - y);
                }
            }
        }
        match alg {
            0 => {
                if right[0] <= left {
                    return vec![];
                }
                r.push(i);
            }
            1 => {
                if left < g {
                    r.push(i)
                }
            }
            _ => {
                if left < min {
                    r.push(i)
                }
            }
        }
    }
    r
}

/// A0 soft clauses, A1 algorithm, A2 largest weight, A3: 1 with two-literal clauses and a constraint; +8*(w0): first weight fixed
fn split(a: [u64; 4]) {
    let (n, alg, mx) = (a[0] as usize, a[1], a[2] as usize);
    let nv = n + 1;
    let mut ws: Vec<usize> = vec![];
    for i in 0..n {
        ws.push(if i == 0 && a[3] >= 8 { (a[3] / 8) as usize } else { 1 + pick(mx) });
    }
    let mut inst: OptInstance = OptInstance::new();
    let mut soft: Vec<(Clause, usize)> = vec![];
    for (i, w) in ws.iter().enumerate() {
        let mut c: Clause = Clause::from_iter([lit(i, i % 2 == 0)]);
        if a[3] % 8 == 1 && i == n - 1 {
            c.add(pos(n));
        }
        soft.push((c, *w));
    }
    for (c, w) in &soft {
        if c.len() == 1 && a[3] % 8 != 2 {
            inst.objective_mut().add_soft_lit(*w, !c[0]);
        } else {
            inst.objective_mut().add_soft_clause(*w, c.clone());
        }
    }
    let con: Vec<Lit> = vec![pos(0), neg(n)];
    inst.constraints_mut().add_clause(Clause::from_iter(con.iter().copied()));
    let (inst, mult) = g::run_split(inst, alg, if a[3] % 8 == 3 { 1 } else { 100_000 });
    let (con2, objs) = inst.decompose();
    check(objs.len() == mult.len() && !objs.is_empty(), "there is a multiplier for every objective");
    let objs: Vec<Vec<(Clause, usize)>> = objs
        .into_iter()
        .map(|o: Objective| {
            let (s, off) = o.into_soft_cls();
            check(off == 0, "splitting does not change the offset");
            s.into_iter().collect()
        })
        .collect();
    let mut sorted = ws.clone();
    sorted.sort_unstable();
    let weighted = sorted[0] != sorted[n - 1];
    if a[3] % 8 != 3 {
        let want = if weighted { want_splits(&sorted, alg) } else { vec![] };
        check(objs.len() == want.len() + 1, "the objective is split wherever the criterion of the algorithm allows it");
    }
    let (x, y) = (bits(nv), bits(nv));
    let (cnf, _) = con2.into_cnf();
    let mut h = true;
    for c in cnf.iter() {
        h &= clause_val(&c[..], &x) == 1;
    }
    check(h == (clause_val(&con, &x) == 1), "splitting does not change the constraints");
    let (mut tx, mut ty) = (0u64, 0u64);
    // lexicographic order, the last objective has the highest rank
    let (mut less, mut eq) = (false, true);
    for (o, m) in objs.iter().zip(&mult).rev() {
        let (cx, cy) = (cost(o, &x), cost(o, &y));
        tx += cx * *m as u64;
        ty += cy * *m as u64;
        less |= eq & (cx < cy);
        eq &= cx == cy;
    }
    let (fx, fy) = (cost(&soft, &x), cost(&soft, &y));
    check(fx == tx && fy == ty, "the original objective is the sum of the split objectives times their multipliers");
    check((fx < fy) == less, "the original objective orders assignments like the split objectives lexicographically");
    witness(1);
}

#[allow(dead_code, unused_imports)]
mod m {
    include!(concat!(env!("OUT_DIR"), "/mo2ilp.rs"));
    pub fn write(inst: MultiOptInstance, fgt: bool) -> Vec<u8> {
        let mut out = vec![];
        write_instance(inst, if fgt { OutputFormat::Fgt } else { OutputFormat::Bauss }, &mut out).unwrap();
        out
    }
}

/// numbers of a line
fn nums(l: &str) -> Vec<i64> {
    l.split_whitespace()
        .map(|t| match t.parse() {
            Ok(x) => x,
            Err(_) => {
                check(false, "only numbers are written");
                0
            }
        })
        .collect()
}

fn combos(lits: &[Lit], ws: &[usize], inp: &[u8]) -> i64 {
    let mut s = 0;
    for (l, w) in lits.iter().zip(ws) {
        s += ite(lit_val(*l, inp) == 1, *w as u64, 0) as i64;
    }
    s
}

/// A0 variables, A1 kind of the constraint (0 clause, 1-3 cardinality, 4-6 pseudo-Boolean) + 10 * objectives, A2 largest weight, A3: 1 format, 2 clauses as softs
fn ilp(a: [u64; 4]) {
    let (nv, kind, no, mx) = (a[0] as usize, a[1] % 10, (a[1] / 10) as usize, a[2] as usize);
    let mut inst: MultiOptInstance = MultiOptInstance::new(no);
    let lits: Vec<Lit> = (0..nv).map(pol_lit).collect();
    let ws: Vec<usize> = (0..nv).map(|_| if kind >= 4 { 1 + pick(mx) } else { 1 }).collect();
    let b = pick(nv * mx + 2) as i64;
    {
        let c = inst.constraints_mut();
        match kind {
            0 => c.add_clause(lits.iter().copied().collect()),
            1 => c.add_card_constr(CardConstraint::new_ub(lits.iter().copied(), b as usize)),
            2 => c.add_card_constr(CardConstraint::new_lb(lits.iter().copied(), b as usize)),
            3 => c.add_card_constr(CardConstraint::new_eq(lits.iter().copied(), b as usize)),
            4 => c.add_pb_constr(PbConstraint::new_ub(lits.iter().copied().zip(ws.iter().map(|w| *w as isize)), b as isize)),
            5 => c.add_pb_constr(PbConstraint::new_lb(lits.iter().copied().zip(ws.iter().map(|w| *w as isize)), b as isize)),
            _ => c.add_pb_constr(PbConstraint::new_eq(lits.iter().copied().zip(ws.iter().map(|w| *w as isize)), b as isize)),
        }
    }
    let mut objs: Vec<Vec<(Clause, usize)>> = vec![];
    let mut offs = vec![];
    let mut used = nv;
    for k in 0..no {
        let mut o = vec![];
        let obj = inst.objective_mut(k);
        for v in 0..nv {
            let w = pick(mx + 1);
            // objectives may use variables that are in no constraint
            let l = lit(v + k, (v + k) % 2 == 0);
            let c: Clause = if a[3] & 2 == 2 && v == 0 { Clause::from_iter([l, pos(v + k + 1)]) } else { Clause::from_iter([l]) };
            if w > 0 {
                obj.add_soft_clause(w, c.clone());
                used = used.max(1 + c.iter().map(|l| l.vidx()).max().unwrap());
            }
            o.push((c, w));
        }
        let off = pick(3) as isize - 1;
        obj.set_offset(off);
        offs.push(off as i64);
        objs.push(o);
    }
    let text = m::write(inst, a[3] & 1 == 1);
    let text = String::from_utf8(text).unwrap();
    let mut lines = text.lines().filter(|l| !l.is_empty());
    let head = nums(lines.next().unwrap());
    let (n, nc) = (head[0] as usize, head[1] as usize);
    check(head[2] as usize == no, "the number of objectives is written");
    let fgt = a[3] & 1 == 1;
    if fgt {
        check(head.len() == 3, "the head has three numbers");
        if no > 0 {
            let t = lines.next().unwrap();
            check(t.split_whitespace().count() == no && t.split_whitespace().all(|x| x == "minsum"), "every objective is minimized");
        }
    }
    let mut rows: Vec<Vec<i64>> = vec![];
    for _ in 0..no + nc {
        let r = nums(lines.next().unwrap());
        check(r.len() == n, "every row has a coefficient for every variable");
        rows.push(r);
    }
    let bounds: Vec<Vec<i64>> = (0..nc).map(|_| nums(lines.next().unwrap())).collect();
    check(bounds.iter().all(|b| b.len() == 2 && b[0] >= 0 && b[0] <= 2), "every constraint has an operator and a bound");
    if fgt {
        let (lo, hi) = (nums(lines.next().unwrap()), nums(lines.next().unwrap()));
        check(lo.len() == n && hi.len() == n && lo.iter().all(|x| *x == 0) && hi.iter().all(|x| *x == 1), "all variables are binary");
    } else {
        check(head.len() == 5, "the head has five numbers");
        let nz = |rs: &[Vec<i64>]| rs.iter().flatten().filter(|x| **x != 0).count() as i64;
        check(head[3] == nz(&rows[no..]), "the number of non-zeroes in the constraints is stated");
    }
    check(lines.next().is_none(), "nothing else is written");
    // assignments of the original variables and optimal values of the added ones
    let need = used;
    check(n > need && n <= need + 6, "few variables are added");
    let inp = bits(nv + no + 1);
    let holds = match kind {
        0 => clause_val(&lits, &inp) == 1,
        1 | 4 => combos(&lits, &ws, &inp) <= b,
        2 | 5 => combos(&lits, &ws, &inp) >= b,
        _ => combos(&lits, &ws, &inp) == b,
    };
    let extra = n.saturating_sub(need);
    let mut feas = false;
    let mut best: Vec<i64> = vec![i64::MAX; no];
    let mut below = false;
    let want: Vec<i64> = objs.iter().zip(&offs).map(|(o, off)| cost(o, &inp) as i64 + off).collect();
    for e in 0..1usize << extra {
        let x = |v: usize| if v < need { inp[v] } else { (e >> (v - need) & 1) as u8 };
        let row = |r: &Vec<i64>| {
            let mut s = 0i64;
            for v in 0..n {
                s += if x(v) == 1 { r[v] } else { 0 };
            }
            s
        };
        let mut ok = true;
        for (r, b) in rows[no..].iter().zip(&bounds) {
            let s = row(r);
            ok &= match b[0] {
                0 => s >= b[1],
                1 => s <= b[1],
                _ => s == b[1],
            };
        }
        feas |= ok;
        let mut all = ok;
        for k in 0..no {
            let s = row(&rows[k]);
            below |= ok & (s < want[k]);
            all &= s == want[k];
        }
        if all {
            best = want.clone();
        }
    }
    check(feas == holds, "the integer program is feasible for exactly the assignments satisfying the constraints");
    check(!below, "no assignment of the added variables has a smaller cost than the instance");
    check(!holds || best == want, "some assignment of the added variables has the costs of the instance");
    witness(1);
}

#[allow(dead_code, unused_imports)]
mod e {
    mod rustsat_tools {
        pub type Solver = super::super::Any;
    }
    include!(concat!(env!("OUT_DIR"), "/enumerator.rs"));
    pub fn all<S: rustsat::solvers::SolveIncremental>(solver: S, max_var: rustsat::types::Var) -> impl Iterator<Item = rustsat::types::Assignment> {
        Enumerator { solver, max_var }
    }
}

/// a correct solver that finds any model
#[derive(Default)]
pub struct Any {
    cls: Vec<Clause>,
    n: usize,
    model: Vec<u8>,
    part: bool,
    aux: usize,
}
impl Any {
    /// whether the clauses hold under the given values
    fn holds(&self, m: &[u8]) -> bool {
        let mut ok = true;
        for c in &self.cls {
            ok &= clause_val(&c[..], m) == 1;
        }
        ok
    }
}
impl Extend<Clause> for Any {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
        self.cls.extend(iter)
    }
}
impl<'a> Extend<&'a Clause> for Any {
    fn extend<T: IntoIterator<Item = &'a Clause>>(&mut self, iter: T) {
        self.cls.extend(iter.into_iter().cloned())
    }
}
impl Solve for Any {
    fn signature(&self) -> &'static str {
        "any"
    }
    fn solve(&mut self) -> anyhow::Result<SolverResult> {
        let sat = (0..1usize << self.n).any(|m| conc_bool(self.holds(&(0..self.n).map(|v| (m >> v & 1) as u8).collect::<Vec<_>>())));
        if !sat {
            return Ok(SolverResult::Unsat);
        }
        self.model = cbits(self.n);
        assume(self.holds(&self.model));
        // values that do not matter may be left open
        if self.part {
            let v = pick(self.n + 1);
            if v < self.n {
                let mut o = self.model.clone();
                o[v] ^= 1;
                assume(self.holds(&o));
                self.model[v] = 2;
            }
        }
        Ok(SolverResult::Sat)
    }
    fn lit_val(&self, l: Lit) -> anyhow::Result<TernaryVal> {
        Ok(match (self.model.get(l.vidx()), l.is_neg()) {
            (Some(1), false) | (Some(0), true) => TernaryVal::True,
            (Some(0), false) | (Some(1), true) => TernaryVal::False,
            _ => TernaryVal::DontCare,
        })
    }
    fn add_clause_ref<C: AsRef<rustsat::types::Cl> + ?Sized>(&mut self, c: &C) -> anyhow::Result<()> {
        self.cls.push(c.as_ref().iter().copied().collect());
        Ok(())
    }
}
impl SolveIncremental for Any {
    fn solve_assumps(&mut self, _: &[Lit]) -> anyhow::Result<SolverResult> {
        unreachable!()
    }
    fn core(&mut self) -> anyhow::Result<Vec<Lit>> {
        unreachable!()
    }
}
impl rustsat::solvers::Propagate for Any {
    fn propagate(&mut self, _: &[Lit], _: bool) -> anyhow::Result<rustsat::solvers::PropagateResult> {
        unreachable!()
    }
}

/// A0 variables, A1 further variables not enumerated, A2 clauses of two literals, A3: 1 partial models
fn enumerate(a: [u64; 4]) {
    let (nv, aux) = (a[0] as usize, a[1] as usize);
    let n = nv + aux;
    let mut s = Any { n, part: a[3] == 1, aux, ..Any::default() };
    for _ in 0..a[2] {
        let c = Clause::from_iter([sym_lit(n), sym_lit(n)]);
        s.cls.push(c);
    }
    let cls = s.cls.clone();
    let mut sols: Vec<Assignment> = vec![];
    let mut it = e::all(s, var(nv - 1));
    loop {
        let Some(x) = it.next() else { break };
        sols.push(x);
        check(sols.len() <= 1 << nv, "no more solutions than assignments");
    }
    check(it.next().is_none(), "there is no solution after the last one");
    // every assignment of the variables that can be extended is covered once
    let inp = bits(nv);
    let mut want = false;
    for e in 0..1usize << aux {
        let mut m = inp.clone();
        for k in 0..aux {
            m.push((e >> k & 1) as u8);
        }
        let mut ok = true;
        for c in &cls {
            ok &= clause_val(&c[..], &m) == 1;
        }
        want |= ok;
    }
    let mut count = 0u64;
    for x in &sols {
        let mut m = true;
        for v in 0..nv {
            m &= match x.var_value(var(v)) {
                TernaryVal::True => inp[v] == 1,
                TernaryVal::False => inp[v] == 0,
                TernaryVal::DontCare => true,
            };
        }
        count += m as u64;
    }
    check(count == want as u64, "every solution is enumerated exactly once");
    witness(1);
}
