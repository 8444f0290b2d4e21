//! Pseudo-Boolean encodings: E06 - E08 bounds, E09 constraints, E10 histories, E11 statistics, E12 refusals and next values, E14 extended assignments
use rustsat::encodings::card::Totalizer;
use rustsat::encodings::nodedb::{NodeById, NodeCon, NodeLike};
use rustsat::encodings::pb::dpw::referenced as dref;
use rustsat::encodings::pb::gte::referenced::{Gte, GteCell};
use rustsat::encodings::pb::simulators::{Card, Double, Inverted};
use rustsat::encodings::pb::*;
use rustsat::encodings::totdb;
use rustsat::encodings::{ConstraintEncodingError, EncodeStats, EnforceError};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars};
use rustsat::types::constraints::PbConstraint;
use rustsat::types::Lit;
use std::ops::{Bound, RangeBounds};
use symlib::*;

entries!(bound, big, hist, next, prec, limit, constr, constr_wide, referenced, dpw_ref, strict);

type R = (Bound<usize>, Bound<usize>);
type Dpw = DynamicPolyWatchdog;

/// the operations of all weighted encoders; `SIDES`: 1 upper, 2 lower bounds
trait Enc: Sized {
    const SIDES: u8;
    const EXT: bool;
    /// 1: lower bounds are skipped where the next smaller upper bound is encoded (known finding); 2: the same through inversion
    const SKIP: u8;
    /// bounds encoded before the last operation may be refused
    const LAZY: bool;
    fn make(ls: &[(Lit, usize)]) -> Self;
    fn enc(&mut self, kind: u8, r: R, c: &mut Cnf, v: &mut BasicVarManager);
    fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError>;
    fn lb(&self, b: usize) -> Result<Vec<Lit>, EnforceError>;
    fn eq(&self, b: usize) -> Result<Vec<Lit>, EnforceError>;
    fn sum(&self) -> usize;
    fn nh(&self, b: usize) -> usize;
    fn nl(&self, b: usize) -> usize;
    fn add(&mut self, ls: &[(Lit, usize)]);
    fn res(&mut self, v: &mut BasicVarManager);
    fn stats(&self) -> Option<(usize, u32)>;
}
const fn has(h: &str, n: &str) -> bool {
    let (h, n) = (h.as_bytes(), n.as_bytes());
    let mut i = 0;
    while i + n.len() <= h.len() {
        let mut j = 0;
        while j < n.len() && h[i + j] == n[j] {
            j += 1;
        }
        if j == n.len() {
            return true;
        }
        i += 1;
    }
    false
}
macro_rules! common {
    ($n:expr, $ext:expr) => {
        common!($n, $ext, 0);
    };
    ($n:expr, $ext:expr, $k:expr) => {
        const EXT: bool = $ext;
        const SKIP: u8 = $k;
        const LAZY: bool = has($n, "Generalized") || has($n, "IDgte");
        fn make(ls: &[(Lit, usize)]) -> Self {
            ls.iter().copied().collect()
        }
        fn sum(&self) -> usize {
            Encode::weight_sum(self)
        }
        fn nh(&self, b: usize) -> usize {
            Encode::next_higher(self, b)
        }
        fn nl(&self, b: usize) -> usize {
            Encode::next_lower(self, b)
        }
        fn res(&mut self, v: &mut BasicVarManager) {
            EncodeIncremental::reserve(self, v)
        }
    };
}
macro_rules! ext {
    (true) => {
        fn add(&mut self, ls: &[(Lit, usize)]) {
            self.extend(ls.iter().copied())
        }
    };
    (false) => {
        fn add(&mut self, _: &[(Lit, usize)]) {
            unreachable!()
        }
    };
}
macro_rules! stat {
    (true) => {
        fn stats(&self) -> Option<(usize, u32)> {
            Some((EncodeStats::n_clauses(self), EncodeStats::n_vars(self)))
        }
    };
    (false) => {
        fn stats(&self) -> Option<(usize, u32)> {
            None
        }
    };
}
macro_rules! upper {
    ($t:ty, $e:tt, $s:tt) => {
        impl Enc for $t {
            const SIDES: u8 = 1;
            common!(stringify!($t), $e);
            ext!($e);
            stat!($s);
            fn enc(&mut self, kind: u8, r: R, c: &mut Cnf, v: &mut BasicVarManager) {
                let x = if kind < 3 { self.encode_ub(r, c, v) } else { self.encode_ub_change(r, c, v) };
                check(x.is_ok(), "encoding succeeds")
            }
            fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                self.enforce_ub(b)
            }
            fn lb(&self, _: usize) -> Result<Vec<Lit>, EnforceError> {
                unreachable!()
            }
            fn eq(&self, _: usize) -> Result<Vec<Lit>, EnforceError> {
                unreachable!()
            }
        }
    };
}
macro_rules! lower {
    ($t:ty, $e:tt, $s:tt) => {
        impl Enc for $t {
            const SIDES: u8 = 2;
            common!(stringify!($t), $e);
            ext!($e);
            stat!($s);
            fn enc(&mut self, kind: u8, r: R, c: &mut Cnf, v: &mut BasicVarManager) {
                let x = if kind < 3 { self.encode_lb(r, c, v) } else { self.encode_lb_change(r, c, v) };
                check(x.is_ok(), "encoding succeeds")
            }
            fn ub(&self, _: usize) -> Result<Vec<Lit>, EnforceError> {
                unreachable!()
            }
            fn lb(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                self.enforce_lb(b)
            }
            fn eq(&self, _: usize) -> Result<Vec<Lit>, EnforceError> {
                unreachable!()
            }
        }
    };
}
macro_rules! both {
    ($t:ty, $e:tt, $s:tt) => {
        both!($t, $e, $s, 0);
    };
    ($t:ty, $e:tt, $s:tt, $k:expr) => {
        impl Enc for $t {
            const SIDES: u8 = 3;
            common!(stringify!($t), $e, $k);
            ext!($e);
            stat!($s);
            fn enc(&mut self, kind: u8, r: R, c: &mut Cnf, v: &mut BasicVarManager) {
                let x = match kind {
                    0 => self.encode_ub(r, c, v),
                    1 => self.encode_lb(r, c, v),
                    2 => self.encode_both(r, c, v),
                    3 => self.encode_ub_change(r, c, v),
                    4 => self.encode_lb_change(r, c, v),
                    _ => self.encode_both_change(r, c, v),
                };
                check(x.is_ok(), "encoding succeeds")
            }
            fn ub(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                self.enforce_ub(b)
            }
            fn lb(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                self.enforce_lb(b)
            }
            fn eq(&self, b: usize) -> Result<Vec<Lit>, EnforceError> {
                self.enforce_eq(b)
            }
        }
    };
}
upper!(GeneralizedTotalizer, true, true);
lower!(Inverted<GeneralizedTotalizer>, true, true);
both!(DoubleGeneralizedTotalizer, true, true);
both!(Card<Totalizer>, true, false);
upper!(Dpw, false, true);
lower!(Inverted<Dpw>, false, true);
type DDpw = Double<Dpw, Inverted<Dpw>>;
both!(DDpw, false, true);
both!(BinaryAdder, true, true, 1);
both!(Inverted<BinaryAdder>, true, true, 2);
type DBa = Double<BinaryAdder, BinaryAdder>;
both!(DBa, true, true);
type IDgte = Inverted<DoubleGeneralizedTotalizer>;
both!(IDgte, true, true);

macro_rules! dispatch {
    ($f:ident, $i:expr, $($a:expr),*) => {
        match $i {
            0 => $f::<GeneralizedTotalizer>($($a),*),
            1 => $f::<Inverted<GeneralizedTotalizer>>($($a),*),
            2 => $f::<DoubleGeneralizedTotalizer>($($a),*),
            3 => $f::<Card<Totalizer>>($($a),*),
            4 => $f::<Dpw>($($a),*),
            5 => $f::<Inverted<Dpw>>($($a),*),
            6 => $f::<DDpw>($($a),*),
            7 => $f::<BinaryAdder>($($a),*),
            8 => $f::<Inverted<BinaryAdder>>($($a),*),
            9 => $f::<DBa>($($a),*),
            _ => $f::<IDgte>($($a),*),
        }
    };
}

const SEM: u64 = 1;
const STAT: u64 = 2;
const REF: u64 = 4;
const WHOLE: u64 = 16;

/// forks over ranges up to sum+1
fn pick_range(n: usize, full: bool) -> R {
    if full {
        let s = match pick(3) {
            0 => Bound::Included(pick(n + 2)),
            1 => Bound::Excluded(pick(n + 1)),
            _ => Bound::Unbounded,
        };
        let e = match pick(4) {
            0 => Bound::Included(pick(n + 2)),
            1 => Bound::Excluded(pick(n + 3)),
            2 => Bound::Unbounded,
            _ => Bound::Included(usize::MAX),
        };
        return (s, e);
    }
    let b = pick(n + 4);
    if b <= n {
        (Bound::Included(b), Bound::Included(b))
    } else if b == n + 1 {
        (Bound::Unbounded, Bound::Unbounded)
    } else if b == n + 2 {
        (Bound::Included(1), Bound::Excluded(1))
    } else {
        let lo = pick(n + 1);
        (Bound::Included(lo), Bound::Included(lo + 1 + pick(n + 1)))
    }
}
/// `n` literals with nondecreasing weights out of 0..=w (forked); the last `rep` on earlier variables
fn inputs(n: usize, w: usize, rep: usize, mask: u64, sorted: bool) -> Vec<(Lit, usize)> {
    let mut out = Vec::with_capacity(n);
    let mut last = 0;
    for i in 0..n {
        let l = if i < n - rep { lit(i, (mask >> i) & 1 != 0) } else { lit(pick(n - rep), choice()) };
        let wt = if sorted && i < n - rep { last + pick(w + 1 - last) } else { pick(w + 1) };
        last = if i < n - rep { wt } else { last };
        out.push((l, wt));
    }
    out
}
fn wsum(ls: &[(Lit, usize)], inp: &[u8]) -> u64 {
    let mut s = 0u64;
    for (l, w) in ls {
        s += lit_val(*l, inp) as u64 * *w as u64;
    }
    s
}
fn with(f: &Flat, a: &[Lit]) -> Flat {
    let mut f = f.clone();
    for l in a {
        f.unit(*l);
    }
    f
}
fn fresh(cnf: &Cnf, first: u32, used: u32, n_in: usize) {
    for c in cnf.iter() {
        for l in c.iter() {
            let v = l.vidx32();
            check((v < n_in as u32) | ((v >= first) & (v < first + used)), "clauses only mention inputs and variables handed out");
        }
    }
}
/// `div`: bounds and weights are divided by it (precision of the watchdog)
fn checks<E: Enc>(e: &E, f: &Flat, ls: &[(Lit, usize)], inp: &[u8], bs: &[usize], what: u64, ub: &dyn Fn(usize) -> u8, lb: &dyn Fn(usize) -> u8, sides: u8) {
    // 0: not encoded, 1: encoded, 3: encoded before the last operation and may be refused, 2: encoded, but skipped by the known finding
    let mut told = false;
    let mut skipped = || {
        if !told && choice() {
            known("adder-skipped-lb", true);
            check(false, "an encoded bound can be enforced");
        }
        told = true;
    };
    let total: usize = ls.iter().map(|x| x.1).sum();
    let s = wsum(ls, inp);
    if E::SIDES & sides & 1 != 0 {
        for &b in bs {
            match e.ub(b) {
                Ok(a) => {
                    if what & REF != 0 || ub(b) & 1 == 1 {
                        with(f, &a).iff(inp, s <= b as u64, "the enforced upper bound excludes larger sums", "the enforced upper bound keeps every sum up to the bound");
                    }
                }
                Err(_) if ub(b) == 2 && b < total => skipped(),
                Err(_) => check((ub(b) == 0 || ub(b) == 3) && b < total, "an encoded or trivial upper bound can be enforced"),
            }
        }
        check(matches!(e.ub(usize::MAX), Ok(a) if a.is_empty()), "a huge upper bound is trivial");
    }
    if E::SIDES & sides & 2 != 0 {
        for &b in bs {
            match e.lb(b) {
                Ok(a) => {
                    if what & REF != 0 || lb(b) & 1 == 1 {
                        with(f, &a).iff(inp, s >= b as u64, "the enforced lower bound excludes smaller sums", "the enforced lower bound keeps every sum from the bound on");
                    }
                }
                Err(EnforceError::Unsat) => check(b > total, "a lower bound reported unsatisfiable is"),
                Err(_) if lb(b) == 2 && b > 0 => skipped(),
                Err(_) => check((lb(b) == 0 || lb(b) == 3) && b > 0, "an encoded or trivial lower bound can be enforced"),
            }
        }
        check(total == usize::MAX || matches!(e.lb(usize::MAX), Err(EnforceError::Unsat)), "a huge lower bound is unsatisfiable");
    }
    if E::SIDES & sides == 3 {
        for &b in bs {
            match e.eq(b) {
                Ok(a) => {
                    if what & REF != 0 || (ub(b) & 1 == 1 && lb(b) & 1 == 1) {
                        with(f, &a).iff(inp, s == b as u64, "the enforced equality excludes other sums", "the enforced equality keeps its sum");
                    }
                }
                Err(EnforceError::Unsat) => check(b > total, "an equality reported unsatisfiable is"),
                Err(_) if (ub(b) == 2 && b < total) || (lb(b) == 2 && b > 0) => {}
                Err(_) if (ub(b) == 3 && b < total) || (lb(b) == 3 && b > 0) => {}
                Err(_) => check(!(ub(b) != 0 || b >= total) || !(lb(b) != 0 || b == 0), "an encoded equality can be enforced"),
            }
        }
    }
}
fn b1<E: Enc>(ls: Vec<(Lit, usize)>, r: R, bs: Vec<usize>, what: u64, nv: usize) {
    let first = (nv + 2) as u32;
    let inp = bits(first as usize);
    let total: usize = ls.iter().map(|x| x.1).sum();
    let mode = if E::SIDES == 3 { pick(if what == STAT { 6 } else { 4 }) as u8 } else { 2 };
    let mut e = E::make(&ls);
    check(e.sum() == total, "sum of weights");
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first as usize));
    match mode {
        3 => {
            // lower bounds before upper bounds
            e.enc(1, r, &mut cnf, &mut vm);
            e.enc(3, r, &mut cnf, &mut vm);
        }
        m => e.enc(m, r, &mut cnf, &mut vm),
    }
    check(e.sum() == total, "sum of weights after encoding");
    let mut f = Flat::new();
    f.cnf(&cnf);
    if what & STAT != 0 {
        let used = vm.new_var().idx32() - first;
        if let Some((c, v)) = e.stats() {
            check(c == cnf.len(), "reported number of clauses");
            check(v == used, "reported number of variables");
        }
        fresh(&cnf, first, used, nv);
    }
    if what & SEM != 0 {
        f.exists(&inp, true, "without an enforced bound every input assignment is possible");
    }
    if what & (SEM | REF) != 0 {
        let side = if mode > 1 { 3 } else { mode + 1 };
        let side = if what & REF != 0 { 3 } else { side };
        checks(&e, &f, &ls, &inp, &bs, what, &|b| if mode != 1 && r.contains(&b) { 1 + (E::SKIP == 2 && mode == 3 && r.contains(&(b.saturating_add(1)))) as u8 } else { 0 }, &|b| (mode != 0 && r.contains(&b)) as u8, side);
    }
    witness(1);
}
/// bound(encoder, n + 256*repetitions, largest weight + 256*polarity mask, checks + 256*all range forms)
fn bound(a: [u64; 4]) {
    let (n, rep) = ((a[1] & 255) as usize, (a[1] >> 8) as usize);
    let ls = inputs(n, (a[2] & 255) as usize, rep, a[2] >> 8, true);
    let total: usize = ls.iter().map(|x| x.1).sum();
    let r = pick_range(total, a[3] >> 8 != 0);
    let bs = (0..total + 2).collect();
    dispatch!(b1, a[0], ls, r, bs, a[3] & 255, n - rep);
}
/// big(encoder, weight vector, checks): weights up to the largest representable sum
fn big(a: [u64; 4]) {
    let h = 1usize << 62;
    let ws: Vec<usize> = match a[1] {
        0 => vec![h, h, 2 * h - 2],
        1 => vec![2 * h, 2 * h - 2],
        2 => vec![usize::MAX - 1],
        3 => vec![1, usize::MAX - 2],
        4 => vec![h, 2 * h, h - 2],
        5 => vec![1 << 32, 1 << 40, (1 << 33) + 1],
        _ => vec![(1 << 16) - 1, 1 << 16, 3],
    };
    let n = ws.len();
    let ls: Vec<(Lit, usize)> = ws.iter().enumerate().map(|(i, w)| (lit(i, i == 1), *w)).collect();
    let total: usize = ws.iter().sum();
    // all sums and their neighbours
    let mut bs = vec![];
    for m in 0..1usize << n {
        let s: usize = (0..n).filter(|i| m >> i & 1 != 0).map(|i| ws[i]).sum();
        bs.extend([s.saturating_sub(1), s, s.saturating_add(1)]);
    }
    bs.sort();
    bs.dedup();
    let k = pick(bs.len());
    let r = (Bound::Included(bs[k]), Bound::Included(bs[k]));
    let _ = total;
    dispatch!(b1, a[0], ls, r, bs, a[2], n);
}

/// strict(n + 256*repetitions, largest weight, steps, polarity mask): extended assignments after a history of encoding and adding literals
fn strict(a: [u64; 4]) {
    let (n, rep) = ((a[0] & 255) as usize, (a[0] >> 8) as usize);
    let (w, steps) = (a[1] as usize, a[2] as usize);
    let mut ls = inputs(n, w, rep, a[3], true);
    let nmax = n - rep + steps - 1;
    let first = nmax + 1;
    let inp = bits(first);
    let asg = total(&inp);
    let mut e = GeneralizedTotalizer::from_iter(ls.iter().copied());
    let mut k = n - rep;
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first));
    let mut ubs: Vec<R> = vec![];
    for step in 0..steps {
        let t: usize = ls.iter().map(|x| x.1).sum();
        match pick(3 - (step == 0) as usize) {
            0 => {
                let r = pick_range(t, false);
                e.encode_ub_change(r, &mut cnf, &mut vm).unwrap();
                ubs = vec![r];
            }
            1 => {
                // (moves the literals that were too heavy for the bound into the encoding)
                e.reserve(&mut vm);
                ubs.clear();
            }
            _ => {
                let wt = pick(w + 1);
                let l = if k > 0 && choice() { pick(k) } else { k };
                let l = lit(l, a[3] >> l & 1 != 0);
                e.extend([(l, wt)]);
                ls.push((l, wt));
                k = k.max(l.vidx() + 1);
                ubs.clear();
            }
        }
    }
    let used = vm.new_var().idx() - first;
    let (val, set) = extended(&inp, used, e.strictly_extend_assignment(&asg));
    for c in cnf.iter() {
        let mut sat = 0;
        for l in c.iter() {
            check(set[l.vidx()], "every variable of the encoding is assigned");
            sat |= lit_val(*l, &val);
        }
        check(sat == 1, "the extended assignment satisfies the encoding");
    }
    let t: usize = ls.iter().map(|x| x.1).sum();
    let s = wsum(&ls, &inp);
    for b in 0..=t {
        if ubs.iter().any(|r| r.contains(&b)) {
            let u = e.enforce_ub(b);
            check(u.is_ok(), "an encoded upper bound can be enforced");
            let mut r = 1;
            for l in u.unwrap() {
                check(set[l.vidx()], "the literals that enforce a bound are assigned");
                r &= lit_val(l, &val);
            }
            check((r == 1) == (s <= b as u64), "the extended assignment meets the upper bounds of its sum");
        }
    }
    witness(1);
}

fn h1<E: Enc>(a: [u64; 4]) {
    let (n0, w) = ((a[1] & 255) as usize, (a[1] >> 8) as usize);
    let steps = (a[2] & 255) as usize;
    let what = a[3] & 0xff;
    let nmax = n0 + steps;
    // weights of literals added later come first so that they may be larger or smaller
    let mut all: Vec<(Lit, usize)> = vec![];
    for i in 0..nmax {
        all.push((lit(i, (a[2] >> 8 >> i) & 1 != 0), if i < n0 { pick(w + 1) } else { 0 }));
    }
    let first = (nmax + 1) as u32;
    let inp = bits(first as usize);
    let mut k = n0;
    let mut e = E::make(&all[..k]);
    let mut ls: Vec<(Lit, usize)> = all[..k].to_vec();
    let mut cnf = Cnf::new();
    let mut total_cl = 0;
    let mut vm = BasicVarManager::from_next_free(var(first as usize));
    // ranges with the ranges encoded in the other direction before (see SKIP)
    let (mut ubs, mut lbs): (Vec<(R, Vec<R>, usize)>, Vec<(R, Vec<R>, usize)>) = (vec![], vec![]);
    let mut ifs: Vec<R> = vec![];
    for step in 0..steps {
        let total: usize = ls.iter().map(|x| x.1).sum();
        let mut acts: Vec<u8> = vec![0, 3, 6];
        if E::SIDES == 3 {
            acts.extend([1, 4, 2, 5]);
        }
        if E::EXT {
            acts.push(7);
        }
        // the action of this step may be fixed (base 9, 0 is free; WHOLE: all ranges unbounded)
        let fix = (a[3] >> 8) / 9u64.pow(step as u32) % 9;
        match if fix > 0 { fix as u8 - 1 } else { acts[pick(acts.len())] } {
            7 => {
                // a new literal, or more weight on an old one
                let wt = pick(w + 1);
                let l = if k > 0 && choice() { all[pick(k)].0 } else { all[k].0 };
                e.add(&[(l, wt)]);
                ls.push((l, wt));
                k = k.max(l.vidx() + 1);
                ubs.clear();
                lbs.clear();
                if wt > 0 {
                    ifs.clear();
                }
            }
            6 => e.res(&mut vm),
            kind => {
                let r = if what & WHOLE != 0 {
                    (Bound::Unbounded, Bound::Unbounded)
                } else {
                    pick_range(total, false)
                };
                if kind < 3 {
                    // from scratch: the new collector alone must do
                    if what & REF == 0 {
                        total_cl += cnf.len();
                        cnf = Cnf::new();
                    }
                    ubs.clear();
                    lbs.clear();
                }
                e.enc(kind, r, &mut cnf, &mut vm);
                let k3 = kind % 3;
                if kind == 2 || kind < 3 && kind + 1 == E::SKIP {
                    ifs.clear();
                }
                if k3 != 1 || E::SIDES != 3 {
                    ubs.push((r, ifs.clone(), step));
                }
                if k3 != 0 || E::SIDES != 3 {
                    lbs.push((r, ifs.clone(), step));
                }
                if k3 == 2 || k3 + 1 == E::SKIP {
                    ifs.push(r);
                }
            }
        }
    }
    total_cl += cnf.len();
    let total: usize = ls.iter().map(|x| x.1).sum();
    check(e.sum() == total, "sum of weights");
    let mut f = Flat::new();
    f.cnf(&cnf);
    let bs: Vec<usize> = (0..total + 2).collect();
    let most = |v: &Vec<(R, Vec<R>, usize)>, b: usize, o: Option<usize>| {
        let mut out = 0;
        for (r, sk, step) in v {
            if r.contains(&b) {
                if E::LAZY && step + 1 < steps {
                    out = 3;
                    continue;
                }
                let skip = o.is_some_and(|o| sk.iter().any(|r| r.contains(&o)));
                if !skip {
                    return 1;
                }
                out = 2;
            }
        }
        out
    };
    let ub = |b: usize| most(&ubs, b, if E::SKIP == 2 { Some(b + 1) } else { None });
    let lb = |b: usize| most(&lbs, b, if E::SKIP == 1 && b > 0 { Some(b - 1) } else { None });
    if what & SEM != 0 {
        f.exists(&inp, true, "the clauses alone exclude no input assignment");
        let side = (!ubs.is_empty()) as u8 | (!lbs.is_empty() as u8) << 1;
        checks(&e, &f, &ls, &inp, &bs, SEM, &ub, &lb, side);
    }
    if what & REF != 0 {
        checks(&e, &f, &ls, &inp, &bs, REF, &ub, &lb, 3);
        nexts(&e, &ls, &inp);
    }
    if what & STAT != 0 {
        let used = vm.new_var().idx32() - first;
        if let Some((c, v)) = e.stats() {
            check(c == total_cl, "reported number of clauses");
            check(v == used, "reported number of variables");
        }
        fresh(&cnf, first, used, nmax);
    }
    witness(1);
}
/// hist(encoder, literals at the start + 256*largest weight, steps + 256*mask, checks)
fn hist(a: [u64; 4]) {
    dispatch!(h1, a[0], a);
}

fn nexts<E: Enc>(e: &E, ls: &[(Lit, usize)], inp: &[u8]) {
    let total: usize = ls.iter().map(|x| x.1).sum();
    let s = wsum(ls, inp);
    let v = pick(total + 2);
    let nh = e.nh(v) as u64;
    check(nh > v as u64, "the next higher value is higher");
    check(!((s > v as u64) & (s < nh)), "the next higher value skips no achievable sum");
    let nl = e.nl(v) as u64;
    check(nl < v as u64 || v == 0 && nl == 0, "the next lower value is lower");
    check(!((s < v as u64) & (s > nl)), "the next lower value skips no achievable sum");
}
fn n1<E: Enc>(ls: Vec<(Lit, usize)>, nv: usize) {
    let inp = bits(nv);
    let total: usize = ls.iter().map(|x| x.1).sum();
    let mut e = E::make(&ls);
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(nv));
    match pick(3) {
        0 => {}
        1 => e.res(&mut vm),
        _ => {
            let b = pick(total + 2);
            e.enc(2, (Bound::Included(b), Bound::Included(b)), &mut cnf, &mut vm);
        }
    }
    nexts(&e, &ls, &inp);
    if choice() {
        let v = e.nh(usize::MAX - 1);
        check(v == usize::MAX, "no sum above the largest value");
    } else {
        let v = e.nl(usize::MAX);
        let s = wsum(&ls, &inp);
        check(s <= v as u64, "the next lower value from the top skips no achievable sum");
    }
    witness(1);
}
/// next(encoder, n, largest weight)
fn next(a: [u64; 4]) {
    let n = a[1] as usize;
    let ls = inputs(n, a[2] as usize, 0, 2, true);
    dispatch!(n1, a[0], ls, n);
}

/// prec(n, weight bits, first precision exponent + 256 * steps, 0 for the highest precision): E07 with reduced and increasing precision
fn prec(a: [u64; 4]) {
    let n = a[0] as usize;
    let wmax = a[1] as usize;
    let steps = (a[2] >> 8) as usize;
    let ls = inputs(n, wmax, 0, 2, true);
    let first = n + 1;
    let inp = bits(first);
    let mut e: Dpw = ls.iter().copied().collect();
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first));
    let mut p = 1usize << (a[2] & 255);
    for st in 0..steps {
        if st > 0 {
            // keep, halve or quarter the divisor
            p >>= pick(3);
            if p == 0 {
                p = 1;
            }
        }
        let np = e.next_precision();
        check(np.is_power_of_two(), "the next precision is a power of two");
        let given = if p == 1 && a[3] != 0 { 0 } else { p };
        check(e.set_precision(given).is_ok(), "a smaller power of two is accepted");
        let div: Vec<(Lit, usize)> = ls.iter().map(|(l, w)| (*l, w / p)).collect();
        let total: usize = div.iter().map(|x| x.1).sum();
        let r = pick_range(total, false);
        if st == 0 || choice() {
            let x = e.encode_ub_change(r, &mut cnf, &mut vm);
            check(x.is_ok(), "encoding succeeds");
            let mut f = Flat::new();
            f.cnf(&cnf);
            f.exists(&inp, true, "the clauses alone exclude no input assignment");
            let s = wsum(&div, &inp);
            for b in 0..total + 2 {
                match e.enforce_ub(b) {
                    Ok(x) => with(&f, &x).iff(&inp, s <= b as u64, "the enforced upper bound excludes larger sums of divided weights", "the enforced upper bound keeps every sum of divided weights up to the bound"),
                    // at a reduced precision, a trivial bound might not be recognized
                    Err(_) => check(!r.contains(&b) && (b < total || p > 1), "an encoded upper bound can be enforced"),
                }
                let c = e.coarse_ub(b);
                check(c <= b, "the coarse bound is not above the bound");
            }
        }
    }
    witness(1);
}
/// limit(n, largest weight or 2^40 + fixed weights in base 32, first precision exponent): limiting the range keeps every assignment with a sum in the range and bounds stay exact for them
fn limit(a: [u64; 4]) {
    let n = a[0] as usize;
    let ls = if a[1] >> 40 != 0 {
        (0..n).map(|i| (lit(i, i & 1 != 0), (a[1] >> (5 * i) & 31) as usize)).collect()
    } else {
        inputs(n, a[1] as usize, 0, 2, true)
    };
    let total: usize = ls.iter().map(|x| x.1).sum();
    let first = n + 1;
    let inp = bits(first);
    let mut e: Dpw = ls.iter().copied().collect();
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first));
    if a[2] > 0 {
        check(e.set_precision(1 << a[2]).is_ok(), "a power of two is accepted");
    }
    let x = e.encode_ub(.., &mut cnf, &mut vm);
    check(x.is_ok(), "encoding succeeds");
    let lo = pick(total + 2);
    let hi = lo + pick(total + 3 - lo);
    check(e.limit_range(lo..hi, &mut cnf).is_ok(), "limiting the range succeeds");
    let s = wsum(&ls, &inp);
    let inr = (s >= lo as u64) & (s < hi as u64);
    if a[2] > 0 {
        let mut f = Flat::new();
        f.cnf(&cnf);
        f.exists(&inp, inr, "limiting the range at a reduced precision excludes no assignment in the range");
        check(e.set_precision(1).is_ok(), "a smaller power of two is accepted");
        check(e.encode_ub_change(.., &mut cnf, &mut vm).is_ok(), "encoding succeeds");
    }
    let mut f = Flat::new();
    f.cnf(&cnf);
    f.exists(&inp, inr, "limiting the range excludes no assignment in the range");
    for b in lo..hi {
        match e.enforce_ub(b) {
            Ok(x) => {
                let g = with(&f, &x);
                g.implies(&inp, s <= b as u64, "the enforced upper bound excludes larger sums");
                g.exists(&inp, inr & (s <= b as u64), "the enforced upper bound keeps every sum in the range up to the bound");
            }
            Err(_) => check(false, "an encoded upper bound can be enforced"),
        }
    }
    witness(1);
}

fn pbc(kind: usize, ls: Vec<(Lit, isize)>, b: isize) -> PbConstraint {
    match kind {
        0 => PbConstraint::new_ub(ls, b),
        1 => PbConstraint::new_lb(ls, b),
        _ => PbConstraint::new_eq(ls, b),
    }
}
fn run_constr(how: u64, c: PbConstraint, cnf: &mut Cnf, vm: &mut BasicVarManager) -> Result<(), bool> {
    let m = |r: Result<(), ConstraintEncodingError>| r.map_err(|e| matches!(e, ConstraintEncodingError::Unsat));
    match how {
        0 => default_encode_pb_constraint(c, cnf, vm).map_err(|_| false),
        1 => encode_pb_constraint::<BinaryAdder, _>(c, cnf, vm).map_err(|_| false),
        2 => encode_pb_constraint::<DDpw, _>(c, cnf, vm).map_err(|_| false),
        3 => m(<DoubleGeneralizedTotalizer as BoundBoth>::encode_constr(c, cnf, vm)),
        4 => m(<BinaryAdder as BoundBoth>::encode_constr(c, cnf, vm)),
        5 => m(<DDpw as BoundBoth>::encode_constr(c, cnf, vm)),
        6 => m(<Card<Totalizer> as BoundBoth>::encode_constr(c, cnf, vm)),
        _ => m(<Inverted<BinaryAdder> as BoundBoth>::encode_constr(c, cnf, vm)),
    }
}
fn c1(how: u64, ls: Vec<(Lit, isize)>, kind: usize, b: isize, nv: usize) {
    let first = nv + 1;
    let inp = bits(first);
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(first));
    let r = run_constr(how, pbc(kind, ls.clone(), b), &mut cnf, &mut vm);
    let mut s = 0i64;
    for (l, w) in &ls {
        s += lit_val(*l, &inp) as i64 * *w as i64;
    }
    let want = match kind {
        0 => s <= b as i64,
        1 => s >= b as i64,
        _ => s == b as i64,
    };
    match r {
        Ok(()) => {
            let mut f = Flat::new();
            f.cnf(&cnf);
            f.iff(&inp, want, "the clauses exclude every assignment violating the constraint", "the clauses keep every assignment satisfying the constraint");
            fresh(&cnf, first as u32, vm.new_var().idx32() - first as u32, nv);
        }
        Err(unsat) => {
            check(unsat, "only unsatisfiable constraints are refused");
            check(!want, "a constraint reported unsatisfiable is");
        }
    }
    witness(1);
}
/// constr(how, n + 256*repetitions, largest coefficient): coefficients -w..=w
fn constr(a: [u64; 4]) {
    let (n, rep) = ((a[1] & 255) as usize, (a[1] >> 8) as usize);
    let w = a[2] as isize;
    let mut ls: Vec<(Lit, isize)> = vec![];
    let mut last = -w;
    for i in 0..n {
        if i < n - rep {
            last += pick((w - last + 1) as usize) as isize;
            ls.push((lit(i, i % 2 != 0), last));
        } else {
            ls.push((lit(pick(n - rep), choice()), pick(2 * w as usize + 1) as isize - w));
        }
    }
    let kind = pick(3);
    let span: isize = ls.iter().map(|x| x.1.abs()).sum();
    let b = match pick(2) {
        0 => pick((2 * span + 5) as usize) as isize - span - 2,
        _ => [isize::MAX, isize::MIN, isize::MAX - 1, isize::MIN + 1][pick(4)],
    };
    // extreme bounds: adding a coefficient must stay representable
    let neg: i128 = ls.iter().filter(|x| x.1 < 0).map(|x| -x.1 as i128).sum();
    assume(b as i128 + neg <= isize::MAX as i128);
    c1(a[0], ls, kind, b, n - rep);
}
/// constr_wide(how, which): large coefficients
fn constr_wide(a: [u64; 4]) {
    let h = 1isize << 61;
    let ws: Vec<isize> = match a[1] {
        0 => vec![h, -h, h - 1],
        1 => vec![isize::MAX],
        2 => vec![-isize::MAX],
        3 => vec![1 << 32, -(1 << 33), 5],
        _ => vec![isize::MAX - 1, 1],
    };
    let n = ws.len();
    let ls: Vec<(Lit, isize)> = ws.iter().enumerate().map(|(i, w)| (lit(i, i == 1), *w)).collect();
    let mut bs = vec![0, 1, -1];
    for m in 0..1usize << n {
        let s: i128 = (0..n).filter(|i| m >> i & 1 != 0).map(|i| ws[i] as i128).sum();
        for s in [s - 1, s, s + 1] {
            let neg: i128 = ws.iter().filter(|x| **x < 0).map(|x| -*x as i128).sum();
            if s >= isize::MIN as i128 && s + neg <= isize::MAX as i128 {
                bs.push(s as isize);
            }
        }
    }
    bs.sort();
    bs.dedup();
    let b = bs[pick(bs.len())];
    c1(a[0], ls, pick(3), b, n);
}

/// referenced(cell, n, largest weight, checks): generalized totalizers over a node database
fn referenced(a: [u64; 4]) {
    let n = a[1] as usize;
    let what = a[3];
    let mut ls = inputs(n, a[2] as usize - 1, 0, 2, true);
    for x in &mut ls {
        x.1 += 1;
    }
    let total: usize = ls.iter().map(|x| x.1).sum();
    let inp = bits(n);
    let mut db = totdb::Db::default();
    let cons: Vec<NodeCon> = ls
        .iter()
        .map(|(l, w)| {
            let id = db.insert(totdb::Node::leaf(*l));
            NodeCon::weighted(id, *w)
        })
        .collect();
    let root = db.merge_balanced(&cons).unwrap();
    let mw = ls.iter().map(|x| x.1).max().unwrap_or(0);
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(var(n));
    fn go<E: BoundUpperIncremental>(mut e: E, what: u64, ls: &[(Lit, usize)], total: usize, inp: &[u8], cnf: &mut Cnf, vm: &mut BasicVarManager) {
        check(e.weight_sum() == total, "sum of weights");
        let mut ubs: Vec<R> = vec![];
        for _ in 0..2 {
            let m = pick(3);
            let r = if m < 2 { pick_range(total, false) } else { (Bound::Included(0), Bound::Excluded(0)) };
            match m {
                0 => {
                    *cnf = Cnf::new();
                    e.encode_ub(r, cnf, vm).unwrap();
                    ubs = vec![r];
                }
                1 => {
                    e.encode_ub_change(r, cnf, vm).unwrap();
                    ubs.push(r);
                }
                _ => e.reserve(vm),
            }
        }
        let mut f = Flat::new();
        f.cnf(cnf);
        f.exists(inp, true, "the clauses alone exclude no input assignment");
        let s = wsum(ls, inp);
        let enc = |b: usize| ubs.iter().any(|r| r.contains(&b));
        for b in 0..total + 2 {
            match e.enforce_ub(b) {
                Ok(a) => {
                    if what & REF != 0 || enc(b) {
                        with(&f, &a).iff(inp, s <= b as u64, "the enforced upper bound excludes larger sums", "the enforced upper bound keeps every sum up to the bound");
                    }
                }
                Err(_) => check(!enc(b) && b < total, "an encoded or trivial upper bound can be enforced"),
            }
        }
        if what & REF != 0 {
            let v = pick(total + 2);
            let nh = e.next_higher(v) as u64;
            check(nh > v as u64, "the next higher value is higher");
            check(!((s > v as u64) & (s < nh)), "the next higher value skips no achievable sum");
            let nl = e.next_lower(v) as u64;
            check(nl < v as u64 || v == 0 && nl == 0, "the next lower value is lower");
            check(!((s < v as u64) & (s > nl)), "the next lower value skips no achievable sum");
        }
        let used = vm.new_var().idx32() - inp.len() as u32;
        fresh(cnf, inp.len() as u32, used, inp.len());
    }
    if a[0] == 0 {
        go(Gte::new(root, mw, &mut db), what, &ls, total, &inp, &mut cnf, &mut vm);
    } else {
        let cell = std::cell::RefCell::new(&mut db);
        go(GteCell::new(root, mw, &cell), what, &ls, total, &inp, &mut cnf, &mut vm);
    }
    witness(1);
}
/// dpw_ref(cell, n, largest weight, checks): watchdogs over a node database
fn dpw_ref(a: [u64; 4]) {
    use rustsat::encodings::pb::dpw::{build_structure, lit_weight_queue};
    let n = a[1] as usize;
    let mut ls = inputs(n, a[2] as usize - 1, 0, 2, true);
    for x in &mut ls {
        x.1 += 1;
    }
    let total: usize = ls.iter().map(|x| x.1).sum();
    let inp = bits(n);
    let mut db = totdb::Db::default();
    let mut vm = BasicVarManager::from_next_free(var(n));
    let mut q = lit_weight_queue(ls.iter().copied(), &mut db);
    let st = build_structure(&mut q, 1, true, &mut db, &mut vm);
    let mut cnf = Cnf::new();
    fn go<E: BoundUpperIncremental>(mut e: E, ls: &[(Lit, usize)], total: usize, inp: &[u8], cnf: &mut Cnf, vm: &mut BasicVarManager, what: u64) {
        let mut ubs: Vec<R> = vec![];
        for _ in 0..2 {
            let m = pick(3);
            let r = if m < 2 { pick_range(total, false) } else { (Bound::Included(0), Bound::Excluded(0)) };
            match m {
                0 => {
                    *cnf = Cnf::new();
                    e.encode_ub(r, cnf, vm).unwrap();
                    ubs = vec![r];
                }
                1 => {
                    e.encode_ub_change(r, cnf, vm).unwrap();
                    ubs.push(r);
                }
                _ => e.reserve(vm),
            }
        }
        let mut f = Flat::new();
        f.cnf(cnf);
        f.exists(inp, true, "the clauses alone exclude no input assignment");
        let s = wsum(ls, inp);
        // the structure only knows the sum up to its output weight
        let ws = e.weight_sum();
        check(ws >= total, "sum of weights");
        let enc = |b: usize| ubs.iter().any(|r| r.contains(&b));
        for b in 0..total + 2 {
            check(e.coarse_ub(b) <= b, "the coarse bound is not above the bound");
            match e.enforce_ub(b) {
                Ok(a) => {
                    if what & REF != 0 || enc(b) {
                        with(&f, &a).iff(inp, s <= b as u64, "the enforced upper bound excludes larger sums", "the enforced upper bound keeps every sum up to the bound");
                    }
                }
                Err(_) => check(!enc(b) && b < ws, "an encoded or trivial upper bound can be enforced"),
            }
        }
    }
    if a[0] == 0 {
        go(dref::DynamicPolyWatchdog::new(&st, &mut db), &ls, total, &inp, &mut cnf, &mut vm, a[3]);
    } else {
        let cell = std::cell::RefCell::new(&mut db);
        go(dref::DynamicPolyWatchdogCell::new(&st, &cell), &ls, total, &inp, &mut cnf, &mut vm, a[3]);
    }
    witness(1);
}
