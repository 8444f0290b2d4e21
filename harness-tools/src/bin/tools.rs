//! The problem generators of the tools: X01
use rustsat::instances::fio::{dimacs::McnfLine, opb::FileLine};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit};
use rustsat_tools::encodings::{assignment, cnf, facilitylocation, knapsack, pb};
use symlib::*;

entries!(clustering, map, knap_cnf, knap_pb, assign, assign_bad, facility, junk);

use cnf::clustering::Similarity;

/// all ways to put n things into groups, as restricted growth strings
fn partitions(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for p in &out {
            let m = p.iter().max().map_or(0, |m| m + 1);
            for k in 0..=m {
                let mut q: Vec<usize> = p.clone();
                q.push(k);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

/// n points; A1: 0 plain file, 1 reordered with comments, self-similarities and an overridden line;
/// A2: number of kinds of similarity to choose from, A3: fixed first kinds (base 8, kind + 1)
fn clustering(a: [u64; 4]) {
    let n = a[0] as usize;
    let mut pairs = vec![];
    for i in 0..n {
        for j in i + 1..n {
            pairs.push((i, j));
        }
    }
    let mut fixed = a[3] as usize;
    let mut kinds = vec![];
    for _ in &pairs {
        kinds.push(if fixed > 0 { fixed % 8 - 1 } else { pick(a[2] as usize) });
        fixed /= 8;
    }
    let sims: Vec<Similarity> = kinds
        .iter()
        .enumerate()
        .map(|(p, k)| match k {
            0 => Similarity::Similar(p + 1),
            1 => Similarity::DisSimilar(p + 1),
            2 => Similarity::MustLink,
            3 => Similarity::CannotLink,
            _ => Similarity::DontCare,
        })
        .collect();
    // the first mention of a point fixes its number, so the points are mentioned in order
    let name = |i: usize| ["a", "b_1", "C", "7"][i];
    let mut text = String::new();
    if a[1] == 1 {
        text += "% a comment\n";
        for i in 0..n {
            text += &format!("{} {} 90\n", name(i), name(i));
        }
        text += &format!("{}  {} 91\n", name(0), name(1));
    }
    for (p, (i, j)) in pairs.iter().enumerate() {
        if a[1] == 1 && p % 2 == 1 {
            text += &format!("  {} {} {}\n", name(*j), name(*i), p);
        } else {
            text += &format!("{} {} {}\n", name(*i), name(*j), p);
        }
    }
    let e = cnf::clustering::Encoding::new(text.as_bytes(), |f| {
        let p = f as usize;
        if p < sims.len() {
            sims[p]
        } else if p == 90 {
            Similarity::MustLink
        } else {
            Similarity::CannotLink
        }
    });
    let Ok(e) = e else {
        check(false, "a well-formed similarity file is accepted");
        return;
    };
    let mut hard: Vec<Clause> = vec![];
    let mut soft: Vec<Option<Lit>> = vec![None; pairs.len()];
    for l in e {
        match l {
            McnfLine::Comment(_) => (),
            McnfLine::Hard(c) => hard.push(c),
            McnfLine::Soft(c, w, o) => {
                check(w >= 1 && w <= pairs.len(), "every soft clause has the weight of a pair");
                let k = kinds[w - 1];
                check(k < 2 && o == k && c.len() == 1, "soft clauses are units of the objective of the pair's kind");
                check(soft[w - 1].is_none(), "every pair has one soft clause");
                soft[w - 1] = Some(c[0]);
            }
        }
    }
    // variables of the soft literals first
    let mut order: Vec<u32> = vec![];
    let mut pos_of = vec![];
    for (p, k) in kinds.iter().enumerate() {
        if *k < 2 {
            let Some(l) = soft[p] else {
                check(false, "every weighted pair has a soft clause");
                return;
            };
            check(!order.contains(&l.var().idx32()), "different pairs have different indicators");
            order.push(l.var().idx32());
            pos_of.push((p, l.is_neg()));
        }
    }
    let ni = order.len();
    let mut remap = |l: Lit| {
        let v = l.var().idx32();
        let i = match order.iter().position(|x| *x == v) {
            Some(i) => i,
            None => {
                order.push(v);
                order.len() - 1
            }
        };
        lit(i, l.is_neg())
    };
    let mut f = Flat::new();
    for c in &hard {
        let c: Clause = c.iter().map(|l| remap(*l)).collect();
        f.clause(&c);
    }
    let inp = bits(ni);
    let mut want = false;
    for part in partitions(n) {
        let mut ok = true;
        for (p, (i, j)) in pairs.iter().enumerate() {
            let same = part[*i] == part[*j];
            ok &= match kinds[p] {
                2 => same,
                3 => !same,
                _ => true,
            };
        }
        for (q, (p, negated)) in pos_of.iter().enumerate() {
            let (i, j) = pairs[*p];
            let same = part[i] == part[j];
            // the soft clause of a similar pair is satisfied if the points are in the same cluster,
            // the one of a dissimilar pair if they are not
            let sat = if kinds[*p] == 0 { same } else { !same };
            ok &= (inp[q] == 1) == (sat != *negated);
        }
        want |= ok;
    }
    f.iff(
        &inp,
        want,
        "only clusterings that respect the links satisfy the hard clauses, with the soft clauses of the violated similarities falsified",
        "every clustering that respects the links satisfies the hard clauses with exactly the soft clauses of the violated similarities falsified",
    );
    witness(1);
}

/// similarity values are mapped as documented by the thresholds
fn map(_a: [u64; 4]) {
    let sim = u64_() as isize;
    let dc = usize_();
    let hard = usize_();
    assume(sim != isize::MIN);
    let abs = sim.unsigned_abs();
    let want = |s: &Similarity| match s {
        Similarity::DontCare => abs < dc,
        Similarity::MustLink => abs >= dc && abs > hard && sim > 0,
        Similarity::CannotLink => abs >= dc && abs > hard && sim <= 0,
        Similarity::Similar(w) => abs >= dc && abs <= hard && sim > 0 && *w == abs,
        Similarity::DisSimilar(w) => abs >= dc && abs <= hard && sim <= 0 && *w == abs,
    };
    check(want(&cnf::clustering::saturating_map(sim, dc, hard)), "similarities are mapped by the thresholds");
    witness(1);
}

/// a symbolic digit of a text
fn digit(t: &mut Vec<u8>) -> u64 {
    let d = range(0, 9);
    t.push(b'0' + d as u8);
    d
}
fn conc_digit(t: &mut Vec<u8>, n: usize) -> u64 {
    let d = pick(n);
    t.push(b'0' + d as u8);
    d as u64
}

struct Knap {
    vals: Vec<Vec<u64>>,
    weights: Vec<u64>,
    cap: u64,
    inst: knapsack::Knapsack,
}
/// fmt 0: MOO-Library in several lines, 1: with comments and blank lines, 2: vOptLib
fn knap(n: usize, o: usize, fmt: u64, w: Option<usize>) -> Option<Knap> {
    let mut t: Vec<u8> = vec![];
    let (mut vals, mut weights) = (vec![], vec![]);
    let cap;
    let weight = |t: &mut Vec<u8>| match w {
        Some(w) => conc_digit(t, w + 1),
        None => digit(t),
    };
    let capacity = |t: &mut Vec<u8>| match w {
        Some(w) => conc_digit(t, (w * n + 1).min(9) + 1),
        None => digit(t),
    };
    if fmt < 2 {
        if fmt == 1 {
            t.extend(b"# some problem\n\n");
        }
        t.extend(format!("{o}\n{n}\n").bytes());
        if fmt == 1 {
            t.extend(b"\n# capacity\n");
        }
        cap = capacity(&mut t);
        t.extend(if fmt == 1 { &b" # a comment\n["[..] } else { &b"\n["[..] });
        for k in 0..o {
            t.push(b'[');
            let mut v = vec![];
            for i in 0..n {
                if i > 0 {
                    t.extend(b", ");
                }
                v.push(digit(&mut t));
            }
            vals.push(v);
            t.extend(if k + 1 < o { &b"],\n"[..] } else { &b"]]\n"[..] });
            if fmt == 1 {
                t.extend(b"# comment\n");
            }
        }
        t.push(b'[');
        for i in 0..n {
            if i > 0 {
                t.extend(b", ");
            }
            weights.push(weight(&mut t));
        }
        t.extend(b"]\n");
    } else {
        t.extend(format!("# Problem\n\n# N\n{n}\n\n# P\n{o}\n\n# K\n1\n\n").bytes());
        for k in 0..o {
            t.extend(format!("# c{k}\n").bytes());
            let mut v = vec![];
            for _ in 0..n {
                v.push(digit(&mut t));
                t.push(b'\n');
            }
            vals.push(v);
        }
        t.extend(b"\n# w\n");
        for _ in 0..n {
            weights.push(weight(&mut t));
            t.push(b'\n');
        }
        t.extend(b"\n# W\n");
        cap = capacity(&mut t);
        t.push(b'\n');
    }
    let f = if fmt < 2 { knapsack::FileFormat::MooLibrary } else { knapsack::FileFormat::VOptLib };
    match knapsack::Knapsack::from_file(&t[..], f) {
        Ok(inst) => Some(Knap { vals, weights, cap, inst }),
        Err(_) => {
            check(false, "a well-formed knapsack file is accepted");
            None
        }
    }
}

fn total(ws: &[u64], inp: &[u8], on: u8) -> u64 {
    let mut s = 0;
    for (w, b) in ws.iter().zip(inp) {
        s += ite(*b == on, *w, 0);
    }
    s
}

/// A0 items, A1 objectives, A2 format, A3 largest weight
fn knap_cnf(a: [u64; 4]) {
    let (n, o) = (a[0] as usize, a[1] as usize);
    let Some(k) = knap(n, o, a[2], Some(a[3] as usize)) else { return };
    let inp = bits(n);
    let mut f = Flat::new();
    let mut cost = vec![0u64; o];
    for l in cnf::knapsack::Encoding::new::<rustsat::encodings::pb::DynamicPolyWatchdog>(k.inst) {
        match l {
            McnfLine::Comment(_) => (),
            McnfLine::Hard(c) => f.clause(&c),
            McnfLine::Soft(c, w, obj) => {
                check(obj < o && c.iter().all(|l| l.vidx() < n), "soft clauses are about items and objectives of the problem");
                cost[obj] += ite(clause_val(&c[..], &inp) == 0, w as u64, 0);
            }
        }
    }
    f.iff(&inp, total(&k.weights, &inp, 1) <= k.cap, "selections satisfying the hard clauses respect the capacity", "every selection within the capacity satisfies the hard clauses");
    for i in 0..o {
        check(cost[i] == total(&k.vals[i], &inp, 0), "the cost is the value of the items left out");
    }
    witness(1);
}

fn card_holds(c: &CardConstraint, inp: &[u8]) -> bool {
    let mut s = 0u64;
    for l in c.iter() {
        s += lit_val(*l, inp) as u64;
    }
    let b = c.bound() as u64;
    match c {
        CardConstraint::Ub(_) => s <= b,
        CardConstraint::Lb(_) => s >= b,
        CardConstraint::Eq(_) => s == b,
    }
}
fn pb_holds(c: &PbConstraint, inp: &[u8]) -> bool {
    let mut s = 0i64;
    for (l, w) in c.iter() {
        s += ite(lit_val(*l, inp) == 1, *w as u64, 0) as i64;
    }
    let b = c.bound() as i64;
    match c {
        PbConstraint::Ub(_) => s <= b,
        PbConstraint::Lb(_) => s >= b,
        PbConstraint::Eq(_) => s == b,
    }
}
struct Opb {
    holds: bool,
    objs: Vec<u64>,
    n_con: usize,
    hint: Option<String>,
    max: usize,
}
fn opb<I: IntoIterator<Item = (Lit, usize)>>(e: impl Iterator<Item = FileLine<I>>, inp: &[u8]) -> Opb
where
    FileLine<I>: Sized,
    I: rustsat::types::WLitIter,
{
    let mut r = Opb { holds: true, objs: vec![], n_con: 0, hint: None, max: 0 };
    let mut ok = true;
    for l in e {
        match l {
            FileLine::Comment(c) => {
                if r.hint.is_none() {
                    r.hint = Some(c);
                }
            }
            FileLine::Clause(c) => {
                ok &= c.iter().all(|l| l.vidx() < inp.len());
                r.holds &= clause_val(&c[..], inp) == 1;
                r.n_con += 1;
            }
            FileLine::Card(c) => {
                ok &= c.iter().all(|l| l.vidx() < inp.len());
                r.holds &= card_holds(&c, inp);
                r.n_con += 1;
            }
            FileLine::Pb(c) => {
                ok &= c.iter().all(|l| l.0.vidx() < inp.len());
                r.holds &= pb_holds(&c, inp);
                r.n_con += 1;
            }
            FileLine::Objective(o) => {
                check(r.n_con == 0, "the objectives come before the constraints");
                let mut s = 0;
                for (l, w) in o {
                    ok &= l.vidx() < inp.len();
                    r.max = r.max.max(l.vidx() + 1);
                    s += ite(lit_val(l, inp) == 1, w as u64, 0);
                }
                r.objs.push(s);
            }
        }
    }
    check(ok, "only variables of the problem are used");
    r
}
fn hint(r: &Opb, nv: usize) {
    let want = format!("#variable= {} #constraint= {}", nv, r.n_con);
    check(r.hint.as_deref() == Some(&want[..]), "the size hint states the numbers of variables and constraints");
}

/// A0 items, A1 objectives, A2 format
fn knap_pb(a: [u64; 4]) {
    let (n, o) = (a[0] as usize, a[1] as usize);
    let Some(k) = knap(n, o, a[2], None) else { return };
    let inp = bits(n);
    let r = opb(pb::knapsack::Encoding::new(k.inst), &inp);
    check(r.holds == (total(&k.weights, &inp, 1) <= k.cap), "the constraint is the capacity of the knapsack");
    check(r.objs.len() == o, "every objective is encoded");
    for i in 0..o {
        check(r.objs[i] == total(&k.vals[i], &inp, 0), "the cost is the value of the items left out");
    }
    hint(&r, n);
    witness(1);
}

fn matrix(t: &mut Vec<u8>, n: usize, m: usize, fmt: u64) -> Vec<Vec<u64>> {
    let mut r = vec![];
    for i in 0..n {
        t.push(b'[');
        let mut row = vec![];
        for j in 0..m {
            if j > 0 {
                t.extend(if fmt == 1 { &b" , "[..] } else { &b", "[..] });
            }
            row.push(digit(t));
        }
        r.push(row);
        t.push(b']');
        if i + 1 < n {
            t.extend(if fmt == 1 { &b"\n,"[..] } else { &b",\n"[..] });
        }
    }
    r
}

/// A0 tasks, A1 objectives, A2 layout
fn assign(a: [u64; 4]) {
    let (n, o) = (a[0] as usize, a[1] as usize);
    let mut t: Vec<u8> = vec![];
    if a[2] == 1 {
        t.extend(b"# assignment\n");
    }
    t.extend(format!("{o}\n{n}\n[").bytes());
    let mut costs = vec![];
    for k in 0..o {
        t.push(b'[');
        costs.push(matrix(&mut t, n, n, a[2]));
        t.push(b']');
        if k + 1 < o {
            t.extend(if a[2] == 1 { &b" # done\n,\n"[..] } else { &b"\n,\n"[..] });
        }
    }
    t.extend(b"]\n");
    let Ok(inst) = assignment::Assignment::from_file(&t[..]) else {
        check(false, "a well-formed assignment file is accepted");
        return;
    };
    let inp = bits(n * n);
    let r = opb(pb::assignment::Encoding::new(inst), &inp);
    let mut want = true;
    for i in 0..n {
        let (mut row, mut col) = (0, 0);
        for j in 0..n {
            row += inp[i * n + j];
            col += inp[j * n + i];
        }
        want &= (row == 1) & (col == 1);
    }
    check(r.holds == want, "the constraints hold for exactly the one-to-one assignments");
    check(r.objs.len() == o, "every objective is encoded");
    for k in 0..o {
        let mut s = 0;
        for i in 0..n {
            for j in 0..n {
                s += ite(inp[i * n + j] == 1, costs[k][i][j], 0);
            }
        }
        check(r.objs[k] == s, "the cost is the sum of the costs of the chosen pairs");
    }
    hint(&r, n * n);
    witness(1);
}

/// files with too many rows, columns or objectives are refused
fn assign_bad(a: [u64; 4]) {
    let (n, o) = (a[0] as usize, a[1] as usize);
    let mut t: Vec<u8> = vec![];
    t.extend(format!("{o}\n{n}\n[").bytes());
    let at = pick(o);
    for k in 0..o + usize::from(a[2] == 2) {
        t.push(b'[');
        let bad = k == at;
        matrix(&mut t, n + usize::from(bad && a[2] == 0), n + usize::from(bad && a[2] == 1), 0);
        t.push(b']');
        if k + 1 < o + usize::from(a[2] == 2) {
            t.extend(b"\n,\n");
        }
    }
    t.extend(b"]\n");
    check(assignment::Assignment::from_file(&t[..]).is_err(), "files with more rows, columns or objectives than announced are refused");
    witness(1);
}

/// A0 customers, A1 facilities
fn facility(a: [u64; 4]) {
    let (n, m) = (a[0] as usize, a[1] as usize);
    let mut t: Vec<u8> = vec![];
    t.extend(format!("{n}\n{m}\n").bytes());
    let (mut supply, mut open) = (vec![], vec![]);
    for _ in 0..2 {
        t.push(b'\n');
        let mut s = vec![];
        for _ in 0..n {
            if a[2] == 1 {
                t.push(b' ');
            }
            let mut row = vec![];
            for j in 0..m {
                if j > 0 {
                    t.extend(b"  ");
                }
                row.push(digit(&mut t));
            }
            s.push(row);
            t.push(b'\n');
        }
        supply.push(s);
    }
    for _ in 0..2 {
        t.push(b'\n');
        let mut row = vec![];
        for j in 0..m {
            if j > 0 {
                t.push(b' ');
            }
            row.push(digit(&mut t));
        }
        open.push(row);
        t.push(b'\n');
    }
    let Ok(inst) = facilitylocation::FacilityLocation::from_file(&t[..]) else {
        check(false, "a well-formed facility location file is accepted");
        return;
    };
    let nv = n * m + m;
    let inp = bits(nv);
    let r = opb(pb::facilitylocation::Encoding::new(inst), &inp);
    let mut want = true;
    for c in 0..n {
        let mut k = 0;
        for f in 0..m {
            k += inp[c * m + f];
            want &= inp[c * m + f] <= inp[n * m + f];
        }
        want &= k == 1;
    }
    check(r.holds == want, "the constraints hold if every customer is supplied by exactly one facility, which is open");
    check(r.objs.len() == 2, "both objectives are encoded");
    for k in 0..2 {
        let mut s = 0;
        for f in 0..m {
            s += ite(inp[n * m + f] == 1, open[k][f], 0);
            for c in 0..n {
                s += ite(inp[c * m + f] == 1, supply[k][c][f], 0);
            }
        }
        check(r.objs[k] == s, "the cost is the sum of the opening and the supply costs");
    }
    hint(&r, nv);
    witness(1);
}

/// A0: 0 assignment, 1 and 2 knapsack, 3 facility location, 4 similarities; A1 free bytes: every text is read or refused
fn junk(a: [u64; 4]) {
    let mut t: Vec<u8> = match a[0] {
        0 => b"1\n1\n".to_vec(),
        1 => b"1\n1\n1\n".to_vec(),
        2 => b"1\n1\n".to_vec(),
        3 => b"1\n1\n".to_vec(),
        _ => vec![],
    };
    for _ in 0..a[1] {
        t.push(byte_in(b"[],1 #\nx"));
    }
    if a[2] == 1 {
        t.extend(b"\n");
    }
    let ok = match a[0] {
        0 => assignment::Assignment::from_file(&t[..]).is_ok(),
        1 => knapsack::Knapsack::from_file(&t[..], knapsack::FileFormat::MooLibrary).is_ok(),
        2 => knapsack::Knapsack::from_file(&t[..], knapsack::FileFormat::VOptLib).is_ok(),
        3 => facilitylocation::FacilityLocation::from_file(&t[..]).is_ok(),
        _ => cnf::clustering::Encoding::new(&t[..], |f| cnf::clustering::saturating_map(f as isize, 0, 5)).is_ok(),
    };
    witness(if ok { 2 } else { 1 });
}
