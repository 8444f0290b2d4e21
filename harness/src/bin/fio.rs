//! File formats: F01 DIMACS CNF, F02 CNF round trip, F03 WCNF and MCNF, F04 OPB, F05 OPB round trip, F06 solver output
use rustsat::instances::fio::{self, dimacs, opb};
use rustsat::instances::{BasicVarManager, Cnf, MultiOptInstance, Objective, OptInstance, SatInstance};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::{Clause, Lit, TernaryVal, Var};
use symlib::*;

entries!(cnf_any, cnf_num, cnf_struct, cnf_rt, wcnf_any, wcnf_num, opt_struct, wcnf_rt, mcnf_any, mcnf_num, mcnf_rt, opb_any, opb_constr, opb_num, opb_obj, opb_rt, opb_rt_obj, out_any, out_lines);

// ------------------------------------------------------------------ text
/// what the format's specification says about a text
enum Ref<T> {
    /// well-formed, with this meaning
    Good(T),
    /// not in the strict format: may be rejected, but if it is read then with this meaning
    Loose(T),
    /// must be rejected
    Bad,
    /// not decided here
    Any,
}
#[derive(Clone, Copy)]
struct Num {
    /// a sign is present and negative
    neg: bool,
    /// the magnitude; `big` if it does not fit in 64 bits
    mag: u64,
    big: bool,
    /// no plus sign, no negative zero
    canon: bool,
}
/// an integer token: sign and digits without leading zeros
fn ref_num(t: &[u8]) -> Option<Num> {
    let (neg, plus, d) = match t.first() {
        Some(b'-') => (true, false, &t[1..]),
        Some(b'+') => (false, true, &t[1..]),
        _ => (false, false, t),
    };
    if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    if d.len() > 1 && d[0] == b'0' {
        return None;
    }
    let mut m = 0u64;
    let mut big = d.len() > 20;
    for c in d.iter().take(19) {
        m = m.wrapping_mul(10).wrapping_add((c - b'0') as u64);
    }
    if d.len() == 20 {
        // u64::MAX = 18446744073709551615
        big = (m > 1_844_674_407_370_955_161) | ((m == 1_844_674_407_370_955_161) & (d[19] > b'5'));
        m = m.wrapping_mul(10).wrapping_add((d[19] - b'0') as u64);
    }
    Some(Num { neg, mag: m, big, canon: !plus & !(neg & (m == 0)) })
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn ref_trim(mut l: &[u8]) -> &[u8] {
    while let Some(c) = l.first() {
        if !blank(*c) {
            break;
        }
        l = &l[1..];
    }
    while let Some(c) = l.last() {
        if !blank(*c) {
            break;
        }
        l = &l[..l.len() - 1];
    }
    l
}
fn ref_tokens(l: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 0;
    while i < l.len() {
        if blank(l[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < l.len() && !blank(l[i]) {
            i += 1;
        }
        v.push(&l[s..i]);
    }
    v
}
/// the non-empty lines; `None` if the text contains characters the reference does not decide
fn ref_lines(s: &[u8]) -> Option<Vec<&[u8]>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let st = i;
        let mut end = s.len();
        while i < s.len() {
            let c = s[i];
            if c == b'\n' {
                end = i;
                break;
            }
            if c == b'\r' {
                if i + 1 < s.len() && s[i + 1] == b'\n' {
                    end = i;
                    i += 1;
                    break;
                }
                return None;
            }
            if c >= 0x7f || (c < 0x20 && c != b'\t') {
                return None;
            }
            i += 1;
        }
        i += 1;
        let l = ref_trim(&s[st..end]);
        if !l.is_empty() {
            out.push(l);
        }
    }
    Some(out)
}
/// the literals of a clause as raw literals, and whether the tokens were strict
fn ref_clause(ts: &[&[u8]]) -> Option<(Vec<u32>, bool)> {
    let mut v = vec![];
    let mut strict = true;
    for (i, t) in ts.iter().enumerate() {
        let n = ref_num(t)?;
        strict &= conc_bool(n.canon);
        if n.big {
            return None;
        }
        if n.mag == 0 {
            return if i + 1 == ts.len() { Some((v, strict)) } else { None };
        }
        if n.mag > 1 << 31 || (n.mag == 1 << 31 && !n.neg) {
            return None;
        }
        // the variable beyond the largest positive literal: either way
        strict &= n.mag != 1 << 31;
        v.push((n.mag as u32 - 1) * 2 + n.neg as u32);
    }
    Some((v, false))
}
struct RefCnf {
    n_vars: u64,
    cls: Vec<Vec<u32>>,
}
fn ref_cnf(s: &[u8]) -> Ref<RefCnf> {
    let Some(ls) = ref_lines(s) else { return Ref::Any };
    let mut strict = true;
    let mut head = None;
    let mut cls = vec![];
    for l in ls {
        if l[0] == b'c' {
            strict &= l.len() == 1 || blank(l[1]);
            continue;
        }
        let ts = ref_tokens(l);
        if head.is_none() {
            if ts.len() != 4 || ts[0] != b"p" || ts[1] != b"cnf" {
                return Ref::Bad;
            }
            let (Some(n), Some(m)) = (ref_num(ts[2]), ref_num(ts[3])) else { return Ref::Bad };
            if n.neg || m.neg || n.big || m.big || n.mag > u32::MAX as u64 {
                return Ref::Bad;
            }
            strict &= n.canon & m.canon & (n.mag < 1 << 31);
            head = Some(n.mag);
            continue;
        }
        let Some((c, st)) = ref_clause(&ts) else { return Ref::Bad };
        strict &= st;
        cls.push(c);
    }
    let Some(n_vars) = head else { return Ref::Bad };
    let r = RefCnf { n_vars, cls };
    if strict {
        Ref::Good(r)
    } else {
        Ref::Loose(r)
    }
}
fn same_clause(c: &Clause, r: &[u32], m: &'static str) {
    check(c.len() == r.len(), m);
    if c.len() != r.len() {
        return;
    }
    let mut ok = 1u8;
    for (l, e) in c.iter().zip(r) {
        ok &= (l.lidx32() == *e) as u8;
    }
    check(ok != 0, m);
}
fn same_cnf(inst: &SatInstance, r: &RefCnf) {
    check(inst.cnf().len() == r.cls.len(), "as many clauses as the file has");
    check(inst.n_cards() == 0 && inst.n_pbs() == 0, "only clauses are read from CNF files");
    let n = inst.n_vars() as u64;
    check(n >= r.n_vars, "the variables of the header are known");
    for (c, e) in inst.cnf().iter().zip(&r.cls) {
        same_clause(c, e, "the clauses are those in the file, in order");
        for l in e {
            check(n > (*l >> 1) as u64, "the variables of the clauses are known");
        }
    }
}
/// decides an outcome against the reference
fn decide<T, U>(res: Result<U, fio::Error>, r: Ref<T>, same: impl Fn(&U, &T)) {
    match (res, r) {
        (_, Ref::Any) => witness(1),
        (Ok(i), Ref::Good(t)) => {
            same(&i, &t);
            witness(2);
        }
        (Ok(i), Ref::Loose(t)) => {
            same(&i, &t);
            witness(3);
        }
        (Err(_), Ref::Good(_)) => check(false, "a well-formed file is accepted"),
        (Err(_), Ref::Loose(_)) => witness(4),
        (Ok(_), Ref::Bad) => check(false, "text that is not in the format is rejected, not skipped or reinterpreted"),
        (Err(_), Ref::Bad) => witness(5),
    }
}
fn cnf_case(s: &[u8]) {
    let res = SatInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(s));
    decide(res, ref_cnf(s), same_cnf);
}
fn free(n: usize, alpha: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match alpha {
            0 => u8_(),
            1 => byte_in(b" \n01-cp"),
            2 => byte_in(b" \t\r\n012-+cpnfx\x0b"),
            3 => byte_in(b" 0123456789-"),
            4 => byte_in(b" \n0123456789-"),
            10 => byte_in(b" 012-h"),
            11 => byte_in(b" \n0123-hcp"),
            12 => byte_in(b" \t\r\n012-+hcpow"),
            13 => byte_in(b" 012o-"),
            14 => byte_in(b" \n012oh-c"),
            15 => byte_in(b" 12x>=;"),
            16 => byte_in(b" 0123456789x~-+<>=;*\n\t\rminax:"),
            17 => byte_in(b" 01x~-<>;\n*"),
            20 => byte_in(b" sv0-1\nSATUN"),
            _ => u8_(),
        })
        .collect()
}
// ------------------------------------------------------------------ F01
/// free text of a[0] characters out of alphabet a[2] in the context a[1]
fn cnf_any(a: [u64; 4]) {
    let (pre, post): (&[u8], &[u8]) = match a[1] {
        0 => (b"", b""),
        1 => (b"p cnf 2 1\n", b""),
        2 => (b"p cnf 2 1\n", b" 0\n"),
        3 => (b"p cnf ", b"\n1 0\n"),
        4 => (b"p", b" 3 0\n1 2 0"),
        5 => (b"p cnf 2 1\n1 ", b"\n-2 1 0"),
        6 => (b"c\n", b"p cnf 1 1\n1 0\n"),
        _ => (b"", b"\n"),
    };
    let mut s = pre.to_vec();
    s.extend(free(a[0] as usize, a[2] as usize));
    s.extend(post);
    cnf_case(&s);
}
/// where interesting numbers begin
const LEAD: [&[u8]; 9] = [b"", b"21474836", b"42949672", b"92233720368547758", b"184467440737095516", b"0", b"99999", b"00", b"3402823669209384634633746074317682114"];
/// a number: sign, one of the prefixes, and `n` free digits
fn num(s: &mut Vec<u8>, n: usize, lead: usize) {
    match pick(3) {
        1 => s.push(b'-'),
        2 => s.push(b'+'),
        _ => (),
    }
    s.extend(LEAD[lead]);
    for _ in 0..n {
        s.push(byte_in(b"0123456789"));
    }
}
/// a number beginning like LEAD[a[2]] with a[0] free digits in place a[1], everything else fixed
fn cnf_num(a: [u64; 4]) {
    let mut d: Vec<u8> = vec![];
    num(&mut d, a[0] as usize, a[2] as usize);
    let mut s = vec![];
    match a[1] {
        0 => {
            s.extend(b"p cnf ");
            s.extend(&d);
            s.extend(b" 1\n1 0\n");
        }
        1 => {
            s.extend(b"p cnf 1 ");
            s.extend(&d);
            s.extend(b"\n1 0\n");
        }
        _ => {
            s.extend(b"p cnf 1 1\n-3 ");
            s.extend(&d);
            s.extend(b" 4 0\n");
        }
    }
    cnf_case(&s);
}
/// one of a few fixed numbers
fn small(s: &mut Vec<u8>) {
    s.extend([&b"1"[..], b"2", b"13"][pick(3)]);
}
/// a number of `n` free digits
fn dig(s: &mut Vec<u8>, n: usize) {
    for i in 0..n {
        s.push(if i == 0 { byte_in(b"123456789") } else { byte_in(b"0123456789") });
    }
}
fn sep(s: &mut Vec<u8>) {
    match pick(3) {
        0 => s.push(b' '),
        1 => s.push(b'\t'),
        _ => s.extend(b"  "),
    }
}
fn eol(s: &mut Vec<u8>) {
    match pick(4) {
        0 => s.push(b'\n'),
        1 => s.extend(b"\r\n"),
        2 => s.extend(b" \n"),
        _ => s.extend(b"\n\n"),
    }
}
/// a well-formed file whose layout and numbers are free: a[0] clauses of up to a[1] literals, layout freedom at the place a[2]
fn cnf_struct(a: [u64; 4]) {
    let lay = a[2] as usize % 10;
    // at the first such place only, or at all of them
    let left = std::cell::Cell::new(if a[2] < 10 { 1 } else { 100 });
    let here = |k: usize| {
        let h = k == lay && left.get() > 0;
        if h {
            left.set(left.get() - 1);
        }
        h
    };
    let mut s = vec![];
    let gap = |s: &mut Vec<u8>, k: usize| if here(k) { sep(s) } else { s.push(b' ') };
    let end = |s: &mut Vec<u8>, k: usize| if here(k) { eol(s) } else { s.push(b'\n') };
    let cmt = |s: &mut Vec<u8>, k: usize| {
        if here(k) {
            match pick(4) {
                0 => s.extend(b"c\n"),
                1 => s.extend(b"c p cnf 9 9\n"),
                2 => s.extend(b"c 1 2 0\r\n"),
                _ => s.extend(b"\nc x\n"),
            }
        }
    };
    cmt(&mut s, 0);
    s.push(b'p');
    gap(&mut s, 1);
    s.extend(b"cnf");
    gap(&mut s, 1);
    dig(&mut s, 1);
    gap(&mut s, 2);
    s.push(b'2');
    end(&mut s, 2);
    for i in 0..a[0] {
        cmt(&mut s, 3);
        let n = pick(a[1] as usize + 1);
        for j in 0..n {
            if choice() {
                s.push(b'-');
            }
            if i == 0 && j == 0 {
                dig(&mut s, 2);
            } else {
                s.extend([&b"7"[..], b"1", b"13", b"2"][(i as usize * 2 + j) % 4]);
            }
            gap(&mut s, 4);
        }
        s.push(b'0');
        end(&mut s, 5);
    }
    cmt(&mut s, 6);
    if lay == 7 {
        while s.last() == Some(&b'\n') {
            s.pop();
        }
    }
    let Ref::Good(r) = ref_cnf(&s) else {
        check(false, "harness: the generated file is well-formed");
        return;
    };
    match SatInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(&s)) {
        Ok(i) => {
            same_cnf(&i, &r);
            witness(1);
        }
        Err(_) => check(false, "a well-formed file is accepted"),
    }
}
// ------------------------------------------------------------------ F02
/// a literal of a variable below `n`
fn any_lit(n: u64) -> Lit {
    let v = if n > 100 {
        // beyond that, only the boundary values of printing and parsing
        [99, 998, 999, 9_998, 9_999, 65_536, 99_999, 9_999_999, 10_000_000, 99_999_998, 1_000_000_000, 2_147_483_646][pick(12)]
    } else {
        range(0, n - 1) as u32
    };
    Lit::new(v, bool_())
}
/// formulas of a[0] clauses with up to a[1] literals, a[2] of them over variables below a[3] and the rest below 9
fn sym_cnf(a: [u64; 4]) -> (Vec<Clause>, RefCnf) {
    let mut cls = vec![];
    let mut r = RefCnf { n_vars: 0, cls: vec![] };
    let mut wide = a[2];
    for _ in 0..a[0] {
        let n = pick(a[1] as usize + 1);
        let mut c = Clause::new();
        let mut e = vec![];
        for _ in 0..n {
            let l = if wide > 0 {
                wide -= 1;
                any_lit(a[3])
            } else {
                any_lit(9)
            };
            c.add(l);
            e.push(l.lidx32());
        }
        cls.push(c);
        r.cls.push(e);
    }
    (cls, r)
}
fn cnf_rt(a: [u64; 4]) {
    let (cls, mut r) = sym_cnf(a);
    let mut out = vec![];
    match pick(3) {
        0 => {
            let inst: SatInstance = cls.into_iter().collect();
            r.n_vars = inst.n_vars() as u64;
            if inst.write_dimacs(&mut out).is_err() {
                check(false, "a clausal instance can be written");
            }
        }
        1 => {
            let cnf: Cnf = cls.into_iter().collect();
            let n = range(0, 9) as u32;
            r.n_vars = n as u64;
            if cnf.write_dimacs(&mut out, n).is_err() {
                check(false, "a formula can be written");
            }
        }
        _ => {
            let n = range(0, 9) as u32;
            r.n_vars = n as u64;
            let lines = std::iter::once(dimacs::CnfLine::Comment("x".into()))
                .chain(std::iter::once(dimacs::CnfLine::Header(n, cls.len())))
                .chain(std::iter::once(dimacs::CnfLine::Comment("1 0".into())))
                .chain(cls.into_iter().map(dimacs::CnfLine::Clause));
            if dimacs::write_cnf(&mut out, lines).is_err() {
                check(false, "lines can be written");
            }
        }
    }
    match SatInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(&out)) {
        Ok(i) => {
            same_cnf(&i, &r);
            witness(1);
        }
        Err(_) => check(false, "what was written can be read"),
    }
}
// ------------------------------------------------------------------ F03
#[derive(Default)]
struct RefOpt {
    n_vars: u64,
    hard: Vec<Vec<u32>>,
    /// objective, weight, literals
    soft: Vec<(usize, u64, Vec<u32>)>,
    n_objs: usize,
}
/// the highest objective index for which files are considered: the parser allocates that many objectives
const MAX_OBJ: u64 = 20;
fn ref_opt(s: &[u8], multi: bool) -> Ref<RefOpt> {
    let Some(ls) = ref_lines(s) else { return Ref::Any };
    let mut strict = true;
    let mut top: Option<u64> = None;
    let mut first = true;
    let mut total = 0u64;
    let mut r = RefOpt::default();
    for l in ls {
        if l[0] == b'c' {
            strict &= l.len() == 1 || blank(l[1]);
            continue;
        }
        let ts = ref_tokens(l);
        if !multi && first && ts[0] == b"p" {
            first = false;
            if ts.len() != 5 || ts[1] != b"wcnf" {
                return Ref::Bad;
            }
            let (Some(n), Some(m), Some(t)) = (ref_num(ts[2]), ref_num(ts[3]), ref_num(ts[4])) else { return Ref::Bad };
            if n.neg || m.neg || t.neg || n.big || m.big || t.big || n.mag > u32::MAX as u64 {
                return Ref::Bad;
            }
            strict &= n.canon & m.canon & t.canon & (n.mag < 1 << 31);
            r.n_vars = n.mag;
            top = Some(t.mag);
            continue;
        }
        first = false;
        if ts[0] == b"h" && top.is_none() {
            let Some((c, st)) = ref_clause(&ts[1..]) else { return Ref::Bad };
            strict &= st;
            r.hard.push(c);
            continue;
        }
        let mut rest = &ts[..];
        let mut obj = 1;
        if multi {
            if rest[0][0] != b'o' {
                return Ref::Bad;
            }
            let t = if rest[0].len() == 1 {
                // this is how objectives are written
                rest = &rest[1..];
                if rest.is_empty() {
                    return Ref::Bad;
                }
                rest[0]
            } else {
                &rest[0][1..]
            };
            if !t[0].is_ascii_digit() {
                return Ref::Bad;
            }
            let Some(n) = ref_num(t) else { return Ref::Bad };
            if n.big || n.mag == 0 {
                return Ref::Bad;
            }
            assume(n.mag <= MAX_OBJ);
            obj = concretize(n.mag) as usize;
            rest = &rest[1..];
            if rest.is_empty() {
                return Ref::Bad;
            }
        }
        let Some(w) = ref_num(rest[0]) else { return Ref::Bad };
        if w.neg || w.big {
            return Ref::Bad;
        }
        strict &= w.canon & (w.mag > 0);
        let Some((c, st)) = ref_clause(&rest[1..]) else { return Ref::Bad };
        strict &= st;
        if top.is_some_and(|t| conc_bool(w.mag >= t)) {
            r.hard.push(c);
            continue;
        }
        let Some(t) = total.checked_add(w.mag) else { return Ref::Any };
        total = t;
        r.n_objs = r.n_objs.max(obj);
        r.soft.push((obj - 1, w.mag, c));
    }
    if total > i64::MAX as u64 {
        return Ref::Any;
    }
    if !multi {
        // an empty file
        strict &= !first;
        r.n_objs = 1;
    }
    if strict {
        Ref::Good(r)
    } else {
        Ref::Loose(r)
    }
}
fn falsified(c: impl Iterator<Item = u32>, inp: &[u8]) -> u64 {
    let mut f = 1u8;
    for l in c {
        f &= (inp[(l >> 1) as usize] ^ (l & 1) as u8) ^ 1;
    }
    f as u64
}
fn obj_value(o: &Objective, inp: &[u8]) -> i64 {
    let mut v = o.offset() as i64;
    for (c, w) in o.iter_soft_cls() {
        v = v.wrapping_add((falsified(c.iter().map(|l| l.lidx32()), inp) * w as u64) as i64);
    }
    v
}
fn same_opt<'a>(cnf: &Cnf, n: u64, objs: impl Iterator<Item = &'a Objective>, r: &RefOpt) {
    check(cnf.len() == r.hard.len(), "as many hard clauses as the file has");
    check(n >= r.n_vars, "the variables of the header are known");
    for (c, e) in cnf.iter().zip(&r.hard) {
        same_clause(c, e, "the hard clauses are those in the file, in order");
    }
    let mut far = false;
    for l in r.hard.iter().flatten() {
        check(n > (*l >> 1) as u64, "the variables of the clauses are known");
        far |= *l >= 32;
    }
    for (_, w, c) in &r.soft {
        for l in c {
            check((*w == 0) | (n > (*l >> 1) as u64), "the variables of the clauses are known");
            far |= *l >= 32;
        }
    }
    let mut k = 0;
    let inp = bits(16);
    for (i, o) in objs.enumerate() {
        k += 1;
        if far {
            continue;
        }
        let mut v = 0u64;
        for (j, w, c) in &r.soft {
            if *j == i {
                v = v.wrapping_add(falsified(c.iter().copied(), &inp) * w);
            }
        }
        check(obj_value(o, &inp) == v as i64, "every objective has the value the file gives it");
    }
    check(k == r.n_objs, "as many objectives as the file has");
}
fn wcnf_case(s: &[u8]) {
    let r = ref_opt(s, false);
    let res = OptInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(s));
    decide(res, r, |i, r| same_opt(i.constraints_ref().cnf(), i.constraints_ref().n_vars() as u64, std::iter::once(i.objective_ref()), r));
}
fn mcnf_case(s: &[u8]) {
    let r = ref_opt(s, true);
    let res = MultiOptInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(s));
    decide(res, r, |i, r| same_opt(i.constraints_ref().cnf(), i.constraints_ref().n_vars() as u64, i.iter_obj(), r));
}
/// free text whose digits are decided (they end up in hash tables)
fn free_dec(n: usize, alpha: usize) -> Vec<u8> {
    let mut v = free(n, alpha);
    for c in &mut v {
        if c.is_ascii_digit() {
            *c = concretize(*c as u64) as u8;
        }
    }
    v
}
fn wcnf_any(a: [u64; 4]) {
    let (pre, post): (&[u8], &[u8]) = match a[1] {
        0 => (b"", b""),
        1 => (b"h 1 0\n", b""),
        2 => (b"p wcnf 2 2 3\n", b""),
        3 => (b"p wcnf 2 2 3\n", b" 1 0\n3 -1 2 0"),
        4 => (b"", b" 1 0\n2 -1 2 0"),
        5 => (b"p wcnf ", b"\n2 1 0\n"),
        6 => (b"c\n", b"\nh 1 -2 0\n"),
        7 => (b"3 1 2 0\n", b"\nh 2 0\n"),
        _ => (b"h ", b"0\n"),
    };
    let mut s = pre.to_vec();
    s.extend(free_dec(a[0] as usize, a[2] as usize + 10));
    s.extend(post);
    wcnf_case(&s);
}
fn mcnf_any(a: [u64; 4]) {
    let (pre, post): (&[u8], &[u8]) = match a[1] {
        0 => (b"", b""),
        1 => (b"h 1 0\n", b""),
        2 => (b"o1 2 -2 0\n", b" 3 2 1 0\n"),
        3 => (b"o", b" 2 0"),
        4 => (b"o2 ", b" 1 0\nh 1 2 0\n"),
        _ => (b"c\n", b"\no2 3 -1 0\no1 4 1 0"),
    };
    let mut s = pre.to_vec();
    s.extend(free_dec(a[0] as usize, a[2] as usize + 10));
    s.extend(post);
    mcnf_case(&s);
}
/// numbers as in `cnf_num`
fn wcnf_num(a: [u64; 4]) {
    let mut d: Vec<u8> = vec![];
    num(&mut d, a[0] as usize, a[2] as usize);
    let mut s = vec![];
    let parts: &[&[u8]] = match a[1] {
        0 => &[b"p wcnf ", b" 1 5\n3 1 0\n"],
        1 => &[b"p wcnf 1 ", b" 5\n5 1 0\n"],
        2 => &[b"p wcnf 1 1 ", b"\n5 1 0\n3 -1 0\n"],
        3 => &[b"p wcnf 1 1 5\n", b" -1 0\n"],
        4 => &[b"", b" -1 0\n2 1 2 0\n"],
        5 => &[b"", b" 0\nh 1 0\n"],
        6 => &[b"1 2 0\n", b" 1 2 0\n"],
        7 => &[b"", b" 1 0\n", b" -1 0\n"],
        8 => &[b"", b" 1 2 0\n", b" 0\n"],
        _ => &[b"", b" 1 0\n", b" 1 0\n"],
    };
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.extend(&d);
        }
        s.extend(*p);
    }
    wcnf_case(&s);
}
fn mcnf_num(a: [u64; 4]) {
    let mut d: Vec<u8> = vec![];
    num(&mut d, a[0] as usize, a[2] as usize);
    let parts: &[&[u8]] = match a[1] {
        0 => &[b"o", b" 3 1 0\n"],
        1 => &[b"o 1 ", b" 1 2 0\n"],
        2 => &[b"o2 ", b" 0\n"],
        _ => &[b"o2 ", b" 1 2 0\no2 ", b" 2 0\no2 1 2 0\n"],
    };
    let mut s = vec![];
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.extend(&d);
        }
        s.extend(*p);
    }
    mcnf_case(&s);
}
/// a well-formed file: format a[3] (0 old WCNF, 1 WCNF, 2 MCNF) of a[0] clauses with up to a[1] literals; layout freedom at the place a[2]
fn opt_struct(a: [u64; 4]) {
    let lay = a[2] as usize % 10;
    let left = std::cell::Cell::new(if a[2] < 10 { 1 } else { 100 });
    let here = |k: usize| {
        let h = k == lay && left.get() > 0;
        if h {
            left.set(left.get() - 1);
        }
        h
    };
    let mut s = vec![];
    let gap = |s: &mut Vec<u8>, k: usize| if here(k) { sep(s) } else { s.push(b' ') };
    let end = |s: &mut Vec<u8>, k: usize| if here(k) { eol(s) } else { s.push(b'\n') };
    let cmt = |s: &mut Vec<u8>, k: usize| {
        if here(k) {
            match pick(4) {
                0 => s.extend(b"c\n"),
                1 => s.extend(b"c p wcnf 9 9 1\n"),
                2 => s.extend(b"c h 2 0\r\n"),
                _ => s.extend(b"\nc x\n"),
            }
        }
    };
    let kind = a[3];
    cmt(&mut s, 0);
    if kind == 0 {
        s.push(b'p');
        gap(&mut s, 1);
        s.extend(b"wcnf");
        gap(&mut s, 1);
        dig(&mut s, 1);
        gap(&mut s, 2);
        s.push(b'2');
        gap(&mut s, 2);
        s.push(b'1' + 2 * pick(3) as u8);
        end(&mut s, 2);
    }
    for _ in 0..a[0] {
        cmt(&mut s, 3);
        if kind > 0 && choice() {
            s.push(b'h');
        } else {
            if kind == 2 {
                s.push(b'o');
                if here(7) {
                    sep(&mut s);
                }
                s.push(b'1' + pick(2) as u8);
                gap(&mut s, 3);
            }
            dig(&mut s, 1);
        }
        let n = pick(a[1] as usize + 1);
        for _ in 0..n {
            gap(&mut s, 4);
            if choice() {
                s.push(b'-');
            }
            s.push(b'1' + pick(2) as u8);
        }
        gap(&mut s, 4);
        s.push(b'0');
        end(&mut s, 5);
    }
    cmt(&mut s, 6);
    if lay == 8 {
        while s.last() == Some(&b'\n') {
            s.pop();
        }
    }
    if kind == 2 {
        mcnf_case(&s);
    } else {
        wcnf_case(&s);
    }
}
/// a clause over the variables below `n`, decided
fn dec_clause(max: usize, n: usize) -> (Clause, Vec<u32>) {
    let k = pick(max + 1);
    let ls: Vec<Lit> = (0..k).map(|_| pick_lit(n)).collect();
    let e = ls.iter().map(|l| l.lidx32()).collect();
    (ls.into_iter().collect(), e)
}
/// a[0] hard clauses and a[1] soft clauses of up to a[2] literals, weights below 2^a[3], through the writers a[3]/100
fn wcnf_rt(a: [u64; 4]) {
    let mut r = RefOpt { n_objs: 1, ..Default::default() };
    let mut lines = vec![dimacs::WcnfLine::Comment("h 1 0".into())];
    for _ in 0..a[0] {
        let l = any_lit(9);
        let c: Clause = if choice() { Clause::new() } else { [l].into_iter().collect() };
        r.hard.push(c.iter().map(|l| l.lidx32()).collect());
        lines.push(dimacs::WcnfLine::Hard(c));
    }
    for _ in 0..a[1] {
        let (c, e) = dec_clause(a[2] as usize, 2);
        let w = range(1, (1 << (a[3] % 100)) - 1);
        r.soft.push((0, w, e));
        lines.push(dimacs::WcnfLine::Soft(c, w as usize));
    }
    let mut out = vec![];
    if a[3] < 100 {
        let inst: OptInstance = lines.into_iter().collect();
        same_opt(inst.constraints_ref().cnf(), u64::MAX, std::iter::once(inst.objective_ref()), &r);
        // the offset is not carried by the format
        let off = inst.objective_ref().offset();
        if inst.write_dimacs(&mut out).is_err() {
            check(false, "a clausal instance can be written");
        }
        let mut base = 0;
        r.soft.retain(|s| {
            if s.2.is_empty() {
                base += s.1;
            }
            !s.2.is_empty()
        });
        check(off as u64 == base, "empty soft clauses make up the offset");
    } else if dimacs::write_wcnf(&mut out, lines.into_iter()).is_err() {
        check(false, "lines can be written");
    }
    match OptInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(&out)) {
        Ok(i) => {
            same_opt(i.constraints_ref().cnf(), i.constraints_ref().n_vars() as u64, std::iter::once(i.objective_ref()), &r);
            witness(1);
        }
        Err(_) => check(false, "what was written can be read"),
    }
}
fn mcnf_rt(a: [u64; 4]) {
    let mut r = RefOpt { n_objs: 0, ..Default::default() };
    let mut lines = vec![dimacs::McnfLine::Comment("h 1 0".into())];
    for _ in 0..a[0] {
        let l = any_lit(9);
        let c: Clause = if choice() { Clause::new() } else { [l].into_iter().collect() };
        r.hard.push(c.iter().map(|l| l.lidx32()).collect());
        lines.push(dimacs::McnfLine::Hard(c));
    }
    for _ in 0..a[1] {
        let (c, e) = dec_clause(a[2] as usize, 2);
        let w = range(1, (1 << (a[3] % 100)) - 1);
        let o = pick(3);
        r.n_objs = r.n_objs.max(o + 1);
        r.soft.push((o, w, e));
        lines.push(dimacs::McnfLine::Soft(c, w as usize, o));
    }
    let mut out = vec![];
    if a[3] < 100 {
        let inst: MultiOptInstance = lines.into_iter().collect();
        same_opt(inst.constraints_ref().cnf(), u64::MAX, inst.iter_obj(), &r);
        if inst.write_dimacs(&mut out).is_err() {
            check(false, "a clausal instance can be written");
        }
        r.soft.retain(|s| !s.2.is_empty());
        // trailing objectives without soft clauses are not carried by the format
        r.n_objs = r.soft.iter().map(|s| s.0 + 1).max().unwrap_or(0);
    } else if dimacs::write_mcnf(&mut out, lines.into_iter()).is_err() {
        check(false, "lines can be written");
    }
    match MultiOptInstance::<BasicVarManager>::from_dimacs(std::io::Cursor::new(&out)) {
        Ok(i) => {
            same_opt(i.constraints_ref().cnf(), i.constraints_ref().n_vars() as u64, i.iter_obj(), &r);
            witness(1);
        }
        Err(_) => check(false, "what was written can be read"),
    }
}

// ------------------------------------------------------------------ F04
#[derive(Clone)]
enum Item {
    Cmt,
    /// terms, 0 for at most, 1 for at least, 2 for equality, bound
    Constr(Vec<(i64, u32)>, usize, i64),
    /// whether to maximise, terms
    Obj(bool, Vec<(i64, u32)>),
}
/// `None` for overflows
fn ref_int(n: Num) -> Option<i64> {
    if n.big || n.mag > i64::MAX as u64 {
        return None;
    }
    Some(if n.neg { -(n.mag as i64) } else { n.mag as i64 })
}
/// the magnitudes add up to at most i64::MAX
fn fits(ts: &[(i64, u32)], b: i64) -> bool {
    let mut t = b.unsigned_abs();
    for (c, _) in ts {
        match t.checked_add(c.unsigned_abs()) {
            Some(x) if x <= i64::MAX as u64 => t = x,
            _ => return false,
        }
    }
    true
}
fn ref_terms(ts: &[&[u8]], first: u32, strict: &mut bool, over: &mut bool) -> Option<Vec<(i64, u32)>> {
    if ts.len() % 2 != 0 {
        return None;
    }
    let mut v = vec![];
    for p in ts.chunks(2) {
        let c = ref_num(p[0])?;
        // signed zeros
        *strict &= conc_bool((c.mag != 0) | (p[0].len() == 1));
        let c = match ref_int(c) {
            Some(c) => c,
            None => {
                *over = true;
                0
            }
        };
        let (neg, x) = match p[1][0] {
            b'~' => (true, &p[1][1..]),
            b'-' => {
                *strict = false;
                (true, &p[1][1..])
            }
            _ => (false, p[1]),
        };
        if x.len() < 2 || x[0] != b'x' || !x[1].is_ascii_digit() {
            return None;
        }
        let n = ref_num(&x[1..])?;
        if n.big || n.mag > u32::MAX as u64 || n.mag < first as u64 {
            return None;
        }
        let i = n.mag - first as u64;
        if i > (1 << 31) - 1 {
            return None;
        }
        // a variable above which there is none
        if i == (1 << 31) - 1 {
            *over = true;
        }
        v.push((c, (i as u32) * 2 + neg as u32));
    }
    Some(v)
}
fn ref_opb(s: &[u8], first: u32) -> Ref<Vec<Item>> {
    let Some(ls) = ref_lines(s) else { return Ref::Any };
    let mut strict = true;
    let mut over = false;
    let mut out = vec![];
    for l in ls {
        let mut l = l;
        loop {
            l = ref_trim(l);
            if l.is_empty() {
                break;
            }
            if l[0] == b'*' {
                out.push(Item::Cmt);
                break;
            }
            let e = l.iter().position(|c| *c == b';');
            strict &= e.is_some();
            let it = &l[..e.unwrap_or(l.len())];
            l = &l[e.map_or(l.len(), |e| e + 1)..];
            let max = it.starts_with(b"max:");
            if max || it.starts_with(b"min:") {
                let Some(ts) = ref_terms(&ref_tokens(&it[4..]), first, &mut strict, &mut over) else { return Ref::Bad };
                over = over || !fits(&ts, 0);
                out.push(Item::Obj(max, ts));
                continue;
            }
            let Some(o) = it.iter().position(|c| matches!(c, b'<' | b'>' | b'=')) else { return Ref::Bad };
            let eq = it[o] != b'=' && it.get(o + 1) == Some(&b'=');
            let Some(ts) = ref_terms(&ref_tokens(&it[..o]), first, &mut strict, &mut over) else { return Ref::Bad };
            let Some(b) = ref_num(ref_trim(&it[o + 1 + eq as usize..])) else { return Ref::Bad };
            strict &= conc_bool(b.canon | (b.mag != 0));
            let Some(b) = ref_int(b) else {
                over = true;
                continue;
            };
            if !fits(&ts, b) {
                over = true;
                continue;
            }
            let (k, b) = match it[o] {
                b'=' => (2, b),
                b'<' if eq => (0, b),
                b'<' => match b.checked_sub(1) {
                    Some(x) => (0, x),
                    None => {
                        over = true;
                        continue;
                    }
                },
                _ if eq => (1, b),
                _ => match b.checked_add(1) {
                    Some(x) => (1, x),
                    None => {
                        over = true;
                        continue;
                    }
                },
            };
            out.push(Item::Constr(ts, k, b));
        }
    }
    if over {
        return Ref::Any;
    }
    if strict {
        Ref::Good(out)
    } else {
        Ref::Loose(out)
    }
}
fn rel(k: usize, s: i64, b: i64) -> bool {
    match k {
        0 => s <= b,
        1 => s >= b,
        _ => s == b,
    }
}
/// the sum under the assignment; the magnitudes are known to add up
fn isum(ts: &[(i64, u32)], inp: &[u8]) -> i64 {
    let mut s = 0i64;
    for (c, l) in ts {
        s = s.wrapping_add(ite(inp[(*l >> 1) as usize] ^ (*l & 1) as u8 != 0, *c as u64, 0) as i64);
    }
    s
}
fn near(ts: &[(i64, u32)]) -> bool {
    ts.iter().all(|t| t.1 < 32)
}
fn pb_holds(c: &PbConstraint, inp: &[u8]) -> bool {
    let ts: Vec<_> = c.iter().map(|(l, w)| (*w as i64, l.lidx32())).collect();
    let k = match c {
        PbConstraint::Ub(_) => 0,
        PbConstraint::Lb(_) => 1,
        PbConstraint::Eq(_) => 2,
    };
    rel(k, isum(&ts, inp), c.bound() as i64)
}
/// a constraint with one far variable cannot be evaluated over few variables: compare its terms
fn same_far(c: &PbConstraint, ts: &[(i64, u32)]) {
    let mut it = c.iter();
    check(ts.iter().all(|t| it.next().is_some_and(|(l, w)| (l.lidx32() >> 1 == t.1 >> 1) & (*w as u64 == t.0.unsigned_abs()))) && it.next().is_none(), "the terms are those in the file");
}
fn opb_case(s: &[u8], first: u32, mode: usize) {
    let opts = opb::Options { first_var_idx: first, no_negated_lits: true };
    let r = ref_opb(s, first);
    let rd = std::io::Cursor::new(s);
    let inp = bits(16);
    let sat = |cs: Vec<PbConstraint>, e: &Vec<Item>| {
        let mut want = true;
        let mut got = true;
        let mut ok = true;
        for i in e {
            if let Item::Constr(ts, k, b) = i {
                ok &= near(ts);
                if ok {
                    want &= rel(*k, isum(ts, &inp), *b);
                }
            }
        }
        if ok {
            for c in &cs {
                got &= pb_holds(c, &inp);
            }
            check(want == got, "the instance means what the file says");
        }
    };
    let val = |o: &Objective, e: &Item| {
        if let Item::Obj(max, ts) = e {
            if near(ts) {
                let v = isum(ts, &inp);
                check(obj_value(o, &inp) == if *max { v.wrapping_neg() } else { v }, "the objective has the value the file gives it, negated if it is to be maximised");
            }
        }
    };
    match mode {
        0 => {
            let res: Result<Vec<opb::Data>, fio::Error> = opb::Parser::new(rd, opts).collect();
            decide(res, r, |d, e: &Vec<Item>| {
                check(d.len() == e.len(), "as many lines as the file has");
                for (d, e) in d.iter().zip(e) {
                    match (d, e) {
                        (opb::Data::Cmt(_), Item::Cmt) => (),
                        (opb::Data::Constr(c), Item::Constr(ts, k, b)) => {
                            if near(ts) {
                                check(pb_holds(c, &inp) == rel(*k, isum(ts, &inp), *b), "the constraint means what the file says");
                            } else {
                                same_far(c, ts);
                            }
                        }
                        (opb::Data::Obj(o), Item::Obj(max, ts)) => {
                            check((o.sense == opb::ObjectiveSense::Maximize) == *max, "the sense of the objective is that in the file");
                            if near(ts) {
                                let os: Vec<_> = o.terms.iter().map(|(w, l)| (*w as i64, l.lidx32())).collect();
                                check(isum(&os, &inp).wrapping_add(o.offset as i64) == isum(ts, &inp), "the objective has the value the file gives it");
                            }
                        }
                        _ => check(false, "each line has the kind it has in the file"),
                    }
                }
            });
        }
        1 => {
            let r = match r {
                Ref::Good(e) | Ref::Loose(e) if e.iter().any(|i| matches!(i, Item::Obj(..))) => Ref::Bad,
                r => r,
            };
            decide(SatInstance::<BasicVarManager>::from_opb(rd, opts), r, |i, e| {
                for it in e {
                    if let Item::Constr(ts, ..) = it {
                        for t in ts {
                            check(i.n_vars() > t.1 >> 1, "the variables of the constraints are known");
                        }
                    }
                }
                sat(i.clone().into_pbs().0, e);
            });
        }
        2 => {
            let r = match r {
                Ref::Good(e) | Ref::Loose(e) if e.iter().filter(|i| matches!(i, Item::Obj(..))).count() != 1 => Ref::Bad,
                r => r,
            };
            decide(OptInstance::<BasicVarManager>::from_opb(rd, opts), r, |i, e| {
                sat(i.constraints_ref().clone().into_pbs().0, e);
                val(i.objective_ref(), e.iter().find(|i| matches!(i, Item::Obj(..))).unwrap());
            });
        }
        _ => decide(MultiOptInstance::<BasicVarManager>::from_opb(rd, opts), r, |i, e| {
            sat(i.constraints_ref().clone().into_pbs().0, e);
            let mut os = i.iter_obj();
            for it in e.iter().filter(|i| matches!(i, Item::Obj(..))) {
                match os.next() {
                    Some(o) => val(o, it),
                    None => check(false, "every objective is read"),
                }
            }
            check(os.next().is_none(), "no objective is invented");
        }),
    }
}
/// free text of a[0] characters out of alphabet a[2] in the context a[1]; a[3]: who reads it
fn opb_any(a: [u64; 4]) {
    let (pre, post): (&[u8], &[u8]) = match a[1] {
        0 => (b"", b""),
        1 => (b"1 x1", b" 2;\n"),
        2 => (b"1 x1 ", b">= 1;"),
        3 => (b"2 x1 -1 x2 >= 1", b"\n3 x2 <= 4 ;"),
        4 => (b"min: ", b";\n1 x1 >= 1;\n"),
        5 => (b"* x\n", b" x1 1 ~x2 = 1;"),
        6 => (b"m", b": 1 x1;"),
        _ => (b"1 ", b" > 0;"),
    };
    let mut s = pre.to_vec();
    s.extend(free_dec(a[0] as usize, a[2] as usize));
    s.extend(post);
    opb_case(&s, 1, a[3] as usize);
}
fn osep(s: &mut Vec<u8>, free: bool) {
    if free {
        sep(s)
    } else {
        s.push(b' ')
    }
}
fn sign(s: &mut Vec<u8>) {
    match pick(3) {
        1 => s.push(b'-'),
        2 => s.push(b'+'),
        _ => (),
    }
}
fn oterm(s: &mut Vec<u8>, digits: usize, v: u8) {
    sign(s);
    dig(s, digits);
    s.push(b' ');
    if choice() {
        s.push(b'~');
    }
    s.push(b'x');
    s.push(b'0' + v);
}
/// one constraint of a[0] terms with a[1]-digit numbers; a[2]: layout freedom; a[3]: who reads it
fn opb_constr(a: [u64; 4]) {
    let n = a[0] as usize;
    let lay = a[2];
    let mut s = vec![];
    if lay == 1 {
        match pick(3) {
            0 => s.extend(b"* c 1 x1 >= 1;\n"),
            1 => s.extend(b"*\n\n"),
            _ => s.extend(b" \t"),
        }
    }
    for i in 0..n {
        oterm(&mut s, a[1] as usize, 1 + (i % 2) as u8);
        osep(&mut s, lay == 2);
    }
    if lay == 3 && n > 0 && choice() {
        s.pop();
    }
    s.extend([&b">="[..], b"<=", b"=", b"<", b">"][pick(5)]);
    if lay != 3 || choice() {
        s.push(b' ');
    }
    sign(&mut s);
    dig(&mut s, a[1] as usize);
    match if lay == 4 { pick(6) } else { 6 } {
        0 => s.extend(b" ;"),
        1 => s.extend(b";\r\n"),
        2 => s.extend(b"; \n"),
        3 => s.extend(b" ; * end"),
        4 => s.extend(b"; 1 x1 >= 0;"),
        5 => s.extend(b"\n"),
        _ => s.extend(b";\n"),
    }
    if lay == 5 {
        s.extend(b"2 ~x2 1 x1 >= 2;\n* x\n-1 x1 >= -1;");
    }
    let f = if lay == 6 { pick(3) as u32 } else { 1 };
    opb_case(&s, f, a[3] as usize);
}
/// numbers as in `cnf_num`: a[0] free digits, place a[1], beginning a[2], a[3]: who reads it
fn opb_num(a: [u64; 4]) {
    let mut d: Vec<u8> = vec![];
    num(&mut d, a[0] as usize, a[2] as usize);
    let parts: &[&[u8]] = match a[1] {
        0 => &[b"1 x1 2 x2 >= ", b";\n"],
        1 => &[b"1 x1 2 x2 < ", b";\n"],
        2 => &[b"1 x1 2 x2 > ", b";\n"],
        3 => &[b"", b" x1 1 x2 <= 1;\n"],
        4 => &[b"", b" x1 ", b" x2 = 0;\n"],
        5 => &[b"", b" x1 -1 x2 >= ", b";\n"],
        6 => &[b"1 x", b" >= 1;\n"],
        7 => &[b"min: 1 x1 ", b" ~x2;\n"],
        8 => &[b"max: ", b" x1 1 x2;\n"],
        9 => &[b"min: ", b" x1 ", b" x2;\n"],
        10 => &[b"max: ", b" x1 ", b" x1 1 x1;\n"],
        12 => &[b"", b" x1 ", b" x2 ", b" ~x3 >= 0;\n"],
        13 => &[b"min: ", b" x1 ", b" x2 ", b" ~x3;\n"],
        _ => &[b"min: 1 x", b";\n"],
    };
    let mut s = vec![];
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.extend(&d);
        }
        s.extend(*p);
    }
    let f = if a[1] == 6 { [0, 1, 2, 4_294_967_295][pick(4)] } else { 1 };
    opb_case(&s, f, a[3] as usize);
}
/// objectives of a[0] terms with a[1]-digit numbers; a[2]: 1 layout, 2 several objectives; a[3]: who reads it
fn opb_obj(a: [u64; 4]) {
    let mut s = vec![];
    s.extend([&b"min:"[..], b"max:"][pick(2)]);
    for i in 0..a[0] as usize {
        osep(&mut s, a[2] == 1);
        oterm(&mut s, a[1] as usize, 1 + (i % 2) as u8);
    }
    if a[2] == 1 && choice() {
        s.push(b' ');
    }
    s.extend(b";\n");
    if a[2] == 2 {
        s.extend([&b"min: 1 x1;"[..], b"max: 2 x2 ;\n", b"1 x1 >= 1;", b"min:;"][pick(4)]);
    }
    opb_case(&s, 1, a[3] as usize);
}
// ------------------------------------------------------------------ F05
fn wopts(k: usize) -> opb::Options {
    opb::Options { first_var_idx: [1, 0, 8, 1][k], no_negated_lits: k != 3 }
}
/// `k` literals over `n` variables, the first one of either polarity, with signed coefficients below 2^w
fn terms(k: usize, n: usize, w: u64) -> (Vec<(Lit, isize)>, Vec<(i64, u32)>) {
    let mut v = vec![];
    let mut r = vec![];
    for j in 0..k {
        let l = lit((j * (1 + choice() as usize)) % n, choice());
        let c = if choice() { -(mag(w) as isize) } else { mag(w) as isize };
        v.push((l, c));
        r.push((c as i64, l.lidx32()));
    }
    (v, r)
}
fn plain(ls: &[Lit]) -> Vec<(i64, u32)> {
    ls.iter().map(|l| (1, l.lidx32())).collect()
}
/// adds a constraint of a kind (0 clause, 1 cardinality, 2 pseudo-Boolean) with up to `n` literals
fn add_constr(i: &mut SatInstance, kind: u64, n: usize, w: u64) -> (Vec<(i64, u32)>, usize, i64) {
    let k = pick(n + 1);
    if kind == 2 {
        let (v, r) = terms(k, 3, w);
        let b = if choice() { -(mag(w + 1) as isize) } else { mag(w + 1) as isize };
        let op = pick(3);
        i.add_pb_constr(match op {
            0 => PbConstraint::new_ub(v, b),
            1 => PbConstraint::new_lb(v, b),
            _ => PbConstraint::new_eq(v, b),
        });
        return (r, op, b as i64);
    }
    let ls: Vec<Lit> = (0..k).map(|j| lit((j * (1 + choice() as usize)) % 3, choice())).collect();
    let r = plain(&ls);
    if kind == 0 {
        i.add_clause(ls.into_iter().collect());
        return (r, 1, 1);
    }
    let b = range(0, n as u64 + 2) as usize;
    let op = pick(3);
    i.add_card_constr(match op {
        0 => CardConstraint::new_ub(ls, b),
        1 => CardConstraint::new_lb(ls, b),
        _ => CardConstraint::new_eq(ls, b),
    });
    (r, op, b as i64)
}
fn conj(cs: &[(Vec<(i64, u32)>, usize, i64)], inp: &[u8]) -> bool {
    let mut r = true;
    for (ts, k, b) in cs {
        r &= rel(*k, isum(ts, inp), *b);
    }
    r
}
fn pbs_conj(i: SatInstance, inp: &[u8]) -> bool {
    let mut r = true;
    for c in &i.into_pbs().0 {
        r &= pb_holds(c, inp);
    }
    r
}
/// a[0] decimal digits: kinds of the constraints (1 clause, 2 cardinality, 3 pseudo-Boolean) with up to a[1] literals and a[2]-bit coefficients; options a[3]
fn opb_rt(a: [u64; 4]) {
    let mut i: SatInstance = SatInstance::new();
    let mut cs = vec![];
    let mut k = a[0];
    while k > 0 {
        cs.push(add_constr(&mut i, k % 10 - 1, a[1] as usize, a[2]));
        k /= 10;
    }
    let o = wopts(a[3] as usize);
    let mut out = vec![];
    if i.write_opb(&mut out, o).is_err() {
        check(false, "an instance can be written");
    }
    let inp = bits(3);
    match SatInstance::<BasicVarManager>::from_opb(std::io::Cursor::new(&out), o) {
        Ok(j) => {
            check(pbs_conj(j, &inp) == conj(&cs, &inp), "the models survive");
            witness(1);
        }
        Err(_) => check(false, "what was written can be read"),
    }
}
/// the offsets noted after the objectives in the output, in order
fn noted(out: &[u8]) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    for l in ref_lines(out).unwrap_or_default() {
        if l.starts_with(b"min:") {
            v.push(0);
        }
        if let Some(n) = l.strip_prefix(b"* objective offset for previous objective: ") {
            match (v.last_mut(), ref_num(n)) {
                (Some(x), Some(n)) => *x = if n.neg { (n.mag as i64).wrapping_neg() } else { n.mag as i64 },
                _ => check(false, "the offset note is a number after an objective"),
            }
        }
    }
    v
}
/// a[0] objectives of up to a[1] soft literals with a[2]-bit weights and an offset, one constraint; options a[3] % 4, a[3] / 4: multi-objective
fn opb_rt_obj(a: [u64; 4]) {
    let multi = a[3] >= 4;
    let o = wopts(a[3] as usize % 4);
    let mut constrs: SatInstance = SatInstance::new();
    let c = (vec![(1, 1u32), (1, 2)], 1, 1);
    constrs.add_clause([lit(0, true), lit(1, false)].into_iter().collect());
    let inp = bits(3);
    let mut objs = vec![];
    let mut vals = vec![];
    for _ in 0..a[0] {
        let mut obj = Objective::new();
        let mut v = 0i64;
        for _ in 0..pick(a[1] as usize + 1) {
            let l = pick_lit(3);
            let w = 1 + mag(a[2]);
            obj.increase_soft_lit(w as usize, l);
            v += ite(lit_val(l, &inp) != 0, w, 0) as i64;
        }
        let off = if choice() { -(mag(a[2]) as isize) } else { mag(a[2]) as isize };
        obj.increase_offset(off);
        vals.push(v + off as i64);
        objs.push(obj);
    }
    let mut out = vec![];
    let rd: Vec<Objective>;
    let cons;
    if multi {
        let i = MultiOptInstance::compose(constrs, objs);
        if i.write_opb(&mut out, o).is_err() {
            check(false, "an instance can be written");
        }
        match MultiOptInstance::<BasicVarManager>::from_opb(std::io::Cursor::new(&out), o) {
            Ok(j) => (cons, rd) = j.decompose(),
            Err(_) => return check(false, "what was written can be read"),
        }
    } else {
        let i = OptInstance::compose(constrs, objs.pop().unwrap());
        if i.write_opb(&mut out, o).is_err() {
            check(false, "an instance can be written");
        }
        match OptInstance::<BasicVarManager>::from_opb(std::io::Cursor::new(&out), o) {
            Ok(j) => {
                let (c, ob) = j.decompose();
                cons = c;
                rd = vec![ob];
            }
            Err(_) => return check(false, "what was written can be read"),
        }
    }
    check(pbs_conj(cons, &inp) == conj(&[c], &inp), "the models survive");
    let notes = noted(&out);
    check(rd.len() == vals.len() && notes.len() == vals.len(), "every objective survives");
    for ((ob, n), v) in rd.iter().zip(&notes).zip(&vals) {
        check(obj_value(ob, &inp).wrapping_add(*n) == *v, "the objective has its value up to the noted offset");
    }
    witness(1);
}
// ------------------------------------------------------------------ F06
fn space(c: &u8) -> bool {
    matches!(*c, 9..=13 | b' ')
}
/// what the text says: whether it claims a status, and the listed values
fn out_case(s: &[u8]) {
    let res = fio::parse_sat_solver_output(std::io::Cursor::new(s));
    // lines as the reader splits them
    let mut has = (false, false, false);
    let mut vals: Vec<Num> = vec![];
    let mut vline = false;
    let mut ok = std::str::from_utf8(s).is_ok();
    let mut exact = true;
    for l in s.split(|c| *c == b'\n') {
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        if l.starts_with(b"s ") {
            let mut t = &l[2..];
            while !t.is_empty() && (space(&t[0]) || t[0] >= 0x80) {
                t = &t[1..];
            }
            has.0 |= t.starts_with(b"SATISFIABLE");
            has.1 |= t.starts_with(b"UNSATISFIABLE");
            has.2 |= t.starts_with(b"UNKNOWN") || t.starts_with(b"INDETERMINATE");
        }
        if l.starts_with(b"v ") {
            vline = true;
            // MaxSAT evaluation lines are strings of bits
            let mut parts = l[2..].split(space).filter(|t| !t.is_empty());
            if let (Some(t), None) = (parts.next(), parts.next()) {
                exact &= !t.iter().all(|c| *c == b'0' || *c == b'1');
            }
            for t in l[2..].split(space) {
                if t.is_empty() {
                    continue;
                }
                match ref_num(t) {
                    Some(n) if !n.big => vals.push(n),
                    _ => {
                        // other numerals and value line formats
                        // (the white space outside of ASCII separates too)
                        ok &= t.iter().all(|c| {
                            c.is_ascii_digit() || *c == b'-' || *c == b'+' || *c == b'x' || *c >= 0x80
                        });
                        exact = false;
                    }
                }
            }
        }
    }
    match res {
        Ok(fio::SolverOutput::Sat(a)) => {
            check(has.0 && vline, "satisfiable is reported only with a status line and value lines");
            check(ok, "malformed values are rejected");
            if exact && vals.iter().all(|n| n.mag < 40) {
                for v in 0..12u32 {
                    let mut p = false;
                    let mut n = false;
                    for x in &vals {
                        p |= (x.mag == v as u64 + 1) & !x.neg;
                        n |= (x.mag == v as u64 + 1) & x.neg;
                    }
                    let t = a.var_value(Var::new(v));
                    check((t == TernaryVal::True) == p, "exactly the listed variables are true");
                    check((t == TernaryVal::False) == n, "exactly the listed variables are false");
                }
            }
            witness(1);
        }
        Ok(fio::SolverOutput::Unsat) => {
            check(has.1, "unsatisfiable is reported only with its status line");
            witness(2);
        }
        Ok(fio::SolverOutput::Unknown) => {
            check(has.2, "unknown is reported only with its status line");
            witness(3);
        }
        Err(_) => {
            witness(4);
        }
    }
}
/// free text of a[0] characters out of alphabet a[2] in the context a[1]
fn out_any(a: [u64; 4]) {
    let (pre, post): (&[u8], &[u8]) = match a[1] {
        0 => (b"", b""),
        1 => (b"", b"SATISFIABLE\nv 1 -2 0\n"),
        2 => (b"s SATISFIABLE\n", b"\nv 1 0"),
        3 => (b"s SATISFIABLE\nv 1 ", b"\n"),
        4 => (b"s ", b"SATISFIABLE"),
        5 => (b"v 1 0\ns UN", b"\n"),
        6 => (b"s SATISFIABLE\nv", b" 3\n"),
        _ => (b"c ", b"\ns UNSATISFIABLE\n"),
    };
    let mut s = pre.to_vec();
    s.extend(free_dec(a[0] as usize, a[2] as usize));
    s.extend(post);
    out_case(&s);
}
/// a[0] lines, each one of the lines solvers print or nearly print
fn out_lines(a: [u64; 4]) {
    let mut s = vec![];
    let mut sat = 0;
    let mut first_status = 0;
    let mut vs = vec![];
    let mut any_v = false;
    let mut bad = false;
    let mut stop = false;
    for _ in 0..a[0] {
        let k = pick(13);
        let l: &[u8] = [
            &b"s SATISFIABLE"[..],
            b"s UNSATISFIABLE",
            b"s UNKNOWN",
            b"s INDETERMINATE",
            b"s  SATISFIABLE",
            b"s OTHER",
            b"c s SATISFIABLE",
            b"",
            b"SATISFIABLE",
            b"v ",
            b"v ",
            b"v x",
            b"vs",
        ][k];
        s.extend(l);
        if k == 9 || k == 10 {
            // (a single token of zeros and ones is a bit string of the MaxSAT evaluation, see T03)
            let n = if k == 9 { 2 } else { 1 } + pick(3) as u8;
            let neg = choice();
            if neg {
                s.push(b'-');
            }
            s.push(b'0' + n);
            if k == 10 {
                s.extend(b" 0");
            }
            if !stop {
                any_v = true;
                bad |= vs.contains(&(n, !neg));
                vs.push((n, neg));
            }
        }
        if !stop {
            match k {
                0 | 4 => sat = 1,
                1 => first_status = 1,
                2 | 3 => first_status = 2,
                5 => bad = true,
                11 => bad = true,
                _ => (),
            }
            // what follows a definite answer or an error is not read
            stop = bad || first_status != 0;
        }
        s.extend([&b"\n"[..], b"\r\n"][(k == 6) as usize]);
    }
    let res = fio::parse_sat_solver_output(std::io::Cursor::new(&s));
    if bad {
        check(res.is_err(), "malformed or contradictory output is an error");
        return witness(1);
    }
    match first_status {
        1 => check(matches!(res, Ok(fio::SolverOutput::Unsat)), "unsatisfiable output"),
        2 => check(matches!(res, Ok(fio::SolverOutput::Unknown)), "unknown output"),
        _ if sat == 0 || !any_v => check(res.is_err(), "output without a status or values is an error"),
        _ => match res {
            Ok(fio::SolverOutput::Sat(a)) => {
                for v in 1..=4u8 {
                    let want = if vs.contains(&(v, false)) {
                        TernaryVal::True
                    } else if vs.contains(&(v, true)) {
                        TernaryVal::False
                    } else {
                        TernaryVal::DontCare
                    };
                    check(a.var_value(Var::new(v as u32 - 1)) == want, "exactly the listed values");
                }
            }
            _ => check(false, "satisfiable output is reported"),
        },
    }
    witness(2);
}
