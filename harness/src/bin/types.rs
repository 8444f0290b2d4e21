use rustsat::types::constraints::*;
use rustsat::types::*;
use symlib::*;
entries!(
    lit_new, var_ops, ipasir, lit_order, lit_arith, lit_fmt,
    asg_ops, asg_iter, asg_from, vline_sat, vline_mse, vline_pb, vline_any, vline_ext,
    cl_eval, cl_norm, cl_sanitize, cl_edit,
    card_eval, card_class, card_conv,
    pb_eval, pb_eval_wide, pb_class, pb_class_ub, pb_conv, pb_norm, pb_card,
);

// ------------------------------------------------------------------ T01
fn lit_new(_: [u64; 4]) {
    let i = u32_();
    let n = bool_();
    let valid = i <= Var::MAX_IDX;
    check(Var::MAX_IDX == (1 << 31) - 1, "MAX_IDX");
    match Lit::new_with_error(i, n) {
        Ok(l) => {
            check(valid, "new_with_error accepts only valid indices");
            check((l.vidx32() == i) & (l.vidx() == i as usize) & (l.is_neg() == n) & (l.is_pos() != n), "Lit::new_with_error");
            check((l.lidx32() == 2 * i + n as u32) & (l.lidx() == l.lidx32() as usize), "lidx");
            check((l.var().idx32() == i) & (l.var().idx() == i as usize), "var");
            check((!l).vidx32() == i && (!l).is_neg() != n && (-l) == !l && !!l == l, "negation");
            check(l.var().lit(n) == l, "var.lit");
            witness(1);
        }
        Err(_) => {
            check(!valid, "new_with_error rejects only invalid indices");
            witness(2);
        }
    }
    check(Lit::positive_with_error(i).is_ok() == valid, "positive_with_error");
    check(Lit::negative_with_error(i).is_ok() == valid, "negative_with_error");
    check(Var::new_with_error(i).is_ok() == valid, "Var::new_with_error");
    if !conc_bool(valid) {
        allow_panic(true);
        let _ = match pick(4) {
            0 => Lit::new(i, n).lidx(),
            1 => Lit::positive(i).lidx(),
            2 => Lit::negative(i).lidx(),
            _ => Var::new(i).idx(),
        };
        check(false, "the panicking constructors refuse invalid indices");
    }
    let l = Lit::new(i, n);
    check((l.vidx32() == i) & (l.is_neg() == n), "Lit::new");
    check(l == Lit::new_with_error(i, n).unwrap(), "Lit::new = new_with_error");
    let v = Var::new(i);
    check((v.idx32() == i) & (v.pos_lit() == Lit::positive(i)) & (v.neg_lit() == Lit::negative(i)), "Var");
    check((v.pos_lit() != v.neg_lit()) & ((!v) == v.neg_lit()) & ((-v) == v.neg_lit()), "polarity");
    check(Lit::positive(i).is_pos() & Lit::negative(i).is_neg(), "positive/negative");
    check((Lit::positive_with_error(i).unwrap() == v.pos_lit()) & (Lit::negative_with_error(i).unwrap() == v.neg_lit()), "with_error");
    check(Var::new_with_error(i).unwrap() == v, "Var::new_with_error");
    let u = unsafe { (Var::new_unchecked(i), Lit::new_unchecked(i, n), Lit::positive_unchecked(i), Lit::negative_unchecked(i), Lit::from_lidx(2 * i + n as u32)) };
    check((u.0 == v) & (u.1 == l) & (u.2 == v.pos_lit()) & (u.3 == v.neg_lit()) & (u.4 == l), "unchecked constructors");
}
fn var_ops(_: [u64; 4]) {
    let (i, j, k) = (u32_(), u32_(), u32_());
    assume((i <= Var::MAX_IDX) & (j <= Var::MAX_IDX));
    let (a, b) = (Var::new(i), Var::new(j));
    check((a == b) == (i == j), "eq");
    check((a < b) == (i < j), "lt");
    check((a <= b) == (i <= j), "le");
    check(a.cmp(&b) == i.cmp(&j), "cmp");
    if conc_bool(k <= Var::MAX_IDX - i) {
        check((a + k).idx32() == i + k, "Var +");
        let mut c = a;
        c += k;
        check(c.idx32() == i + k, "Var +=");
        check(c - k == a, "Var -");
        c -= k;
        check(c == a, "Var -=");
        witness(1);
    }
    let ok = i < i32::MAX as u32;
    match a.to_ipasir_with_error() {
        Ok(x) => check(ok & (x == i as i32 + 1), "Var::to_ipasir_with_error"),
        Err(_) => check(!ok, "Var::to_ipasir_with_error rejects only what does not fit"),
    }
    if conc_bool(ok) {
        check(a.to_ipasir() == i as i32 + 1, "Var::to_ipasir");
    }
}
fn ipasir(_: [u64; 4]) {
    let x = u32_() as i32;
    match Lit::from_ipasir(x) {
        Ok(l) => {
            check(x != 0, "zero denotes no literal");
            check(l.vidx32() == x.unsigned_abs() - 1, "from_ipasir variable");
            check(l.is_neg() == (x < 0), "from_ipasir polarity");
            if conc_bool(x != i32::MIN) {
                check(l.to_ipasir() == x, "to_ipasir");
                check(matches!(l.to_ipasir_with_error(), Ok(y) if y == x), "to_ipasir_with_error");
                witness(1);
            }
        }
        Err(_) => {
            check(x == 0, "only zero is rejected");
            witness(2);
        }
    }
    let i = u32_();
    assume(i < Var::MAX_IDX);
    let l = Lit::new(i, bool_());
    let y = l.to_ipasir();
    check((y != 0) & (y.unsigned_abs() == i + 1) & ((y < 0) == l.is_neg()), "to_ipasir value");
    check(matches!(Lit::from_ipasir(y), Ok(m) if m == l), "from_ipasir(to_ipasir)");
    check(matches!(l.to_ipasir_with_error(), Ok(z) if z == y), "to_ipasir_with_error value");
}
fn lit_order(_: [u64; 4]) {
    let (i, j) = (u32_(), u32_());
    assume((i <= Var::MAX_IDX) & (j <= Var::MAX_IDX));
    let (m, n) = (bool_(), bool_());
    let (a, b) = (Var::new(i).lit(m), Var::new(j).lit(n));
    check((a == b) == ((i == j) & (m == n)), "eq");
    check((a < b) == ((i < j) | ((i == j) & !m & n)), "lt: by variable, positive first");
    check((a > b) == (b < a), "gt");
    check((a <= b) == !(b < a), "le");
    check((a == !b) == ((i == j) & (m != n)), "complement");
    check((a.var() == b.var()) == (i == j), "var eq");
}
fn lit_arith(_: [u64; 4]) {
    let (i, k) = (u32_(), u32_());
    assume(i <= Var::MAX_IDX);
    assume(k <= Var::MAX_IDX - i);
    let n = bool_();
    let l = Var::new(i).lit(n);
    let p = l + k;
    check((p.vidx32() == i + k) & (p.is_neg() == n), "Lit +");
    check(p - k == l, "Lit -");
    let mut q = l;
    q += k;
    check(q == p, "Lit +=");
    q -= k;
    check(q == l, "Lit -=");
}
fn lit_fmt(_: [u64; 4]) {
    let i = range(0, 120) as u32;
    let i = concretize(i as u64) as u32;
    let n = choice();
    let l = Lit::new(i, n);
    let s = format!("{l}");
    let want = format!("{}x{}", if n { "~" } else { "" }, i);
    check(s == want, "display");
    check(format!("{l:?}") == want, "debug");
    check(format!("{}", l.var()) == format!("x{i}"), "display of a variable");
}

// ------------------------------------------------------------------ T02
fn put(m: &mut Vec<u8>, v: usize, t: u8) {
    while m.len() <= v {
        m.push(2);
    }
    m[v] = t;
}
fn get(m: &[u8], v: usize) -> u8 {
    if v < m.len() { m[v] } else { 2 }
}
fn asg_ops(a: [u64; 4]) {
    let nv = 3;
    let mut m: Vec<u8> = vec![];
    let mut x = Assignment::default();
    if a[1] == 1 {
        let ts = [tern(), tern()];
        m = ts.iter().map(|t| tv(*t)).collect();
        x = asg(&ts);
    }
    for _ in 0..a[0] {
        match pick(6) {
            0 => {
                let v = pick(nv);
                let t = tern();
                x.assign_var(var(v), t);
                put(&mut m, v, tv(t));
            }
            1 => {
                let v = pick(nv);
                let n = bool_();
                x.assign_lit(lit(v, n));
                put(&mut m, v, n as u8);
            }
            2 => {
                let d = choice();
                x.replace_dont_care(d);
                for t in m.iter_mut() {
                    let nt = ite(*t == 2, !d as u64, *t as u64) as u8;
                    *t = nt;
                }
            }
            3 => {
                let v = pick(nv);
                x = x.truncate(var(v));
                m.truncate(v + 1);
            }
            4 => {
                let v = pick(nv);
                if v < m.len() {
                    let t = tern();
                    x[var(v)] = t;
                    m[v] = tv(t);
                }
            }
            _ => {
                let l = lit(pick(nv), bool_());
                let y: Assignment = x.iter().chain([l]).collect();
                check(tv(y.lit_value(l)) == 0, "collected literal");
            }
        }
    }
    for v in 0..nv + 1 {
        let t = tv(x.var_value(var(v)));
        check(t == get(&m, v), "var_value is the last value written");
        check(tv(x.lit_value(pos(v))) == get(&m, v), "positive literal");
        let want = ite(get(&m, v) == 2, 2, 1 ^ get(&m, v) as u64) as u8;
        check(tv(x.lit_value(neg(v))) == want, "negative literal");
        if v < m.len() {
            check(tv(x[var(v)]) == m[v], "index");
        }
    }
    check(x.len() == m.len(), "len");
    check(x.is_empty() == m.is_empty(), "is_empty");
    check(x.max_var() == (if m.is_empty() { None } else { Some(var(m.len() - 1)) }), "max_var");
    witness(1);
}
fn asg_iter(a: [u64; 4]) {
    let ts: Vec<TernaryVal> = (0..a[0]).map(|_| tern()).collect();
    let x = asg(&ts);
    let ls: Vec<Lit> = x.iter().collect();
    let l2: Vec<Lit> = (&x).into_iter().collect();
    let l3: Vec<Lit> = x.clone().into_iter().collect();
    check(ls == l2 && ls == l3, "the iterators agree");
    let mut k = 0;
    for (i, t) in ts.iter().enumerate() {
        // the path has fixed which values are assigned
        if conc_bool(tv(*t) != 2) {
            check(k < ls.len() && ls[k] == lit(i, tv(*t) == 1), "iteration yields the assigned literals in order");
            k += 1;
        }
    }
    check(k == ls.len(), "nothing else is yielded");
    let back: Assignment = ls.iter().copied().collect();
    for i in 0..ts.len() {
        check(back.var_value(var(i)) == ts[i], "collecting gives the assignment back");
    }
    witness(1);
}
fn asg_from(a: [u64; 4]) {
    let n = a[0] as usize;
    let ts: Vec<TernaryVal> = (0..n).map(|_| tern()).collect();
    let x: Assignment = ts.iter().copied().collect();
    let y = Assignment::from(ts.clone());
    let bs: Vec<bool> = (0..n).map(|_| bool_()).collect();
    let z: Assignment = bs.iter().copied().collect();
    check(x.len() == n && y.len() == n && z.len() == n, "lengths");
    for i in 0..n {
        check(tv(x.var_value(var(i))) == tv(ts[i]), "from ternary values");
        check(tv(y.var_value(var(i))) == tv(ts[i]), "from vector");
        check(tv(z.var_value(var(i))) == !bs[i] as u8, "from booleans");
        let t = ts[i];
        check(tv(!t) == ite(tv(t) == 2, 2, 1 ^ tv(t) as u64) as u8, "negation");
        let d = bool_();
        let want = ite(tv(t) == 2, d as u64, (tv(t) == 0) as u64) != 0;
        check(t.to_bool_with_def(d) == want, "to_bool_with_def");
    }
}

// ------------------------------------------------------------------ T03
/// reference reading of whitespace separated integers
fn ref_ints(s: &[u8]) -> Option<Vec<i64>> {
    let mut out = vec![];
    for t in s.split(|c| *c == b' ' || *c == b'\t' || *c == b'\r') {
        if t.is_empty() {
            continue;
        }
        let (n, d) = match t[0] {
            b'-' => (true, &t[1..]),
            b'+' => (false, &t[1..]),
            _ => (false, t),
        };
        if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let mut v = 0i64;
        for c in d {
            v = v * 10 + (c - b'0') as i64;
            if v > 1 << 40 {
                return None;
            }
        }
        if v > 1 << 31 || (v == 1 << 31 && !n) {
            return None;
        }
        out.push(if n { -v } else { v });
    }
    Some(out)
}
/// what the assignment must be after the literals; None on a conflict
fn ref_assign(m: &mut Vec<(u32, bool)>, ls: &[i64]) -> Option<()> {
    for &x in ls {
        if x == 0 {
            continue;
        }
        let (v, n) = ((x.unsigned_abs() - 1) as u32, x < 0);
        match m.iter().find(|p| p.0 == v) {
            Some(p) if p.1 != n => return None,
            Some(_) => {}
            None => m.push((v, n)),
        }
    }
    Some(())
}
fn same(x: &Assignment, m: &[(u32, bool)], what: &'static str) {
    let mut n = 0;
    for l in x.iter() {
        n += 1;
        check(m.iter().any(|p| p.0 == l.vidx32() && p.1 == l.is_neg()), what);
    }
    check(n == m.len(), what);
}
fn vline_sat(a: [u64; 4]) {
    // 'v 1 ' or 'v' followed by symbolic text
    let alpha: &[u8] = if a[1] == 0 { b"0129- a" } else { b"01-\n v" };
    let mut s: Vec<u8> = if a[2] == 0 { b"v 1 ".to_vec() } else { b"v  ".to_vec() };
    let pre = s.len();
    let sep: Vec<u8> = alpha.iter().copied().filter(|c| !c.is_ascii_digit()).collect();
    // at most three digits in a row keep the variables small
    s.extend((0..a[0]).map(|i| byte_in(if i % 4 == 3 { &sep } else { alpha })));
    let st = std::str::from_utf8(&s).unwrap();
    let mut m = vec![];
    let res = Assignment::from_vline(st);
    // every line must start with v; the rest are integers
    if a[2] != 0 {
        // without the leading literal other formats are possible: not decided here
        let t = &s[1..];
        let t: Vec<u8> = t.iter().copied().collect();
        let t = std::str::from_utf8(&t).unwrap().trim();
        if !t.contains(' ') && t != "0" && t.chars().all(|c| c == '0' || c == '1') {
            return;
        }
    }
    let _ = pre;
    let mut good = true;
    for l in s.strip_suffix(b"\n").unwrap_or(&s).split(|c| *c == b'\n') {
        if l.first() != Some(&b'v') {
            good = false;
            break;
        }
        match ref_ints(&l[1..]) {
            Some(v) => {
                if ref_assign(&mut m, &v).is_none() {
                    good = false;
                    break;
                }
            }
            None => {
                good = false;
                break;
            }
        }
    }
    match res {
        Ok(x) => {
            check(good, "a malformed or conflicting line is rejected");
            // huge variables would allocate; the alphabet keeps them small enough
            same(&x, &m, "exactly the listed literals are assigned");
            witness(1);
        }
        Err(_) => {
            check(!good, "a well-formed line is accepted");
            witness(2);
        }
    }
}
fn vline_mse(a: [u64; 4]) {
    let n = a[0] as usize;
    let mut s: Vec<u8> = b"v ".to_vec();
    let bits: Vec<u8> = (0..n).map(|_| byte_in(b"01")).collect();
    s.extend(&bits);
    if a[1] == 1 {
        s.push(b'\n');
    }
    let st = std::str::from_utf8(&s).unwrap();
    if n == 1 && conc_bool(bits[0] == b'0') {
        // "v 0": the empty SAT competition line
        check(matches!(Assignment::from_vline(st), Ok(x) if x.iter().next().is_none()), "terminator only");
        return;
    }
    match Assignment::from_vline(st) {
        Ok(x) => {
            check(x.len() == n, "one value per digit");
            for i in 0..n {
                check(tv(x.var_value(var(i))) == (bits[i] == b'0') as u8, "digit i is the value of variable i");
            }
            witness(1);
        }
        Err(_) => check(false, "a compact value line is accepted"),
    }
}
fn vline_pb(a: [u64; 4]) {
    // 'v x1 ' followed by symbolic text
    let alpha: &[u8] = b"x-12 ~0";
    let mut s: Vec<u8> = b"v x1 ".to_vec();
    let sep: Vec<u8> = alpha.iter().copied().filter(|c| !c.is_ascii_digit()).collect();
    s.extend((0..a[0]).map(|i| byte_in(if i % 4 == 3 { &sep } else { alpha })));
    let st = std::str::from_utf8(&s).unwrap();
    let res = Assignment::from_vline(st);
    let mut m = vec![];
    let (mut good, mut odd) = (true, false);
    for t in s[1..].split(|c| *c == b' ') {
        if t.is_empty() {
            continue;
        }
        let (mut n, mut r) = (false, t);
        if t[0] == b'-' || t[0] == b'~' {
            n = true;
            r = &t[1..];
        }
        // '-' and '~' negate; the name is x<number>
        if r.len() < 2 || r[0] != b'x' || !r[1..].iter().all(|c| c.is_ascii_digit()) {
            good = false;
            break;
        }
        // leading zeros may or may not be accepted
        odd |= r.len() > 2 && r[1] == b'0';
        let mut v = 0i64;
        for c in &r[1..] {
            v = v * 10 + (c - b'0') as i64;
        }
        if v == 0 {
            good = false;
            break;
        }
        if ref_assign(&mut m, &[if n { -v } else { v }]).is_none() {
            good = false;
            break;
        }
    }
    match res {
        Ok(x) => {
            check(good, "a malformed or conflicting pb line is rejected");
            same(&x, &m, "exactly the listed pb literals are assigned");
            witness(1);
        }
        Err(_) => {
            check(!good | odd, "a well-formed pb line is accepted");
            witness(2);
        }
    }
}
/// vline_ext(format, literals or digits, variables before): further lines extend an assignment
fn vline_ext(a: [u64; 4]) {
    let (n, k) = (a[1] as usize, a[2] as usize);
    let ts: Vec<TernaryVal> = (0..k).map(|_| ctern()).collect();
    let mut x = asg(&ts);
    let mut want: Vec<u8> = ts.iter().map(|t| tv(*t)).collect();
    let mut s: Vec<u8> = b"v ".to_vec();
    let (cut, extra) = if a[0] == 1 { (n, 0) } else { (pick(n + 1), 2) };
    want.resize(k + if a[0] == 1 { n } else { extra }, 2);
    let mut good = true;
    for i in 0..n {
        if i == cut {
            s.extend(b"\nv ");
        }
        let neg = choice();
        if a[0] == 1 {
            // compact lines go on behind the last variable
            s.push(if neg { b'0' } else { b'1' });
            want[k + i] = neg as u8;
            continue;
        }
        let v = pick(k + extra);
        if neg {
            s.push(b'-');
        }
        if a[0] == 2 {
            s.push(b'x');
        }
        s.push(b'1' + v as u8);
        s.push(b' ');
        good &= want[v] == 2 || want[v] == neg as u8;
        want[v] = neg as u8;
    }
    if a[0] == 0 {
        s.push(b'0');
    }
    let st = std::str::from_utf8(&s).unwrap();
    match x.extend_from_vline(st) {
        Ok(()) => {
            check(good, "a value that contradicts the assignment is rejected");
            for (v, w) in want.iter().enumerate() {
                check(tv(x.var_value(var(v))) == *w, "old and new values are kept");
            }
            witness(1);
        }
        Err(_) => {
            check(!good, "a line that agrees with the assignment is accepted");
            witness(2);
        }
    }
}
fn vline_any(a: [u64; 4]) {
    // text with multi-byte characters, wrong tags, control characters: an error or a value, never a crash
    const T: [&str; 9] = ["v", "é", "€", "x", "-", "0", "\n", " ", "9999999999"];
    let mut s = String::new();
    for _ in 0..a[0] {
        s.push_str(T[pick(T.len())]);
    }
    let r = Assignment::from_vline(&s);
    if !s.starts_with('v') {
        check(r.is_err(), "a line that is no value line is rejected");
        witness(1);
    } else if s[1..].contains('é') || s[1..].contains('€') {
        check(r.is_err(), "tokens that are no literals are rejected");
        witness(2);
    }
}

// ------------------------------------------------------------------ C01
fn cl_eval(a: [u64; 4]) {
    let (k, n) = (a[0] as usize, a[1] as usize);
    let ls: Vec<Lit> = (0..k).map(|_| sym_lit(n)).collect();
    let ts: Vec<TernaryVal> = (0..n).map(|_| tern()).collect();
    let (mut t, mut f) = (0, 1);
    for l in &ls {
        t |= is_t(*l, &ts);
        f &= is_f(*l, &ts);
    }
    let c = Clause::from_iter(ls.iter().copied());
    let r = tv(c.evaluate(&asg(&ts)));
    check((r == 0) == (t == 1), "true iff some literal is true");
    check((r == 1) == (f == 1), "false iff all literals are false");
    let r2 = tv(Cl::new(&ls[..]).evaluate(&asg(&ts)));
    check(r == r2, "Cl and Clause agree");
    check(c.len() == k && c.is_unit() == (k == 1) && c.is_binary() == (k == 2) && c.is_empty() == (k == 0), "size queries");
    let mut comp = false;
    for i in 0..k {
        for j in 0..k {
            comp |= ls[i] == !ls[j];
        }
    }
    check(c.is_tautology() == comp, "is_tautology iff complementary literals");
    witness(1);
}
fn cl_norm(a: [u64; 4]) {
    let (k, n) = (a[0] as usize, a[1] as usize);
    let ls: Vec<Lit> = (0..k).map(|_| sym_lit(n)).collect();
    let inp = bits(n);
    let mut comp = false;
    for i in 0..k {
        for j in 0..k {
            comp |= ls[i] == !ls[j];
        }
    }
    let before = clause_val(&ls, &inp);
    match Clause::from_iter(ls.iter().copied()).normalize() {
        None => {
            check(comp, "only tautologies are dropped by normalize");
            witness(1);
        }
        Some(c) => {
            check(!comp, "tautologies are dropped by normalize");
            check(clause_val(c.as_ref(), &inp) == before, "normalize keeps the meaning");
            let v: &[Lit] = c.as_ref();
            for i in 1..v.len() {
                check(v[i - 1] < v[i], "normalized clauses are sorted and duplicate-free");
            }
            witness(2);
        }
    }
    let mut s = Clause::from_iter(ls.iter().copied());
    s.sort();
    check(clause_val(s.as_ref(), &inp) == before && s.len() == k, "sort keeps the meaning");
    for i in 1..k {
        check(s[i - 1] <= s[i], "sorted");
    }
}
fn cl_sanitize(a: [u64; 4]) {
    let (k, n) = (a[0] as usize, a[1] as usize);
    let ls: Vec<Lit> = (0..k).map(|_| pick_lit(n)).collect();
    let inp = bits(n);
    let comp = ls.iter().any(|l| ls.iter().any(|m| *l == !*m));
    let before = clause_val(&ls, &inp);
    match Clause::from_iter(ls.iter().copied()).sanitize() {
        None => check(comp, "only tautologies are dropped by sanitize"),
        Some(c) => {
            check(!comp, "tautologies are dropped by sanitize");
            check(clause_val(c.as_ref(), &inp) == before, "sanitize keeps the meaning");
            let v: &[Lit] = c.as_ref();
            for i in 0..v.len() {
                for j in 0..i {
                    check(v[i] != v[j], "sanitized clauses are duplicate-free");
                }
            }
            witness(1);
        }
    }
}
fn cl_edit(a: [u64; 4]) {
    let (k, n) = (a[0] as usize, a[1] as usize);
    let ls: Vec<Lit> = (0..k).map(|_| sym_lit(n)).collect();
    let inp = bits(n);
    let x = sym_lit(n);
    let mut c = Clause::from_iter(ls.iter().copied());
    let mut cnt = 0u64;
    for l in &ls {
        cnt += (*l == x) as u64;
    }
    let which = pick(4);
    match which {
        0 => {
            c.add(x);
            check(c.len() == k + 1, "add: length");
            check(clause_val(c.as_ref(), &inp) == clause_val(&ls, &inp) | lit_val(x, &inp), "add: meaning");
        }
        1 => {
            let r = c.remove(x);
            check(r == (cnt > 0), "remove reports whether the literal was there");
            check(c.len() as u64 == k as u64 - r as u64, "remove: length");
        }
        2 => {
            let r = c.remove_thorough(x);
            check(r == (cnt > 0), "remove_thorough reports whether the literal was there");
            check(c.len() as u64 == k as u64 - cnt, "remove_thorough: length");
        }
        _ => {
            let d = Clause::from_iter([x, ls[0]]);
            let e = c.clone() | d.clone();
            check(clause_val(e.as_ref(), &inp) == clause_val(&ls, &inp) | clause_val(d.as_ref(), &inp), "clause | clause");
            let e = c.clone() | x;
            check(clause_val(e.as_ref(), &inp) == clause_val(&ls, &inp) | lit_val(x, &inp), "clause | lit");
            let e = x | ls[0];
            check(clause_val(e.as_ref(), &inp) == clause_val(d.as_ref(), &inp), "lit | lit");
            c.extend([x]);
            check(clause_val(c.as_ref(), &inp) == clause_val(&ls, &inp) | lit_val(x, &inp), "extend");
            return;
        }
    }
    // multiplicity of every literal
    for v in 0..n {
        for s in [false, true] {
            let l = lit(v, s);
            let (mut b, mut e) = (0i64, 0i64);
            for m in &ls {
                b += (*m == l) as i64;
            }
            for m in c.iter() {
                e += (*m == l) as i64;
            }
            let d = (l == x) as i64
                * match which {
                    0 => 1,
                    1 => -((cnt > 0) as i64),
                    _ => -(cnt as i64),
                };
            check(e == b + d, "exactly the named literal is added or removed");
        }
    }
    witness(1);
}

// ------------------------------------------------------------------ C02
/// 0: at most, 1: at least, 2: exactly
fn rel(kind: usize, s: i128, b: i128) -> bool {
    match kind {
        0 => s <= b,
        1 => s >= b,
        _ => s == b,
    }
}
fn mk_card(kind: usize, ls: &[Lit], b: usize) -> CardConstraint {
    match kind {
        0 => CardConstraint::new_ub(ls.iter().copied(), b),
        1 => CardConstraint::new_lb(ls.iter().copied(), b),
        _ => CardConstraint::new_eq(ls.iter().copied(), b),
    }
}
fn card_sat(c: &CardConstraint, inp: &[u8]) -> bool {
    let mut s = 0i128;
    for l in c.iter() {
        s += lit_val(*l, inp) as i128;
    }
    let k = match c {
        CardConstraint::Ub(_) => 0,
        CardConstraint::Lb(_) => 1,
        CardConstraint::Eq(_) => 2,
    };
    rel(k, s, c.bound() as i128)
}
fn card_eval(a: [u64; 4]) {
    let n = a[0] as usize;
    let kind = pick(3);
    let ls: Vec<Lit> = (0..n).map(pol_lit).collect();
    let ts: Vec<TernaryVal> = (0..n).map(|_| tern()).collect();
    let b = usize_();
    let (mut lo, mut hi) = (0u64, 0u64);
    for l in &ls {
        lo += is_t(*l, &ts) as u64;
        hi += (is_f(*l, &ts) ^ 1) as u64;
    }
    let (lo, hi, bb) = (lo as i128, hi as i128, b as i128);
    let (all, none) = match kind {
        0 => (hi <= bb, lo > bb),
        1 => (lo >= bb, hi < bb),
        _ => ((lo == bb) & (hi == bb), (bb < lo) | (bb > hi)),
    };
    let r = tv(mk_card(kind, &ls, b).evaluate(&asg(&ts)));
    check((r == 0) == all, "true iff every completion satisfies the constraint");
    check((r == 1) == none, "false iff no completion satisfies the constraint");
    witness(1);
}
fn card_class(a: [u64; 4]) {
    let n = a[0] as usize;
    let kind = pick(3);
    let ls: Vec<Lit> = (0..n).map(pol_lit).collect();
    let b = usize_();
    let c = mk_card(kind, &ls, b);
    let inp = bits(n);
    let sat = card_sat(&c, &inp);
    check(c.bound() == b && c.len() == n && c.n_lits() == n && c.is_empty() == (n == 0), "accessors");
    // the constraint as a set of allowed counts
    let (mut any, mut all) = (false, true);
    for s in 0..=n {
        let r = rel(kind, s as i128, b as i128);
        any |= r;
        all &= r;
    }
    let taut = conc_bool(c.is_tautology());
    let unsat = conc_bool(c.is_unsat());
    if taut {
        check(sat, "is_tautology only if always satisfied");
    } else if kind < 2 {
        check(!all, "a bound that is always satisfied is reported as tautology");
    }
    if unsat {
        check(!sat, "is_unsat only if never satisfied");
    } else {
        check(any, "a constraint that is never satisfied is reported as unsat");
    }
    let (mut allt, mut allf, mut ort) = (true, true, false);
    for l in c.iter() {
        let v = lit_val(*l, &inp) != 0;
        allt &= v;
        allf &= !v;
        ort |= if kind == 0 { !v } else { v };
    }
    let posa = conc_bool(c.is_positive_assignment());
    let nega = conc_bool(c.is_negative_assignment());
    if posa {
        check(sat == allt, "is_positive_assignment only if exactly 'all true'");
    }
    if nega {
        check(sat == allf, "is_negative_assignment only if exactly 'all false'");
    }
    if conc_bool(c.is_clause()) {
        check(sat == ort, "is_clause only if the constraint is a clause");
        match c.clone().into_clause() {
            Ok(cl) => {
                check((clause_val(cl.as_ref(), &inp) != 0) == sat, "into_clause keeps the meaning");
                witness(3);
            }
            Err(_) => check(false, "into_clause succeeds on clauses"),
        }
    } else {
        check(c.clone().into_clause().is_err(), "into_clause refuses other constraints");
    }
    witness(1);
}
fn card_conv(a: [u64; 4]) {
    let n = a[0] as usize;
    let kind = pick(3);
    let ls: Vec<Lit> = (0..n).map(pol_lit).collect();
    let b = usize_();
    let c = mk_card(kind, &ls, b);
    let inp = bits(n + 1);
    let sat = card_sat(&c, &inp);
    match pick(6) {
        0 => {
            let d = c.clone().normalize();
            check(card_sat(&d, &inp) == sat && d.len() == n, "normalize keeps the meaning");
            for i in 1..n {
                check(d.iter().as_slice()[i - 1] <= d.iter().as_slice()[i], "normalized order");
            }
        }
        1 => {
            let x = pol_lit(n);
            let mut d = c.clone();
            d.add([x]);
            let mut s = 0i128;
            for l in ls.iter().chain([&x]) {
                s += lit_val(*l, &inp) as i128;
            }
            check(card_sat(&d, &inp) == rel(kind, s, b as i128), "add extends the constraint by the literal");
            check(d.bound() == b && d.len() == n + 1, "add keeps the bound");
        }
        2 => {
            let b2 = usize_();
            let mut d = c.clone();
            d.set_bound(b2);
            check(d.bound() == b2, "set_bound");
            check(card_sat(&d, &inp) == card_sat(&mk_card(kind, &ls, b2), &inp), "set_bound replaces the bound");
        }
        3 => {
            assume(b <= isize::MAX as usize);
            let p = PbConstraint::from(c.clone());
            check(pb_sat(&p, &inp) == sat, "card to pb keeps the meaning");
        }
        4 => match c.clone() {
            CardConstraint::Ub(u) => {
                let (l, lb) = u.clone().invert().decompose();
                check(card_sat(&CardConstraint::new_lb(l, lb), &inp) == sat, "inverted upper bound");
                let (l, ub) = u.clone().invert().invert().decompose();
                check(card_sat(&CardConstraint::new_ub(l, ub), &inp) == sat, "inverted twice");
                let (l, ub) = u.decompose();
                check(l == ls && ub == b, "decompose");
            }
            CardConstraint::Lb(l0) => {
                assume(b <= n);
                let (l, ub) = l0.clone().invert().decompose();
                check(card_sat(&CardConstraint::new_ub(l, ub), &inp) == sat, "inverted lower bound");
                let (l, lb) = l0.decompose();
                check(l == ls && lb == b, "decompose");
            }
            CardConstraint::Eq(e) => {
                let (lb, ub) = e.clone().split();
                let (lb, ub) = (CardConstraint::Lb(lb), CardConstraint::Ub(ub));
                check((card_sat(&lb, &inp) & card_sat(&ub, &inp)) == sat, "split equality");
                let (l, b2) = e.decompose();
                check(l == ls && b2 == b, "decompose");
            }
        },
        _ => {
            let cl = Clause::from_iter(ls.iter().copied());
            let want = clause_val(&ls, &inp) != 0;
            check(card_sat(&CardConstraint::from(cl.clone()), &inp) == want, "clause to card");
            check(pb_sat(&PbConstraint::from(cl), &inp) == want, "clause to pb");
            let x = sym_lit(n);
            let want = lit_val(x, &inp) != 0;
            check(card_sat(&CardConstraint::new_unit(x), &inp) == want, "unit card");
            check(pb_sat(&PbConstraint::new_unit(x), &inp) == want, "unit pb");
            check(c.clone().into_lits() == ls, "into_lits");
        }
    }
    witness(1);
}

// ------------------------------------------------------------------ C03
fn rel64(kind: usize, s: i64, b: i64) -> bool {
    match kind {
        0 => s <= b,
        1 => s >= b,
        _ => s == b,
    }
}
/// the sums stay far below 2^62 for the coefficient bounds used with this
fn pb_sat(c: &PbConstraint, inp: &[u8]) -> bool {
    let mut s = 0i64;
    for (l, w) in c.iter() {
        s = s.wrapping_add(ite(lit_val(*l, inp) != 0, *w as u64, 0) as i64);
    }
    let k = match c {
        PbConstraint::Ub(_) => 0,
        PbConstraint::Lb(_) => 1,
        PbConstraint::Eq(_) => 2,
    };
    rel64(k, s, c.bound() as i64)
}
/// a signed value of w bits; the execution forks on its sign
fn coef(w: u64) -> isize {
    sbits(w)
}
fn sbits(w: u64) -> isize {
    let neg = choice();
    let m = mag(w - 1) as isize;
    if neg {
        -1 - m
    } else {
        m
    }
}
/// free polarity for the first literal, alternating for the others
fn pol1(v: usize) -> bool {
    if v == 0 {
        choice()
    } else {
        v % 2 == 1
    }
}
fn mk_pb(kind: usize, ls: &[(Lit, isize)], b: isize) -> PbConstraint {
    match kind {
        0 => PbConstraint::new_ub(ls.iter().copied(), b),
        1 => PbConstraint::new_lb(ls.iter().copied(), b),
        _ => PbConstraint::new_eq(ls.iter().copied(), b),
    }
}
fn mk_pb_u(kind: usize, ls: &[(Lit, usize)], b: isize) -> PbConstraint {
    match kind {
        0 => PbConstraint::new_ub_unsigned(ls.iter().copied(), b),
        1 => PbConstraint::new_lb_unsigned(ls.iter().copied(), b),
        _ => PbConstraint::new_eq_unsigned(ls.iter().copied(), b),
    }
}
/// signed coefficients and bound; partial assignment
fn pb_eval(a: [u64; 4]) {
    let (n, w) = (a[0] as usize, a[1]);
    let kind = pick(3);
    let ls: Vec<(Lit, isize)> = (0..n).map(|v| (lit(v, pol1(v)), coef(w))).collect();
    let ts: Vec<TernaryVal> = (0..n).map(|_| ctern()).collect();
    let b = sbits(w);
    let (mut lo, mut hi) = (0i64, 0i64);
    for (l, c) in &ls {
        let (t, f) = (is_t(*l, &ts), is_f(*l, &ts));
        let (dc, neg) = ((t | f) ^ 1, (*c < 0) as u8);
        let c = *c as u64;
        lo = lo.wrapping_add(ite((t | (dc & neg)) != 0, c, 0) as i64);
        hi = hi.wrapping_add(ite((t | (dc & (neg ^ 1))) != 0, c, 0) as i64);
    }
    let bb = b as i64;
    let (all, none) = match kind {
        0 => (hi <= bb, lo > bb),
        1 => (lo >= bb, hi < bb),
        _ => ((lo == bb) & (hi == bb), (bb < lo) | (bb > hi)),
    };
    let r = tv(mk_pb(kind, &ls, b).evaluate(&asg(&ts)));
    if kind < 2 {
        check((r == 0) == all, "true iff every completion satisfies the constraint");
        check((r == 1) == none, "false iff no completion satisfies the constraint");
    } else {
        check((r == 0) == all, "true iff every completion satisfies the equality");
        if conc_bool(r == 1) {
            check(none, "false only if no completion satisfies the equality");
        } else {
            check(!none, "a bound outside the reachable range evaluates to false");
        }
    }
    witness(1);
}
/// unsigned coefficients up to usize, so sums beyond isize::MAX
fn pb_eval_wide(a: [u64; 4]) {
    let n = a[0] as usize;
    let kind = pick(3);
    let ls: Vec<(Lit, usize)> = (0..n).map(|v| (lit(v, choice()), usize_())).collect();
    let mut tot = 0u128;
    for (_, c) in &ls {
        tot += *c as u128;
    }
    assume(tot <= usize::MAX as u128);
    let ts: Vec<TernaryVal> = (0..n).map(|_| ctern()).collect();
    let b = usize_() as isize;
    let (mut lo, mut hi) = (0i128, 0i128);
    for (l, c) in &ls {
        let (t, f) = (is_t(*l, &ts), is_f(*l, &ts));
        lo += ite(t != 0, *c as u64, 0) as i128;
        hi += ite(f != 0, 0, *c as u64) as i128;
    }
    let bb = b as i128;
    let (all, none) = match kind {
        0 => (hi <= bb, lo > bb),
        1 => (lo >= bb, hi < bb),
        _ => ((lo == bb) & (hi == bb), (bb < lo) | (bb > hi)),
    };
    let c = mk_pb_u(kind, &ls, b);
    let r = tv(c.evaluate(&asg(&ts)));
    check((r == 0) == all, "true iff every completion satisfies the constraint");
    check((r == 1) == none, "false iff the bound is out of reach");
    check(c.weight_sum() as u128 == tot && c.bound() == b && c.len() == n, "accessors");
    witness(1);
}
fn pb_class(a: [u64; 4]) {
    let (n, w) = (a[0] as usize, a[1]);
    let kind = pick(3);
    let ls: Vec<(Lit, isize)> = (0..n).map(|v| (lit(v, pol1(v)), coef(w))).collect();
    let b = sbits(w);
    let inp = cbits(n);
    let mut s = 0i64;
    for (l, c) in &ls {
        s = s.wrapping_add(ite(lit_val(*l, &inp) != 0, *c as u64, 0) as i64);
    }
    let sat = rel64(kind, s, b as i64);
    let c = mk_pb(kind, &ls, b);
    check(pb_sat(&c, &inp) == sat, "signed coefficients keep the meaning");
    class(c, kind, sat, &inp);
}
fn pb_class_ub(a: [u64; 4]) {
    let n = a[0] as usize;
    let kind = pick(3);
    let ls: Vec<(Lit, usize)> = (0..n).map(|v| (lit(v, pol1(v)), mag(a[1]) as usize)).collect();
    let b = sbits(a[1]);
    let inp = cbits(n);
    let c = mk_pb_u(kind, &ls, b);
    let sat = pb_sat(&c, &inp);
    class(c, kind, sat, &inp);
}
fn class(c: PbConstraint, kind: usize, sat: bool, inp: &[u8]) {
    // literals as stored
    let (mut allt, mut allf, mut ort, mut wsum) = (true, true, false, 0u64);
    for (l, w) in c.iter() {
        let v = lit_val(*l, inp) != 0;
        allt &= v;
        allf &= !v;
        ort |= if kind == 0 { !v } else { v };
        wsum = wsum.wrapping_add(*w as u64);
    }
    check(c.weight_sum() as u64 == wsum, "weight_sum is the sum of the coefficients");
    let bb = c.bound() as i64;
    match pick(6) {
        0 => {
            if conc_bool(c.is_tautology()) {
                check(sat, "is_tautology only if always satisfied");
                witness(2);
            } else if kind == 0 {
                check(bb < wsum as i64, "an upper bound that is always satisfied is a tautology");
            } else if kind == 1 {
                check(bb > 0, "a lower bound that is always satisfied is a tautology");
            }
        }
        1 => {
            if conc_bool(c.is_unsat()) {
                check(!sat, "is_unsat only if never satisfied");
            } else {
                check(if kind == 0 { bb >= 0 } else { bb <= wsum as i64 }, "an unreachable bound is unsat");
            }
        }
        2 => {
            if conc_bool(c.is_positive_assignment()) {
                check(sat == allt, "is_positive_assignment only if exactly 'all true'");
                witness(3);
            }
        }
        3 => {
            if conc_bool(c.is_negative_assignment()) {
                check(sat == allf, "is_negative_assignment only if exactly 'all false'");
                witness(4);
            }
        }
        4 => {
            if conc_bool(c.is_clause()) {
                check(sat == ort, "is_clause only if the constraint is a clause");
                match c.clone().into_clause() {
                    Ok(cl) => check((clause_val(cl.as_ref(), inp) != 0) == sat, "into_clause keeps the meaning"),
                    Err(_) => check(false, "into_clause succeeds on clauses"),
                }
                witness(5);
            } else {
                check(c.clone().into_clause().is_err(), "into_clause refuses other constraints");
            }
        }
        _ => {
            if conc_bool(c.is_card()) {
                let mut same = true;
                let w0 = c.iter().as_slice()[0].1;
                for (_, w) in c.iter() {
                    same &= *w == w0;
                }
                check(same, "is_card only if all coefficients agree");
                witness(6);
            } else if c.len() > 0 {
                let w0 = c.iter().as_slice()[0].1;
                let mut same = true;
                for (_, w) in c.iter() {
                    same &= *w == w0;
                }
                check(!same, "is_card if all coefficients agree");
            }
        }
    }
    witness(1);
}

// ------------------------------------------------------------------ C04
fn pb_conv(a: [u64; 4]) {
    let (n, w) = (a[0] as usize, a[1]);
    let kind = pick(3);
    let ls: Vec<(Lit, usize)> = (0..n).map(|v| (pol_lit(v), mag(w) as usize)).collect();
    let b = sbits(32);
    let inp = bits(n + 1);
    let c = mk_pb_u(kind, &ls, b);
    let sat = pb_sat(&c, &inp);
    match pick(4) {
        0 => {
            let x = pol_lit(n);
            let wx = sbits(16);
            let mut d = c.clone();
            d.add([(x, wx)]);
            let mut s = ite(lit_val(x, &inp) != 0, wx as u64, 0) as i64;
            for (l, w) in &ls {
                s = s.wrapping_add(ite(lit_val(*l, &inp) != 0, *w as u64, 0) as i64);
            }
            check(pb_sat(&d, &inp) == rel64(kind, s, b as i64), "add extends the constraint by the weighted literal");
            let mut ws = 0u64;
            for (_, w) in d.iter() {
                ws = ws.wrapping_add(*w as u64);
            }
            check(d.weight_sum() as u64 == ws, "add updates the weight sum");
        }
        1 => {
            let b2 = sbits(32);
            let mut d = c.clone();
            d.set_bound(b2);
            check(d.bound() == b2, "set_bound");
            check(pb_sat(&d, &inp) == pb_sat(&mk_pb_u(kind, &ls, b2), &inp), "set_bound replaces the bound");
        }
        2 => match c.clone() {
            PbConstraint::Ub(u) => {
                let inv = PbConstraint::Lb(u.clone().invert());
                check(pb_sat(&inv, &inp) == sat, "inverted upper bound");
                check(inv.weight_sum() == c.weight_sum(), "invert keeps the weight sum");
                let (l, b2) = u.decompose();
                check(l == ls && b2 == b, "decompose");
            }
            PbConstraint::Lb(u) => {
                let inv = PbConstraint::Ub(u.clone().invert());
                check(pb_sat(&inv, &inp) == sat, "inverted lower bound");
                check(inv.weight_sum() == c.weight_sum(), "invert keeps the weight sum");
                let (l, b2) = u.decompose();
                check(l == ls && b2 == b, "decompose");
            }
            PbConstraint::Eq(e) => {
                let (lb, ub) = e.clone().split();
                let (lb, ub) = (PbConstraint::Lb(lb), PbConstraint::Ub(ub));
                check((pb_sat(&lb, &inp) & pb_sat(&ub, &inp)) == sat, "split equality");
                check(lb.weight_sum() == c.weight_sum() && ub.weight_sum() == c.weight_sum(), "split keeps the weight sum");
            }
        },
        _ => {
            let d = mk_pb(kind, &ls.iter().map(|(l, w)| (*l, *w as isize)).collect::<Vec<_>>(), b);
            check(pb_sat(&d, &inp) == sat, "signed and unsigned construction agree");
            let l2: Vec<(Lit, usize)> = c.clone().into_lits().into_iter().collect();
            check(l2 == ls, "into_lits");
        }
    }
    witness(1);
}
fn pb_norm(a: [u64; 4]) {
    let (n, nv, w) = (a[0] as usize, a[1] as usize, a[2]);
    let kind = pick(3);
    let ls: Vec<(Lit, usize)> = (0..n).map(|_| (sym_lit(nv), mag(w) as usize)).collect();
    let b = sbits(32);
    let inp = bits(nv);
    let c = mk_pb_u(kind, &ls, b);
    let d = c.clone().normalize();
    check(pb_sat(&d, &inp) == pb_sat(&c, &inp), "normalize keeps the meaning");
    check(d.weight_sum() == c.weight_sum() && d.bound() == c.bound(), "normalize keeps bound and weight sum");
    let v = d.iter().as_slice();
    for i in 1..v.len() {
        check(v[i - 1].0 < v[i].0, "normalized literals are sorted and merged");
    }
    witness(1);
}
fn pb_card(a: [u64; 4]) {
    let (n, w) = (a[0] as usize, a[1]);
    let kind = pick(3);
    let inp = bits(n);
    if a[2] != 1 {
        // equal or different coefficients
        let w0 = pick(w as usize + 1);
        let ls: Vec<(Lit, usize)> = (0..n).map(|v| (pol_lit(v), if v == 0 || a[2] == 2 { w0 } else { pick(w as usize + 1) })).collect();
        let b = sbits(16);
        let c = mk_pb_u(kind, &ls, b);
        let sat = pb_sat(&c, &inp);
        match c.clone().into_card_constr() {
            Ok(d) => {
                check(card_sat(&d, &inp) == sat, "into_card_constr keeps the meaning");
                witness(1);
            }
            Err(PbToCardError::Tautology) => check(sat, "reported as tautology only if always satisfied"),
            Err(PbToCardError::Unsat) => check(!sat, "reported as unsat only if never satisfied"),
            Err(PbToCardError::NotACard) => {
                check(!c.is_card(), "constraints with one coefficient are converted");
                witness(2);
            }
        }
    } else {
        // repeated literals; the sum must be representable
        let ls: Vec<(Lit, usize)> = (0..n).map(|v| (pol_lit(v), pick(w as usize + 1))).collect();
        let b = sbits(16);
        let c = mk_pb_u(kind, &ls, b);
        let sat = pb_sat(&c, &inp);
        // documented to panic on constraints it cannot represent
        if conc_bool(b < 0) {
            allow_panic(true);
        }
        let d = c.extend_to_card_constr();
        check(card_sat(&d, &inp) == sat, "extend_to_card_constr keeps the meaning");
        witness(3);
    }
}
