//! K01: the C interface. The functions are called as a C program would call them.
use core::ffi::{c_int, c_void};
use rustsat::encodings::pb::{BinaryAdder, DynamicPolyWatchdog, GeneralizedTotalizer};
use rustsat::types::Lit;
use rustsat_capi::encodings::{am1::*, card::*, dpw::*, pb::*, MaybeError};
use symlib::*;

entries!(am1, tot, gte, adder, dpw, prec, limit, literal);

const OK: u8 = MaybeError::Ok as u8;
const NOT_ENCODED: u8 = MaybeError::NotEncoded as u8;
const UNSAT: u8 = MaybeError::Unsat as u8;
const INVALID_STATE: u8 = MaybeError::InvalidState as u8;
const INVALID_LIT: u8 = MaybeError::InvalidLiteral as u8;
const NOT_POW2: u8 = MaybeError::PrecisionNotPow2 as u8;
const DECREASED: u8 = MaybeError::PrecisionDecreased as u8;

extern "C" fn col(l: c_int, d: *mut c_void) {
    unsafe { (*(d as *mut Vec<c_int>)).push(l) }
}
fn d(v: &mut Vec<c_int>) -> *mut c_void {
    v as *mut Vec<c_int> as *mut c_void
}
/// input literals as a C program writes them, variables from 1 on
fn ip(l: Lit) -> c_int {
    let v = l.vidx32() as c_int + 1;
    if l.is_neg() {
        -v
    } else {
        v
    }
}
fn raw(l: c_int) -> u32 {
    ((l.unsigned_abs() - 1) << 1) | (l < 0) as u32
}
fn flat(v: &[c_int]) -> Flat {
    let mut f = Flat::new();
    for l in v {
        f.0.push(if *l == 0 { END } else { raw(*l) });
    }
    check(v.is_empty() || v[v.len() - 1] == 0, "the last clause is terminated");
    f
}
fn with(f: &Flat, a: &[c_int]) -> Flat {
    let mut f = f.clone();
    for l in a {
        check(*l != 0, "assumptions are literals");
        f.raw_clause(&[raw(*l)]);
    }
    f
}
fn fresh(v: &[c_int], first: u32, used: u32, n_in: usize) {
    for l in v {
        let x = l.unsigned_abs();
        check((x <= n_in as u32) | ((x > first) & (x <= used)), "clauses only mention inputs and variables handed out");
    }
}

/// an at-most-one encoding: new, add, encode, drop
macro_rules! amo {
    ($a:expr, $new:ident, $add:ident, $enc:ident, $drop:ident) => {{
        let (n, rep) = ($a[1] as usize, $a[2] as usize);
        let mut ls: Vec<Lit> = (0..n - rep).map(|v| lit(v, choice())).collect();
        for _ in 0..rep {
            ls.push(lit(pick(n - rep), choice()));
        }
        let k = n - pick(3).min(n);
        let first = (n + pick(2)) as u32;
        let inp = bits(first as usize);
        unsafe {
            let e = $new();
            for l in &ls[..k] {
                check($add(e, ip(*l)) as u8 == OK, "a literal is accepted");
            }
            check($add(e, 0) as u8 == INVALID_LIT, "zero is not a literal");
            let mut used = first;
            let mut v: Vec<c_int> = vec![];
            $enc(e, &mut used, col, d(&mut v));
            let s = |k: usize| {
                let mut s = 0u64;
                for l in &ls[..k] {
                    s += lit_val(*l, &inp) as u64;
                }
                s
            };
            check(used >= first, "variables are only added");
            fresh(&v, first, used, n);
            flat(&v).iff(&inp, s(k) <= 1, "the clauses exclude two true literals", "the clauses keep at most one true literal");
            if k < n {
                // the encoding is built anew after adding literals
                for l in &ls[k..] {
                    check($add(e, ip(*l)) as u8 == OK, "a literal is accepted");
                }
                let (f2, mut v2) = (used, vec![]);
                $enc(e, &mut used, col, d(&mut v2));
                fresh(&v2, f2, used, n);
                flat(&v2).iff(&inp, s(n) <= 1, "the clauses exclude two true literals after adding some", "the clauses keep at most one true literal after adding some");
            }
            $drop(e);
        }
    }};
}
/// am1(encoding, n, repetitions)
fn am1(a: [u64; 4]) {
    match a[0] {
        0 => amo!(a, pairwise_new, pairwise_add, pairwise_encode, pairwise_drop),
        1 => amo!(a, ladder_new, ladder_add, ladder_encode, ladder_drop),
        2 => amo!(a, bitwise_new, bitwise_add, bitwise_encode, bitwise_drop),
        3 => amo!(a, commander_new, commander_add, commander_encode, commander_drop),
        4 => amo!(a, bimander_new, bimander_add, bimander_encode, bimander_drop),
        _ => amo!(a, twoproduct_new, twoproduct_add, twoproduct_encode, twoproduct_drop),
    }
    witness(1);
}

/// a totalizer or pseudo-Boolean encoding
trait Api {
    /// literals may be added after encoding
    const EXT: bool;
    const UNIT: bool;
    const LB: bool;
    /// lower bounds next to encoded upper bounds are skipped (known finding)
    const SKIP: bool;
    /// bounds need variables that cannot be reserved (known finding)
    const OUT: bool;
    unsafe fn new() -> *mut Self;
    unsafe fn drop(e: *mut Self);
    unsafe fn add(e: *mut Self, l: c_int, w: usize) -> u8;
    unsafe fn reserve(e: *mut Self, n: &mut u32);
    unsafe fn ub(e: *mut Self, lo: usize, hi: usize, n: &mut u32, v: &mut Vec<c_int>);
    unsafe fn lb(e: *mut Self, lo: usize, hi: usize, n: &mut u32, v: &mut Vec<c_int>);
    unsafe fn en_ub(e: *mut Self, b: usize, v: &mut Vec<c_int>) -> u8;
    unsafe fn en_lb(e: *mut Self, b: usize, v: &mut Vec<c_int>) -> u8;
}
use rustsat::encodings::card::Totalizer;
impl Api for Totalizer {
    const EXT: bool = true;
    const UNIT: bool = true;
    const LB: bool = true;
    const SKIP: bool = false;
    const OUT: bool = false;
    unsafe fn new() -> *mut Self {
        tot_new()
    }
    unsafe fn drop(e: *mut Self) {
        tot_drop(e)
    }
    unsafe fn add(e: *mut Self, l: c_int, _: usize) -> u8 {
        tot_add(e, l) as u8
    }
    unsafe fn reserve(e: *mut Self, n: &mut u32) {
        tot_reserve(e, n)
    }
    unsafe fn ub(e: *mut Self, lo: usize, hi: usize, n: &mut u32, v: &mut Vec<c_int>) {
        tot_encode_ub(e, lo, hi, n, col, d(v))
    }
    unsafe fn lb(e: *mut Self, lo: usize, hi: usize, n: &mut u32, v: &mut Vec<c_int>) {
        tot_encode_lb(e, lo, hi, n, col, d(v))
    }
    unsafe fn en_ub(e: *mut Self, b: usize, v: &mut Vec<c_int>) -> u8 {
        let mut a = c_int::MIN;
        let r = tot_enforce_ub(e, b, &mut a) as u8;
        check(r == OK || a == c_int::MIN, "no assumption is delivered with an error");
        // zero: nothing needs to be assumed
        if r == OK && a != 0 {
            v.push(a);
        }
        r
    }
    unsafe fn en_lb(e: *mut Self, b: usize, v: &mut Vec<c_int>) -> u8 {
        let mut a = c_int::MIN;
        let r = tot_enforce_lb(e, b, &mut a) as u8;
        check(r == OK || a == c_int::MIN, "no assumption is delivered with an error");
        if r == OK && a != 0 {
            v.push(a);
        }
        r
    }
}
macro_rules! pb {
    ($t:ty, $ext:expr, $new:ident, $drop:ident, $add:ident, $res:ident, $ub:ident, $enub:ident $(, $lb:ident, $enlb:ident)?) => {
        impl Api for $t {
            const EXT: bool = $ext;
            const UNIT: bool = false;
            const LB: bool = false $(|| { let _ = $lb; true })?;
            const SKIP: bool = Self::LB;
            const OUT: bool = Self::LB;
            unsafe fn new() -> *mut Self {
                $new()
            }
            unsafe fn drop(e: *mut Self) {
                $drop(e)
            }
            unsafe fn add(e: *mut Self, l: c_int, w: usize) -> u8 {
                $add(e, l, w) as u8
            }
            unsafe fn reserve(e: *mut Self, n: &mut u32) {
                $res(e, n)
            }
            unsafe fn ub(e: *mut Self, lo: usize, hi: usize, n: &mut u32, v: &mut Vec<c_int>) {
                $ub(e, lo, hi, n, col, d(v))
            }
            unsafe fn lb(_e: *mut Self, _lo: usize, _hi: usize, _n: &mut u32, _v: &mut Vec<c_int>) {
                $($lb(_e, _lo, _hi, _n, col, d(_v)))?
            }
            unsafe fn en_ub(e: *mut Self, b: usize, v: &mut Vec<c_int>) -> u8 {
                $enub(e, b, col, d(v)) as u8
            }
            unsafe fn en_lb(_e: *mut Self, _b: usize, _v: &mut Vec<c_int>) -> u8 {
                $(return $enlb(_e, _b, col, d(_v)) as u8;)?
                #[allow(unreachable_code)]
                OK
            }
        }
    };
}
pb!(GeneralizedTotalizer, true, gte_new, gte_drop, gte_add, gte_reserve, gte_encode_ub, gte_enforce_ub);
pb!(BinaryAdder, true, bin_adder_new, bin_adder_drop, bin_adder_add, bin_adder_reserve, bin_adder_encode_ub, bin_adder_enforce_ub, bin_adder_encode_lb, bin_adder_enforce_lb);
pb!(DynamicPolyWatchdog, false, dpw_new, dpw_drop, dpw_add, dpw_reserve, dpw_encode_ub, dpw_enforce_ub);

/// (n, steps, largest weight + 256*first step + 1)
fn run<E: Api>(a: [u64; 4]) {
    let (n0, steps) = (a[0] as usize, a[1] as usize);
    let w = (a[2] & 255) as usize;
    let nmax = n0 + steps;
    let first = (nmax + 1) as u32;
    let inp = bits(first as usize);
    let weight = || if E::UNIT { 1 } else { pick(w + 1) };
    let mut ls: Vec<(Lit, usize)> = vec![];
    unsafe {
        let e = E::new();
        let mut next = 0;
        let mut used = first;
        let mut v: Vec<c_int> = vec![];
        for i in 0..n0 {
            let x = (lit(i, (a[3] >> i) & 1 != 0), weight());
            check(E::add(e, ip(x.0), x.1) == OK, "a literal is accepted");
            ls.push(x);
            next = i + 1;
        }
        let (mut ub, mut lb): (Option<(usize, usize)>, Option<(usize, usize)>) = (None, None);
        // every upper bound encoded so far, for the known finding
        let mut ubs: Vec<(usize, usize)> = vec![];
        let mut reserved = false;
        let mut built = false;
        for step in 0..steps {
            let total: usize = ls.iter().map(|x| x.1).sum();
            let nops = if E::LB { 4 } else { 3 };
            let op = if step == 0 && a[2] >> 8 != 0 { (a[2] >> 8) as usize - 1 } else { pick(nops) };
            (ub, lb) = (None, None);
            let before = (used, v.len());
            match op {
                0 => {
                    check(E::add(e, 0, 1) == INVALID_LIT, "zero is not a literal");
                    let x = (if next > 0 && !E::UNIT && choice() { ls[0].0 } else { lit(next, (a[3] >> next) & 1 != 0) }, weight());
                    let r = E::add(e, ip(x.0), x.1);
                    if E::EXT || !built {
                        check(r == OK, "a literal is accepted");
                    }
                    if r == OK {
                        ls.push(x);
                        next = next.max(x.0.vidx() + 1);
                        reserved = false;
                        if x.1 > 0 {
                            ubs.clear();
                        }
                    } else {
                        check(r == INVALID_STATE, "a refused literal is reported");
                    }
                    check(before == (used, v.len()), "adding a literal creates no variables or clauses");
                }
                1 => {
                    let before = used;
                    E::reserve(e, &mut used);
                    check(used >= before, "variables are only added");
                    reserved = true;
                    built = true;
                }
                o => {
                    let lo = pick(total + 2);
                    let hi = match pick(3) {
                        0 => lo,
                        1 => lo + 1,
                        _ => usize::MAX - 1,
                    };
                    built = true;
                    if o == 2 {
                        E::ub(e, lo, hi, &mut used, &mut v);
                        if E::OUT {
                            // the comparator outputs of the adder are not reserved
                            if reserved && used != before.0 && choice() {
                                known("adder-reserve", true);
                                check(false, "no variables are needed after reserving them");
                            }
                        } else {
                            check(!reserved || used == before.0, "no variables are needed after reserving them");
                        }
                        ub = Some((lo, hi));
                        ubs.push((lo, hi));
                    } else {
                        E::lb(e, lo, hi, &mut used, &mut v);
                        lb = Some((lo, hi));
                    }
                    check(used >= before.0, "variables are only added");
                }
            }
        }
        fresh(&v, first, used, nmax);
        let f = flat(&v);
        f.exists(&inp, true, "the clauses alone exclude no input assignment");
        let total: usize = ls.iter().map(|x| x.1).sum();
        let mut s = 0u64;
        for (l, w) in &ls {
            s += lit_val(*l, &inp) as u64 * *w as u64;
        }
        for b in (0..total + 2).chain([usize::MAX]) {
            let mut a = vec![];
            match E::en_ub(e, b, &mut a) {
                OK => with(&f, &a).iff(&inp, s <= b as u64, "the enforced upper bound excludes larger sums", "the enforced upper bound keeps every sum up to the bound"),
                r => {
                    check(r == NOT_ENCODED, "an unavailable upper bound is reported as not encoded");
                    check(a.is_empty(), "no assumption is delivered with an error");
                    check(b < total && !ub.is_some_and(|(lo, hi)| lo <= b && b <= hi), "an encoded or trivial upper bound can be enforced");
                }
            }
            if E::LB {
                let mut a = vec![];
                match E::en_lb(e, b, &mut a) {
                    OK => with(&f, &a).iff(&inp, s >= b as u64, "the enforced lower bound excludes smaller sums", "the enforced lower bound keeps every sum from the bound on"),
                    UNSAT => {
                        check(a.is_empty(), "no assumption is delivered with an error");
                        check(b > total, "a lower bound reported unsatisfiable is");
                    }
                    r => {
                        check(r == NOT_ENCODED, "an unavailable lower bound is reported as not encoded");
                        check(a.is_empty(), "no assumption is delivered with an error");
                        let want = lb.is_some_and(|(lo, hi)| lo <= b && b <= hi);
                        if want && E::SKIP && b > 0 && ubs.iter().any(|(lo, hi)| *lo <= b - 1 && b - 1 <= *hi) {
                            if choice() {
                                known("adder-skipped-lb", true);
                                check(false, "an encoded bound can be enforced");
                            }
                        } else {
                            check(b > 0 && b <= total && !want, "an encoded or trivial lower bound can be enforced");
                        }
                    }
                }
            }
        }
        E::drop(e);
    }
    witness(1);
}
fn tot(a: [u64; 4]) {
    run::<Totalizer>(a)
}
fn gte(a: [u64; 4]) {
    run::<GeneralizedTotalizer>(a)
}
fn adder(a: [u64; 4]) {
    run::<BinaryAdder>(a)
}
fn dpw(a: [u64; 4]) {
    run::<DynamicPolyWatchdog>(a)
}

unsafe fn watchdog(n: usize, w: usize) -> (*mut DynamicPolyWatchdog, Vec<(Lit, usize)>) {
    let e = dpw_new();
    let mut ls = vec![];
    let mut last = 0;
    for i in 0..n {
        last += pick(w + 1 - last);
        ls.push((lit(i, i % 2 != 0), last));
        check(dpw_add(e, ip(ls[i].0), last) as u8 == OK, "a literal is accepted");
    }
    (e, ls)
}
/// prec(n, largest weight, first precision exponent): precisions of the watchdog
fn prec(a: [u64; 4]) {
    let n = a[0] as usize;
    let first = n as u32 + 1;
    let inp = bits(first as usize);
    unsafe {
        let (e, ls) = watchdog(n, a[1] as usize);
        let mut used = first;
        let mut v: Vec<c_int> = vec![];
        let mut p = 1usize << a[2];
        check(dpw_set_precision(e, p) as u8 == OK, "a power of two is accepted");
        for st in 0..2 {
            if st > 0 {
                let q = pick(2 * p + 3);
                let r = dpw_set_precision(e, q) as u8;
                if q != 0 && !q.is_power_of_two() {
                    check(r == NOT_POW2, "a precision that is no power of two is reported");
                } else if q > p && r == DECREASED {
                } else {
                    check(q <= p || v.is_empty(), "a decreased precision is reported");
                    check(r == OK, "an increased precision is accepted");
                    p = q.max(1);
                }
            }
            let np = dpw_next_precision(e);
            check(np.is_power_of_two(), "the next precision is a power of two");
            let total: usize = ls.iter().map(|x| x.1 / p).sum();
            let lo = pick(total + 2);
            dpw_encode_ub(e, lo, total + 1, &mut used, col, d(&mut v));
            check(lo >= total || ls.iter().filter(|x| x.1 > 0).count() < 2 || dpw_is_max_precision(e) || p > 1, "the highest precision is recognized");
            if dpw_is_max_precision(e) {
                check(dpw_next_precision(e) == 1, "no further precision follows the highest");
                for (_, w) in &ls {
                    check(*w % p == 0, "at the highest precision no weight is rounded");
                }
            }
            let mut s = 0u64;
            for (l, w) in &ls {
                s += lit_val(*l, &inp) as u64 * (*w / p) as u64;
            }
            let f = flat(&v);
            f.exists(&inp, true, "the clauses alone exclude no input assignment");
            for b in lo..total + 2 {
                let mut x = vec![];
                check(dpw_enforce_ub(e, b, col, d(&mut x)) as u8 == OK, "an encoded upper bound can be enforced");
                with(&f, &x).iff(&inp, s <= b as u64, "the enforced upper bound excludes larger sums of divided weights", "the enforced upper bound keeps every sum of divided weights up to the bound");
                let c = dpw_coarse_ub(e, b);
                check(c <= b, "the coarse bound is not above the bound");
                let mut y = vec![];
                if c < b && dpw_enforce_ub(e, c, col, d(&mut y)) as u8 == OK {
                    check(y.len() <= 1, "a coarse bound needs no tares");
                }
            }
        }
        dpw_drop(e);
    }
    witness(1);
}
/// limit(n, largest weight): limiting the range of the watchdog
fn limit(a: [u64; 4]) {
    let n = a[0] as usize;
    let first = n as u32 + 1;
    let inp = bits(first as usize);
    unsafe {
        let (e, ls) = watchdog(n, a[1] as usize);
        let total: usize = ls.iter().map(|x| x.1).sum();
        let mut used = first;
        let mut v: Vec<c_int> = vec![];
        dpw_encode_ub(e, 0, total, &mut used, col, d(&mut v));
        let lo = pick(total + 2);
        let hi = if choice() { usize::MAX } else { lo + pick(total + 3 - lo) };
        dpw_limit_range(e, lo, hi, col, d(&mut v));
        fresh(&v, first, used, n);
        let mut s = 0u64;
        for (l, w) in &ls {
            s += lit_val(*l, &inp) as u64 * *w as u64;
        }
        let inr = (s >= lo as u64) & (s <= hi as u64);
        let f = flat(&v);
        f.exists(&inp, inr, "limiting the range excludes no assignment in the range");
        for b in lo..hi.min(total) + 1 {
            let mut x = vec![];
            check(dpw_enforce_ub(e, b, col, d(&mut x)) as u8 == OK, "an encoded upper bound can be enforced");
            let g = with(&f, &x);
            g.implies(&inp, s <= b as u64, "the enforced upper bound excludes larger sums");
            g.exists(&inp, inr & (s <= b as u64), "the enforced upper bound keeps every sum in the range up to the bound");
        }
        dpw_drop(e);
    }
    witness(1);
}
/// literal(encoding): every integer given as a literal
fn literal(a: [u64; 4]) {
    let x = u32_() as c_int;
    // IPASIR literals can be negated
    assume(x != c_int::MIN);
    let valid = (x != 0) & (x.unsigned_abs().wrapping_sub(1) <= rustsat::types::Var::MAX_IDX);
    let valid = conc_bool(valid);
    unsafe {
        macro_rules! go {
            ($new:ident, $add:ident, $enc:ident, $drop:ident) => {{
                let e = $new();
                check($add(e, 5) as u8 == OK, "a literal is accepted");
                let r = $add(e, x) as u8;
                check(r == if valid { OK } else { INVALID_LIT }, "exactly the valid literals are accepted");
                let (mut used, mut v) = (rustsat::types::Var::MAX_IDX, vec![]);
                $enc(e, &mut used, col, d(&mut v));
                if valid {
                    check(v.len() == 3 && v[2] == 0, "two literals give one clause");
                    check(((v[0] == -5) & (v[1] == -x)) | ((v[1] == -5) & (v[0] == -x)), "the clause excludes both literals");
                } else {
                    check(v.is_empty(), "an invalid literal is not encoded");
                }
                $drop(e);
            }};
        }
        match a[0] {
            0 => go!(pairwise_new, pairwise_add, pairwise_encode, pairwise_drop),
            _ => {
                let e = tot_new();
                check(tot_add(e, x) as u8 == if valid { OK } else { INVALID_LIT }, "exactly the valid literals are accepted");
                let (mut used, mut v) = (7, vec![]);
                tot_encode_ub(e, 0, 0, &mut used, col, d(&mut v));
                let mut y = vec![];
                check(Totalizer::en_ub(e, 0, &mut y) == OK, "the bound is encoded");
                if valid {
                    check(v.is_empty() && used == 7, "a single literal needs no clauses");
                    check(y.len() == 1 && y[0] == -x, "the assumption is the negated literal");
                } else {
                    check(y.is_empty() && v.is_empty(), "an invalid literal is not encoded");
                }
                tot_drop(e);
            }
        }
    }
    witness(1 + valid as u64);
}
