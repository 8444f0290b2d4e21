//! Hash-consed bit-vector expression DAG with eager simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum O {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    Sym(u32),
    B(O, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    Z(E),
    S(E),
    Ex(E, u32), // extract starting at bit
    Cat(E, E),  // hi, lo
}
pub struct Info {
    pub n: N,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    /// interval of the signed value
    pub slo: i128,
    pub shi: i128,
    pub sup: u32,
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn sfull(w: u32) -> (i128, i128) {
    if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Rel {
    Lt,
    Le,
    Eq,
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Ex {
    pub v: Vec<Info>,
    map: HashMap<(N, u32), E>,
    pub syms: Vec<u32>, // width by symbol
    pub sym_e: Vec<E>,
    pub sups: Vec<Box<[u32]>>,
    supmap: HashMap<Box<[u32]>, u32>,
    supun: HashMap<(u32, u32), u32>,
    memo: Vec<(u64, u128)>,
    inlin: bool,
}

pub fn ev2(o: O, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match o {
        O::Add => a.wrapping_add(b),
        O::Sub => a.wrapping_sub(b),
        O::Mul => a.wrapping_mul(b),
        O::UDiv => if b == 0 { m } else { a / b },
        O::URem => if b == 0 { a } else { a % b },
        O::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        O::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        O::Shl => if b >= w as u128 { 0 } else { a << b },
        O::LShr => if b >= w as u128 { 0 } else { a >> b },
        O::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        O::And => a & b,
        O::Or => a | b,
        O::Xor => a ^ b,
    }) & m
}

impl Ex {
    pub fn new() -> Ex {
        let mut x = Ex {
            v: vec![],
            map: HashMap::new(),
            syms: vec![],
            sym_e: vec![],
            sups: vec![],
            supmap: HashMap::new(),
            supun: HashMap::new(),
            memo: vec![],
            inlin: false,
        };
        x.sups.push(Box::new([]));
        x.supmap.insert(Box::new([]), 0);
        x
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.supun.get(&k) {
            return r;
        }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let v: Box<[u32]> = v.into();
        let r = match self.supmap.get(&v) {
            Some(&r) => r,
            None => {
                let r = self.sups.len() as u32;
                self.sups.push(v.clone());
                self.supmap.insert(v, r);
                r
            }
        };
        self.supun.insert(k, r);
        r
    }
    pub fn sup(&self, e: E) -> &[u32] {
        &self.sups[self.v[e as usize].sup as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.v[e as usize].w
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        if let N::C(v) = self.v[e as usize].n { Some(v) } else { None }
    }
    fn n(&self, e: E) -> N {
        self.v[e as usize].n
    }
    pub fn new_sym(&mut self, idx: u32, w: u32) -> E {
        // symbols are identified by (creation index on the path, width)
        let _ = idx;
        let s = self.syms.len() as u32;
        self.syms.push(w);
        let e = self.v.len() as E;
        let set: Box<[u32]> = Box::new([s]);
        let sup = self.sups.len() as u32;
        self.sups.push(set.clone());
        self.supmap.insert(set, sup);
        let (slo, shi) = sfull(w);
        self.v.push(Info { n: N::Sym(s), w, lo: 0, hi: mask(w), slo, shi, sup });
        self.memo.push((0, 0));
        self.map.insert((N::Sym(s), w), e);
        self.sym_e.push(e);
        e
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.raw(N::C(v & mask(w)), w)
    }
    fn raw(&mut self, n: N, w: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let m = mask(w);
        let (lo, hi, sup) = match n {
            N::C(v) => (v, v, 0),
            N::Sym(_) => (0, m, 0),
            N::B(o, a, b) => {
                let (al, ah) = (self.v[a as usize].lo, self.v[a as usize].hi);
                let (bl, bh) = (self.v[b as usize].lo, self.v[b as usize].hi);
                let s = self.union(self.v[a as usize].sup, self.v[b as usize].sup);
                let (l, h) = match o {
                    O::Add => match ah.checked_add(bh) {
                        Some(h) if h <= m => (al + bl, h),
                        _ => {
                            // both always wrap?
                            match al.checked_add(bl) {
                                Some(l) if w < 128 && l > m && ah + bh <= m + m + 1 => (l & m, (ah + bh) & m),
                                _ => (0, m),
                            }
                        }
                    },
                    O::Sub => if al >= bh { (al - bh, ah - bl) } else { (0, m) },
                    O::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => (0, m),
                    },
                    O::UDiv => if bl > 0 { (al / bh, ah / bl) } else { (0, m) },
                    O::URem => if bl > 0 { (0, ah.min(bh - 1)) } else { (0, m) },
                    O::And => (0, ah.min(bh)),
                    O::Or | O::Xor => {
                        let t = ah | bh;
                        let k = 128 - t.leading_zeros();
                        (if o == O::Or { al.max(bl) } else { 0 }, if k >= 128 { m } else { ((1u128 << k) - 1).min(m) })
                    }
                    O::LShr => {
                        if let Some(k) = self.cv(b) {
                            if k < w as u128 { (al >> k, ah >> k) } else { (0, 0) }
                        } else {
                            (0, ah)
                        }
                    }
                    O::Shl => {
                        if let Some(k) = self.cv(b) {
                            if k < w as u128 && ah.leading_zeros() as u128 > k && (ah << k) <= m { (al << k, ah << k) } else { (0, m) }
                        } else {
                            (0, m)
                        }
                    }
                    _ => (0, m),
                };
                (l, h, s)
            }
            N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) => {
                (0, 1, self.union(self.v[a as usize].sup, self.v[b as usize].sup))
            }
            N::Ite(c, a, b) => {
                let s = self.union(self.v[a as usize].sup, self.v[b as usize].sup);
                let s = self.union(s, self.v[c as usize].sup);
                let (x, y) = (&self.v[a as usize], &self.v[b as usize]);
                (x.lo.min(y.lo), x.hi.max(y.hi), s)
            }
            N::Z(a) => (self.v[a as usize].lo, self.v[a as usize].hi, self.v[a as usize].sup),
            N::S(a) => {
                let aw = self.w(a);
                let i = &self.v[a as usize];
                if i.hi <= mask(aw - 1) { (i.lo, i.hi, i.sup) } else { (0, m, i.sup) }
            }
            N::Ex(a, lo) => {
                let i = &self.v[a as usize];
                if lo == 0 && i.hi <= m { (i.lo, i.hi, i.sup) } else if i.hi >> lo <= m { (i.lo >> lo, i.hi >> lo, i.sup) } else { (0, m, i.sup) }
            }
            N::Cat(h, l) => {
                let lw = self.w(l);
                let (x, y) = (&self.v[h as usize], &self.v[l as usize]);
                let r = (x.lo << lw | y.lo, x.hi << lw | y.hi);
                (r.0, r.1, self.union(self.v[h as usize].sup, self.v[l as usize].sup))
            }
        };
        if lo == hi && !matches!(n, N::C(_)) {
            return self.c(lo, w);
        }
        let (slo, shi) = self.srange(&n, w, lo, hi);
        let e = self.v.len() as E;
        self.v.push(Info { n, w, lo, hi, slo, shi, sup });
        self.memo.push((0, 0));
        self.map.insert((n, w), e);
        e
    }
    fn srange(&self, n: &N, w: u32, lo: u128, hi: u128) -> (i128, i128) {
        let full = sfull(w);
        if hi <= mask(w - 1) {
            return (lo as i128, hi as i128);
        }
        if lo > mask(w - 1) {
            return (sx(lo, w), sx(hi, w));
        }
        let s = |e: E| (self.v[e as usize].slo, self.v[e as usize].shi);
        let fit = |l: Option<i128>, h: Option<i128>| match (l, h) {
            (Some(l), Some(h)) if l >= full.0 && h <= full.1 => (l, h),
            _ => full,
        };
        match *n {
            N::B(O::Add, a, b) => fit(s(a).0.checked_add(s(b).0), s(a).1.checked_add(s(b).1)),
            N::B(O::Sub, a, b) => fit(s(a).0.checked_sub(s(b).1), s(a).1.checked_sub(s(b).0)),
            N::B(O::Mul, a, b) => {
                let (p, q) = (s(a), s(b));
                let c = [p.0.checked_mul(q.0), p.0.checked_mul(q.1), p.1.checked_mul(q.0), p.1.checked_mul(q.1)];
                if c.iter().any(|x| x.is_none()) {
                    return full;
                }
                fit(c.iter().map(|x| x.unwrap()).min(), c.iter().map(|x| x.unwrap()).max())
            }
            N::S(a) => s(a),
            N::Ite(_, a, b) => (s(a).0.min(s(b).0), s(a).1.max(s(b).1)),
            _ => full,
        }
    }
    /// Adds `c * value(e)` to the linear form, where value is the signed or
    /// unsigned integer value of `e`; goes through operators that provably do not wrap.
    fn lin(&self, e: E, sg: bool, c: i128, acc: &mut Vec<(E, i128)>, k: &mut i128) -> bool {
        let i = &self.v[e as usize];
        let w = i.w;
        let val = |x: u128| if sg { sx(x, w) } else { x as i128 };
        match i.n {
            N::C(x) => {
                let v = val(x);
                if v.abs() > 1 << 80 {
                    return false;
                }
                *k += c * v;
                return true;
            }
            N::B(o @ (O::Add | O::Sub | O::Mul), a, b) => {
                let (p, q) = (&self.v[a as usize], &self.v[b as usize]);
                let small = |i: &Info| if sg { i.slo >= -(1 << 80) && i.shi <= 1 << 80 } else { i.hi <= 1 << 80 };
                let exact = if !small(p) || !small(q) {
                    false
                } else if sg {
                    let r = match o {
                        O::Add => (p.slo + q.slo, p.shi + q.shi),
                        O::Sub => (p.slo - q.shi, p.shi - q.slo),
                        _ => match self.cv(b) {
                            Some(y) if w <= 64 || y < 1 << 40 => {
                                let y = sx(y, w);
                                if y >= 0 { (p.slo * y, p.shi * y) } else { (p.shi * y, p.slo * y) }
                            }
                            _ => (i128::MIN, i128::MAX),
                        },
                    };
                    let f = sfull(w);
                    r.0 >= f.0 && r.1 <= f.1
                } else {
                    match o {
                        O::Add => p.hi + q.hi <= mask(w),
                        O::Sub => p.lo >= q.hi,
                        _ => matches!(self.cv(b), Some(y) if y < 1 << 40 && p.hi * y <= mask(w)),
                    }
                };
                if exact {
                    if o == O::Mul {
                        let y = val(self.cv(b).unwrap());
                        if c.abs() < 1 << 40 && y.abs() < 1 << 40 {
                            return self.lin(a, sg, c * y, acc, k);
                        }
                    } else {
                        return self.lin(a, sg, c, acc, k) && self.lin(b, sg, if o == O::Sub { -c } else { c }, acc, k);
                    }
                }
            }
            N::B(O::Shl, a, b) if w <= 64 => {
                if let Some(y) = self.cv(b) {
                    let p = &self.v[a as usize];
                    if y < 20 && c.abs() < 1 << 40 && ((sg && p.slo << y >= sfull(w).0 && p.shi << y <= sfull(w).1) || (!sg && p.hi << y <= mask(w))) {
                        return self.lin(a, sg, c << y, acc, k);
                    }
                }
            }
            N::S(a) if sg || self.v[a as usize].slo >= 0 => return self.lin(a, true, c, acc, k),
            N::Z(a) => {
                let p = &self.v[a as usize];
                if p.w > 1 {
                    return self.lin(a, p.hi <= mask(p.w - 1), c, acc, k);
                }
            }
            _ => {}
        }
        if (sg && (i.slo < -(1 << 80) || i.shi > 1 << 80)) || (!sg && i.hi > 1 << 80) {
            return false;
        }
        // an atom: remember its mode by keeping only unambiguous ones
        if !sg && i.hi > mask(w - 1) {
            // unsigned atom above the signed range: encode as a Z node of the atom
            if let Some(&z) = self.map.get(&(N::Z(e), w + 1)) {
                acc.push((z, c));
                return true;
            }
            return false;
        }
        acc.push((e, c));
        acc.len() < 40
    }
    fn compound(&self, e: E) -> bool {
        match self.n(e) {
            N::B(O::Add | O::Sub | O::Mul, _, _) => true,
            N::B(O::Shl, _, b) => self.cv(b).is_some(),
            N::S(a) | N::Z(a) => self.compound(a),
            _ => false,
        }
    }
    /// Canonical narrow form of a comparison of linear terms
    fn lincmp(&mut self, rel: Rel, sg: bool, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if self.inlin || !(24..=128).contains(&w) || !(self.compound(a) || self.compound(b)) {
            return None;
        }
        {
            let (mut acc, mut k) = (vec![], 0i128);
            if !self.lin(a, sg, 1, &mut acc, &mut k) || !self.lin(b, sg, -1, &mut acc, &mut k) {
                return None;
            }
            acc.sort_unstable();
            let mut t: Vec<(E, i128)> = vec![];
            for (e, c) in acc {
                match t.last_mut() {
                    Some(l) if l.0 == e => l.1 += c,
                    _ => t.push((e, c)),
                }
            }
            t.retain(|x| x.1 != 0);
            // sum t + k  rel  0
            let mut kk = -k; // sum t rel kk
            if t.is_empty() {
                let r = match rel {
                    Rel::Lt => 0 < kk,
                    Rel::Le => 0 <= kk,
                    Rel::Eq => 0 == kk,
                };
                return Some(self.c(r as u128, 1));
            }
            if rel == Rel::Lt {
                kk -= 1; // sum <= kk
            }
            let mut neg = false;
            if t[0].1 < 0 {
                for x in t.iter_mut() {
                    x.1 = -x.1;
                }
                if rel == Rel::Eq {
                    kk = -kk;
                } else {
                    // -S <= kk  <=>  S >= -kk  <=>  not (S <= -kk - 1)
                    kk = -kk - 1;
                    neg = true;
                }
            }
            let g = t.iter().fold(0i128, |g, x| gcd(g, x.1));
            if g > 1 {
                if rel == Rel::Eq {
                    if kk % g != 0 {
                        return Some(self.c(0, 1));
                    }
                }
                kk = kk.div_euclid(g);
                for x in t.iter_mut() {
                    x.1 /= g;
                }
            }
            let (mut lo, mut hi) = (0i128, 0i128);
            let (mut pm, mut nm) = (kk.abs(), kk.abs());
            for &(e, c) in &t {
                let i = &self.v[e as usize];
                let (p, q) = (i.slo.checked_mul(c)?, i.shi.checked_mul(c)?);
                lo += p.min(q);
                hi += p.max(q);
                let m = p.abs().max(q.abs());
                if c > 0 { pm += m } else { nm += m }
            }
            let verdict = match rel {
                Rel::Eq => if kk < lo || kk > hi { Some(false) } else { None },
                _ => if hi <= kk { Some(true) } else if lo > kk { Some(false) } else { None },
            };
            if let Some(v) = verdict {
                return Some(self.c((v != neg) as u128, 1));
            }
            let big = pm.max(nm);
            let bits = (128 - (big as u128).leading_zeros()) + 1;
            if bits > 72 {
                return None;
            }
            let nw = bits;
            let mut side = [None::<E>; 2];
            for &(e, c) in &t {
                let ew = self.w(e);
                let x = if ew >= nw { self.extract(e, 0, nw) } else { self.sext(e, nw) };
                let ca = self.c(c.unsigned_abs(), nw);
                let x = self.bin(O::Mul, x, ca);
                let j = (c < 0) as usize;
                side[j] = Some(match side[j] {
                    Some(p) => self.bin(O::Add, p, x),
                    None => x,
                });
            }
            let p = side[0].unwrap();
            let kc = self.c(kk as u128, nw);
            let q = match side[1] {
                Some(q) => self.bin(O::Add, q, kc),
                None => kc,
            };
            Some(self.nolin(|s| match (rel, neg) {
                (Rel::Eq, _) => s.eq_(p, q),
                (_, false) => s.sle_(p, q),
                _ => s.slt_(q, p),
            }))
        }
    }
    fn nolin(&mut self, f: impl FnOnce(&mut Ex) -> E) -> E {
        let old = std::mem::replace(&mut self.inlin, true);
        let r = f(self);
        self.inlin = old;
        r
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.lincmp(Rel::Eq, true, a, b) {
            return r;
        }
        self.eq_(a, b)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.lincmp(Rel::Lt, true, a, b) {
            return r;
        }
        self.slt_(a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.lincmp(Rel::Le, true, a, b) {
            return r;
        }
        self.sle_(a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.lincmp(Rel::Lt, false, a, b) {
            return r;
        }
        self.ult_(a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.lincmp(Rel::Le, false, a, b) {
            return r;
        }
        self.ule_(a, b)
    }
    pub fn not1(&mut self, a: E) -> E {
        let one = self.c(1, 1);
        self.bin(O::Xor, a, one)
    }
    pub fn bin(&mut self, o: O, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = ev2(o, x, y, w);
            return self.c(r, w);
        }
        if matches!(o, O::Add | O::Mul | O::And | O::Or | O::Xor) && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.cv(b);
        let ka = self.cv(a);
        match o {
            O::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    // (k2 - x) + k
                    if let N::B(O::Sub, x, y) = self.n(a) {
                        if let Some(k2) = self.cv(x) {
                            let c = self.c(k.wrapping_add(k2), w);
                            return self.bin(O::Sub, c, y);
                        }
                    }
                    if let N::B(O::Add, x, y) = self.n(a) {
                        if let Some(k2) = self.cv(y) {
                            let c = self.c(k.wrapping_add(k2), w);
                            return self.bin(O::Add, x, c);
                        }
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cv(x).is_some() && self.cv(y).is_some() {
                            let (p, q) = (self.bin(O::Add, x, b), self.bin(O::Add, y, b));
                            return self.ite(c, p, q);
                        }
                    }
                }
                // x + (y - x) = y
                if let N::B(O::Sub, y, x) = self.n(b) {
                    if x == a {
                        return y;
                    }
                }
                if let N::B(O::Sub, y, x) = self.n(a) {
                    if x == b {
                        return y;
                    }
                }
                if w == 1 {
                    return self.bin(O::Xor, a, b);
                }
            }
            O::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    let c = self.c(k.wrapping_neg(), w);
                    return self.bin(O::Add, a, c);
                }
                if let N::B(O::Sub, x, y) = self.n(b) {
                    if let Some(k2) = self.cv(x) {
                        // a - (k2 - y)
                        let s = self.bin(O::Add, a, y);
                        let c = self.c(k2.wrapping_neg(), w);
                        return self.bin(O::Add, s, c);
                    }
                }
                if let Some(k) = ka {
                    if let N::B(O::Add, x, y) = self.n(b) {
                        if let Some(k2) = self.cv(y) {
                            let c = self.c(k.wrapping_sub(k2), w);
                            return self.bin(O::Sub, c, x);
                        }
                    }
                }
                // (x + y) - x
                if let N::B(O::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if let N::B(O::Add, x2, y2) = self.n(b) {
                        if x == x2 {
                            return self.bin(O::Sub, y, y2);
                        }
                    }
                }
                if let N::B(O::Add, x, y) = self.n(b) {
                    if x == a {
                        let z = self.c(0, w);
                        if self.cv(y).is_some() {
                            return self.bin(O::Sub, z, y);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(O::Xor, a, b);
                }
            }
            O::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(O::Shl, a, s);
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cv(x).is_some() && self.cv(y).is_some() {
                            let (p, q) = (self.bin(O::Mul, x, b), self.bin(O::Mul, y, b));
                            return self.ite(c, p, q);
                        }
                    }
                }
            }
            O::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(O::LShr, a, s);
                    }
                }
            }
            O::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(O::And, a, s);
                    }
                    if k > self.v[a as usize].hi {
                        return a;
                    }
                }
            }
            O::And => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = kb {
                    // low mask covering the whole interval
                    if (k + 1).is_power_of_two() && self.v[a as usize].hi <= k {
                        return a;
                    }
                    match self.n(a) {
                        N::B(O::And, x, y) => {
                            if let Some(k2) = self.cv(y) {
                                let c = self.c(k & k2, w);
                                return self.bin(O::And, x, c);
                            }
                        }
                        N::B(O::Or, x, y) => {
                            if let Some(k2) = self.cv(y) {
                                if k & k2 == 0 {
                                    return self.bin(O::And, x, b);
                                }
                                let p = self.bin(O::And, x, b);
                                let c = self.c(k & k2, w);
                                return self.bin(O::Or, p, c);
                            }
                        }
                        N::B(O::Xor, x, y) => {
                            if let Some(k2) = self.cv(y) {
                                if k & k2 == 0 {
                                    return self.bin(O::And, x, b);
                                }
                            }
                        }
                        N::Ite(c, x, y) => {
                            if self.cv(x).is_some() && self.cv(y).is_some() {
                                let (p, q) = (self.bin(O::And, x, b), self.bin(O::And, y, b));
                                return self.ite(c, p, q);
                            }
                        }
                        N::Z(x) => {
                            let xw = self.w(x);
                            if k & mask(xw) == mask(xw) {
                                return a;
                            }
                            let c = self.c(k & mask(xw), xw);
                            let p = self.bin(O::And, x, c);
                            return self.zext(p, w);
                        }
                        _ => {}
                    }
                }
                if w == 1 && self.is_not(a, b) {
                    return self.c(0, 1);
                }
            }
            O::Or => {
                if kb == Some(0) || a == b {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if let Some(k) = kb {
                    if let N::B(O::Or, x, y) = self.n(a) {
                        if let Some(k2) = self.cv(y) {
                            let c = self.c(k | k2, w);
                            return self.bin(O::Or, x, c);
                        }
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cv(x).is_some() && self.cv(y).is_some() {
                            let (p, q) = (self.bin(O::Or, x, b), self.bin(O::Or, y, b));
                            return self.ite(c, p, q);
                        }
                    }
                }
                if w == 1 && self.is_not(a, b) {
                    return self.c(1, 1);
                }
                // recombine (zext hi << k) | zext lo
                if w > 1 {
                    if let Some(r) = self.try_cat(a, b).or_else(|| self.try_cat(b, a)) {
                        return r;
                    }
                }
            }
            O::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    if k == m && w >= 32 && (matches!(self.n(a), N::Z(_)) || matches!(self.n(a), N::B(O::Sub, x, _) if self.cv(x).is_some())) {
                        return self.bin(O::Sub, b, a); // -1 - x
                    }
                    match self.n(a) {
                        N::B(O::Xor, x, y) => {
                            if let Some(k2) = self.cv(y) {
                                let c = self.c(k ^ k2, w);
                                return self.bin(O::Xor, x, c);
                            }
                        }
                        N::Ite(c, x, y) => {
                            if self.cv(x).is_some() && self.cv(y).is_some() {
                                let (p, q) = (self.bin(O::Xor, x, b), self.bin(O::Xor, y, b));
                                return self.ite(c, p, q);
                            }
                        }
                        N::Ult(x, y) if w == 1 => return self.nolin(|s| s.ule_(y, x)),
                        N::Ule(x, y) if w == 1 => return self.nolin(|s| s.ult_(y, x)),
                        N::Slt(x, y) if w == 1 => return self.nolin(|s| s.sle_(y, x)),
                        N::Sle(x, y) if w == 1 => return self.nolin(|s| s.slt_(y, x)),
                        _ => {}
                    }
                }
            }
            O::Shl | O::LShr | O::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        if o != O::AShr {
                            return self.c(0, w);
                        }
                    } else {
                        let k = k as u32;
                        if o == O::AShr && self.v[a as usize].hi <= mask(w - 1) {
                            return self.bin(O::LShr, a, b);
                        }
                        if o == O::LShr {
                            // as zext of extract
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                        if o == O::Shl {
                            if let N::B(O::Shl, x, y) = self.n(a) {
                                if let Some(k2) = self.cv(y) {
                                    let c = self.c(k as u128 + k2, w);
                                    return self.bin(O::Shl, x, c);
                                }
                            }
                            if let N::Ite(c, x, y) = self.n(a) {
                                if self.cv(x).is_some() && self.cv(y).is_some() {
                                    let (p, q) = (self.bin(O::Shl, x, b), self.bin(O::Shl, y, b));
                                    return self.ite(c, p, q);
                                }
                            }
                        }
                    }
                }
                if ka == Some(0) {
                    return a;
                }
            }
            O::SDiv => {
                if self.v[a as usize].hi <= mask(w - 1) && self.v[b as usize].hi <= mask(w - 1) {
                    return self.bin(O::UDiv, a, b);
                }
            }
            O::SRem => {
                if self.v[a as usize].hi <= mask(w - 1) && self.v[b as usize].hi <= mask(w - 1) {
                    return self.bin(O::URem, a, b);
                }
            }
        }
        self.raw(N::B(o, a, b), w)
    }
    fn is_not(&self, a: E, b: E) -> bool {
        let f = |x: E, y: E| matches!(self.n(x), N::B(O::Xor, p, q) if p == y && self.cv(q) == Some(1));
        f(a, b) || f(b, a)
    }
    fn try_cat(&mut self, hi: E, lo: E) -> Option<E> {
        let w = self.w(hi);
        let (h, k) = match self.n(hi) {
            N::B(O::Shl, x, y) => (x, self.cv(y)? as u32),
            _ => return None,
        };
        if self.v[lo as usize].hi > mask(k) || k >= w {
            return None;
        }
        let hw = w - k;
        let he = self.extract(h, 0, hw);
        let le = self.extract(lo, 0, k);
        Some(self.cat(he, le))
    }
    fn eq_(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        if self.cv(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        let (ia, ib) = (&self.v[a as usize], &self.v[b as usize]);
        if ia.hi < ib.lo || ib.hi < ia.lo {
            return self.c(0, 1);
        }
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if self.cv(a).is_some() {
                let r = (self.cv(a) == Some(k)) as u128;
                return self.c(r, 1);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not1(a) };
            }
            match self.n(a) {
                N::Z(x) => {
                    let xw = self.w(x);
                    if k > mask(xw) {
                        return self.c(0, 1);
                    }
                    let c = self.c(k, xw);
                    return self.eq(x, c);
                }
                N::S(x) => {
                    let xw = self.w(x);
                    let t = k & mask(xw);
                    if (sx(t, xw) as u128) & mask(w) != k {
                        return self.c(0, 1);
                    }
                    let c = self.c(t, xw);
                    return self.eq(x, c);
                }
                N::B(O::Add, x, y) => {
                    if let Some(k2) = self.cv(y) {
                        let c = self.c(k.wrapping_sub(k2), w);
                        return self.eq(x, c);
                    }
                }
                N::B(O::Xor, x, y) => {
                    if let Some(k2) = self.cv(y) {
                        let c = self.c(k ^ k2, w);
                        return self.eq(x, c);
                    }
                }
                N::B(O::Sub, x, y) if k == 0 => return self.eq(x, y),
                N::B(O::Or, x, y) => {
                    if let Some(k2) = self.cv(y) {
                        if k & k2 != k2 {
                            return self.c(0, 1);
                        }
                    }
                    if k == 0 {
                        let z = self.c(0, w);
                        let (p, q) = (self.eq(x, z), self.eq(y, z));
                        return self.bin(O::And, p, q);
                    }
                }
                N::B(O::And, _, y) => {
                    if let Some(k2) = self.cv(y) {
                        if k & !k2 != 0 {
                            return self.c(0, 1);
                        }
                    }
                }
                N::B(O::Shl, x, y) => {
                    if let Some(s) = self.cv(y) {
                        let s = s as u32;
                        if k & mask(s) != 0 {
                            return self.c(0, 1);
                        }
                        let xe = self.extract(x, 0, w - s);
                        let c = self.c(k >> s, w - s);
                        return self.eq(xe, c);
                    }
                }
                N::Cat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let (kl, kh) = (self.c(k & mask(lw), lw), self.c(k >> lw, hw));
                    let (p, q) = (self.eq(h, kh), self.eq(l, kl));
                    return self.bin(O::And, p, q);
                }
                N::Ite(c, x, y) => {
                    let (kx, ky) = (self.cv(x), self.cv(y));
                    if kx.is_some() || ky.is_some() {
                        let (p, q) = (self.eq(x, b), self.eq(y, b));
                        return self.ite(c, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if let (N::Z(x), N::Z(y)) = (self.n(a), self.n(b)) {
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
            if let (N::B(O::Add, x, y), N::B(O::Add, x2, y2)) = (self.n(a), self.n(b)) {
                if y == y2 {
                    return self.eq(x, x2);
                }
                if x == x2 {
                    return self.eq(y, y2);
                }
            }
            if w == 1 {
                let t = self.bin(O::Xor, a, b);
                return self.not1(t);
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.raw(N::Eq(a, b), 1)
    }
    fn ult_(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        let (ia, ib) = (&self.v[a as usize], &self.v[b as usize]);
        if ia.hi < ib.lo {
            return self.c(1, 1);
        }
        if ia.lo >= ib.hi {
            return self.c(0, 1);
        }
        if let Some(1) = self.cv(b) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.cv(a) == Some(0) {
            let z = self.c(0, w);
            let e = self.eq(b, z);
            return self.not1(e);
        }
        if w == 1 {
            let na = self.not1(a);
            return self.bin(O::And, na, b);
        }
        match (self.n(a), self.n(b)) {
            (N::Z(x), N::Z(y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (N::Z(x), N::C(k)) => {
                let xw = self.w(x);
                if k <= mask(xw) {
                    let c = self.c(k, xw);
                    return self.ult(x, c);
                }
                return self.c(1, 1);
            }
            (N::C(k), N::Z(y)) => {
                let yw = self.w(y);
                if k <= mask(yw) {
                    let c = self.c(k, yw);
                    return self.ult(c, y);
                }
                return self.c(0, 1);
            }
            (N::Ite(c, x, y), N::C(_)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let (p, q) = (self.ult(x, b), self.ult(y, b));
                return self.ite(c, p, q);
            }
            (N::C(_), N::Ite(c, x, y)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let (p, q) = (self.ult(a, x), self.ult(a, y));
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.raw(N::Ult(a, b), 1)
    }
    fn ule_(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let w = self.w(a);
        let (ia, ib) = (&self.v[a as usize], &self.v[b as usize]);
        if ia.hi <= ib.lo {
            return self.c(1, 1);
        }
        if ia.lo > ib.hi {
            return self.c(0, 1);
        }
        // a <= k  ==  a < k+1 ; k <= b == k-1 < b
        if let Some(k) = self.cv(b) {
            if k < mask(w) {
                let c = self.c(k + 1, w);
                return self.ult(a, c);
            }
            return self.c(1, 1);
        }
        if let Some(k) = self.cv(a) {
            if k > 0 {
                let c = self.c(k - 1, w);
                return self.ult(c, b);
            }
            return self.c(1, 1);
        }
        if let (N::Z(x), N::Z(y)) = (self.n(a), self.n(b)) {
            if self.w(x) == self.w(y) {
                return self.ule(x, y);
            }
        }
        if w == 1 {
            let na = self.not1(a);
            return self.bin(O::Or, na, b);
        }
        self.raw(N::Ule(a, b), 1)
    }
    fn slt_(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = (sx(x, w) < sx(y, w)) as u128;
            return self.c(r, 1);
        }
        let h = mask(w - 1);
        let (ah, bh) = (self.v[a as usize].hi, self.v[b as usize].hi);
        let (al, bl) = (self.v[a as usize].lo, self.v[b as usize].lo);
        if ah <= h && bh <= h {
            return self.ult(a, b);
        }
        if al > h && bh <= h {
            return self.c(1, 1);
        }
        if ah <= h && bl > h {
            return self.c(0, 1);
        }
        if w == 1 {
            // signed: 1 is -1
            let nb = self.not1(b);
            return self.bin(O::And, a, nb);
        }
        if let (N::S(x), N::S(y)) = (self.n(a), self.n(b)) {
            if self.w(x) == self.w(y) {
                return self.slt(x, y);
            }
        }
        if let (N::S(x), N::C(k)) = (self.n(a), self.n(b)) {
            let xw = self.w(x);
            let t = k & mask(xw);
            if (sx(t, xw) as u128) & mask(w) == k {
                let c = self.c(t, xw);
                return self.slt(x, c);
            }
        }
        match (self.n(a), self.n(b)) {
            (N::Ite(c, x, y), N::C(_)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let (p, q) = (self.slt(x, b), self.slt(y, b));
                return self.ite(c, p, q);
            }
            (N::C(_), N::Ite(c, x, y)) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let (p, q) = (self.slt(a, x), self.slt(a, y));
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.raw(N::Slt(a, b), 1)
    }
    fn sle_(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = (sx(x, w) <= sx(y, w)) as u128;
            return self.c(r, 1);
        }
        let h = mask(w - 1);
        let (ah, bh) = (self.v[a as usize].hi, self.v[b as usize].hi);
        let (al, bl) = (self.v[a as usize].lo, self.v[b as usize].lo);
        if ah <= h && bh <= h {
            return self.ule(a, b);
        }
        if al > h && bh <= h {
            return self.c(1, 1);
        }
        if ah <= h && bl > h {
            return self.c(0, 1);
        }
        if w == 1 {
            let nb = self.not1(b);
            return self.bin(O::Or, a, nb);
        }
        if let Some(k) = self.cv(b) {
            if k != h {
                let c = self.c(k.wrapping_add(1), w);
                return self.slt(a, c);
            }
            return self.c(1, 1);
        }
        if let Some(k) = self.cv(a) {
            if k != h + 1 {
                let c = self.c(k.wrapping_sub(1), w);
                return self.slt(c, b);
            }
            return self.c(1, 1);
        }
        self.raw(N::Sle(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let N::B(O::Xor, x, y) = self.n(c) {
            if self.cv(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(O::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(O::And, nc, b);
                }
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(O::Or, nc, a);
                }
                (None, Some(0)) => return self.bin(O::And, c, a),
                _ => {}
            }
        }
        let a = if let N::Ite(c2, x, _) = self.n(a) { if c2 == c { x } else { a } } else { a };
        let b = if let N::Ite(c2, _, y) = self.n(b) { if c2 == c { y } else { b } } else { b };
        if a == b {
            return a;
        }
        if w > 1 {
            if let (Some(1), Some(0)) = (self.cv(a), self.cv(b)) {
                return self.zext(c, w);
            }
            if let (Some(0), Some(1)) = (self.cv(a), self.cv(b)) {
                let nc = self.not1(c);
                return self.zext(nc, w);
            }
        }
        self.raw(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.c(k, w);
        }
        if let N::Z(x) = self.n(a) {
            return self.zext(x, w);
        }
        if let N::Ite(c, x, y) = self.n(a) {
            if self.cv(x).is_some() && self.cv(y).is_some() && !(self.cv(x) <= Some(1) && self.cv(y) <= Some(1)) {
                let (p, q) = (self.zext(x, w), self.zext(y, w));
                return self.ite(c, p, q);
            }
        }
        self.raw(N::Z(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.cv(a) {
            return self.c(sx(k, aw) as u128, w);
        }
        if self.v[a as usize].hi <= mask(aw - 1) {
            return self.zext(a, w);
        }
        if aw == 1 {
            let (x, y) = (self.c(mask(w), w), self.c(0, w));
            return self.ite(a, x, y);
        }
        self.raw(N::S(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        match self.n(a) {
            N::C(k) => return self.c(k >> lo, w),
            N::Ex(x, l2) => return self.extract(x, lo + l2, w),
            N::Z(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let p = self.extract(x, lo, xw - lo);
                return self.zext(p, w);
            }
            N::S(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            N::Cat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let p = self.extract(l, lo, lw - lo);
                let q = self.extract(h, 0, w - (lw - lo));
                return self.cat(q, p);
            }
            N::B(o @ (O::And | O::Or | O::Xor), x, y) => {
                let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w));
                return self.bin(o, p, q);
            }
            N::B(o @ (O::Add | O::Sub | O::Mul), x, y) if lo == 0 => {
                let (p, q) = (self.extract(x, 0, w), self.extract(y, 0, w));
                return self.bin(o, p, q);
            }
            N::B(O::Shl, x, y) => {
                if let Some(k) = self.cv(y) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(x, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.c(0, w);
                    }
                    let xe = self.extract(x, 0, w - (k - lo));
                    let z = self.zext(xe, w);
                    let s = self.c((k - lo) as u128, w);
                    return self.bin(O::Shl, z, s);
                }
            }
            N::Ite(c, x, y) => {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w));
                    return self.ite(c, p, q);
                }
            }
            _ => {}
        }
        if self.v[a as usize].hi >> lo == 0 {
            return self.c(0, w);
        }
        self.raw(N::Ex(a, lo), w)
    }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.c(x << lw | y, hw + lw);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, hw + lw);
        }
        if let (N::Ex(x, p), N::Ex(y, q)) = (self.n(h), self.n(l)) {
            if x == y && p == q + lw {
                return self.extract(x, q, hw + lw);
            }
        }
        // zext'd high part whose extract continues
        if let (N::Z(hx), N::Ex(y, q)) = (self.n(h), self.n(l)) {
            if let N::Ex(x, p) = self.n(hx) {
                if x == y && p == q + lw {
                    let iw = self.w(hx) + lw;
                    let e = self.extract(x, q, iw);
                    return self.zext(e, hw + lw);
                }
            }
        }
        self.raw(N::Cat(h, l), hw + lw)
    }

    /// Evaluates under a model (values by symbol). `epoch` identifies the model.
    pub fn eval(&mut self, e: E, model: &[u128], epoch: u64) -> u128 {
        if let N::C(v) = self.v[e as usize].n {
            return v;
        }
        if self.memo[e as usize].0 == epoch {
            return self.memo[e as usize].1;
        }
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if self.memo[t as usize].0 == epoch {
                stack.pop();
                continue;
            }
            let n = self.n(t);
            let w = self.w(t);
            let get = |s: &Ex, x: E| -> Option<u128> {
                if let N::C(v) = s.v[x as usize].n {
                    Some(v)
                } else if s.memo[x as usize].0 == epoch {
                    Some(s.memo[x as usize].1)
                } else {
                    None
                }
            };
            macro_rules! need {
                ($x:expr) => {
                    match get(self, $x) {
                        Some(v) => v,
                        None => {
                            stack.push($x);
                            continue;
                        }
                    }
                };
            }
            let r = match n {
                N::C(v) => v,
                N::Sym(s) => model.get(s as usize).copied().unwrap_or(0) & mask(w),
                N::B(o, a, b) => {
                    let x = need!(a);
                    let y = need!(b);
                    ev2(o, x, y, w)
                }
                N::Eq(a, b) => (need!(a) == need!(b)) as u128,
                N::Ult(a, b) => (need!(a) < need!(b)) as u128,
                N::Ule(a, b) => (need!(a) <= need!(b)) as u128,
                N::Slt(a, b) => {
                    let aw = self.w(a);
                    (sx(need!(a), aw) < sx(need!(b), aw)) as u128
                }
                N::Sle(a, b) => {
                    let aw = self.w(a);
                    (sx(need!(a), aw) <= sx(need!(b), aw)) as u128
                }
                N::Ite(c, a, b) => {
                    if need!(c) == 1 { need!(a) } else { need!(b) }
                }
                N::Z(a) => need!(a),
                N::S(a) => {
                    let aw = self.w(a);
                    (sx(need!(a), aw) as u128) & mask(w)
                }
                N::Ex(a, lo) => (need!(a) >> lo) & mask(w),
                N::Cat(h, l) => {
                    let lw = self.w(l);
                    need!(h) << lw | need!(l)
                }
            };
            self.memo[t as usize] = (epoch, r);
            stack.pop();
        }
        self.memo[e as usize].1
    }
}
