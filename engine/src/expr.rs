//! Hash-consed bit-vector terms with light simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u32),
    Concat(E, E),
}

pub struct Ctx {
    pub nodes: Vec<(N, u32)>,
    map: HashMap<(N, u32), E>,
    vars: Vec<Rc<[u32]>>,
    /// bounds of every term's value
    range: Vec<(u128, u128)>,
    pub nvars: u32,
    pub var_w: Vec<u32>,
    eval_gen: Vec<u32>,
    eval_val: Vec<u128>,
    gen: u32,
    empty: Rc<[u32]>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_val(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn bin_val(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext_val(a, w), sext_val(b, w));
            if y == 0 {
                if x >= 0 { m } else { 1 }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext_val(a, w), sext_val(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext_val(a, w);
            (x >> b.min(127)) as u128
        }
    }) & m
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: Vec::new(),
            map: HashMap::new(),
            vars: Vec::new(),
            range: Vec::new(),
            nvars: 0,
            var_w: Vec::new(),
            eval_gen: Vec::new(),
            eval_val: Vec::new(),
            gen: 0,
            empty: Rc::from(Vec::new()),
        }
    }
    fn intern(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let r = self.range_of(n, w);
        if r.0 == r.1 && !matches!(n, N::Const(_)) {
            return self.c(r.0, w);
        }
        let id = self.nodes.len() as E;
        let vs: Rc<[u32]> = match n {
            N::Const(_) => self.empty.clone(),
            N::Var(v) => Rc::from(vec![v]),
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => self.union(a, b),
            N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => self.vars[a as usize].clone(),
            N::Ite(c, a, b) => {
                let ab = self.union(a, b);
                let vc = self.vars[c as usize].clone();
                merge(&ab, &vc)
            }
        };
        self.nodes.push((n, w));
        self.vars.push(vs);
        self.range.push(r);
        self.eval_gen.push(0);
        self.eval_val.push(0);
        self.map.insert((n, w), id);
        id
    }
    pub fn lo(&self, e: E) -> u128 {
        self.range[e as usize].0
    }
    pub fn hi(&self, e: E) -> u128 {
        self.range[e as usize].1
    }
    fn range_of(&self, n: N, w: u32) -> (u128, u128) {
        let m = mask(w);
        let r = |e: E| self.range[e as usize];
        let full = (0, m);
        match n {
            N::Const(v) => (v, v),
            N::Var(_) => full,
            N::Bin(op, a, b) => {
                let ((la, ha), (lb, hb)) = (r(a), r(b));
                match op {
                    B::Add => match ha.checked_add(hb) {
                        Some(h) if h <= m => (la + lb, h),
                        _ => full,
                    },
                    B::Sub if la >= hb => (la - hb, ha - lb),
                    B::Mul => match ha.checked_mul(hb) {
                        Some(h) if h <= m => (la * lb, h),
                        _ => full,
                    },
                    B::UDiv if lb > 0 => (la / hb, ha / lb),
                    B::URem if lb > 0 => (0, ha.min(hb - 1)),
                    B::URem => (0, ha),
                    B::And => (0, ha.min(hb)),
                    B::Or => (la.max(lb), mask(128 - (ha | hb).leading_zeros())),
                    B::Xor => (0, mask(128 - (ha | hb).leading_zeros())),
                    B::LShr => (0, ha),
                    _ => full,
                }
            }
            N::Eq(a, b) => {
                let ((la, ha), (lb, hb)) = (r(a), r(b));
                if ha < lb || hb < la {
                    (0, 0)
                } else {
                    full
                }
            }
            N::Ult(a, b) => {
                let ((la, ha), (lb, hb)) = (r(a), r(b));
                if ha < lb {
                    (1, 1)
                } else if la >= hb {
                    (0, 0)
                } else {
                    full
                }
            }
            N::Slt(..) => full,
            N::Ite(_, a, b) => (r(a).0.min(r(b).0), r(a).1.max(r(b).1)),
            N::ZExt(a) => r(a),
            N::SExt(a) => {
                if r(a).1 <= mask(self.w(a) - 1) {
                    r(a)
                } else {
                    full
                }
            }
            N::Extract(a, lo) => {
                let (l, h) = r(a);
                if lo < 128 && h >> lo <= m {
                    (l >> lo, h >> lo)
                } else {
                    full
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                ((r(h).0 << lw) | r(l).0, (r(h).1 << lw) | r(l).1)
            }
        }
    }
    fn union(&self, a: E, b: E) -> Rc<[u32]> {
        merge(&self.vars[a as usize], &self.vars[b as usize])
    }
    pub fn vars_of(&self, e: E) -> Rc<[u32]> {
        self.vars[e as usize].clone()
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].1
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].0
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.n(e) {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.intern(N::Const(v & mask(w)), w)
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn var(&mut self, w: u32) -> E {
        let v = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        self.intern(N::Var(v), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.bin(B::Xor, a, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        self.bin(B::Add, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    fn is_not(&self, a: E) -> Option<E> {
        if let N::Bin(B::Xor, x, m) = self.n(a) {
            if self.as_const(m) == Some(mask(self.w(a))) {
                return Some(x);
            }
        }
        None
    }

    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = bin_val(op, w, x, y);
            return self.c(v, w);
        }
        let m = mask(w);
        // constants to the right for commutative operators
        if ca.is_some() && matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) {
            return self.bin(op, b, a);
        }
        match op {
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
                if let Some(y) = cb {
                    if let N::Bin(B::Add, p, q) = self.n(a) {
                        if let Some(z) = self.as_const(q) {
                            let k = self.c(y.wrapping_add(z), w);
                            return self.bin(B::Add, p, k);
                        }
                    }
                    if let N::Ite(c, p, q) = self.n(a) {
                        if self.as_const(p).is_some() && self.as_const(q).is_some() {
                            let x = self.bin(op, p, b);
                            let z = self.bin(op, q, b);
                            return self.ite(c, x, z);
                        }
                    }
                } else {
                    if let N::Bin(B::Add, p, q) = self.n(a) {
                        if self.as_const(q).is_some() {
                            let s = self.bin(B::Add, p, b);
                            return self.bin(B::Add, s, q);
                        }
                    }
                    if let N::Bin(B::Add, p, q) = self.n(b) {
                        if self.as_const(q).is_some() {
                            let s = self.bin(B::Add, a, p);
                            return self.bin(B::Add, s, q);
                        }
                    }
                    // (x - y) + y
                    if let N::Bin(B::Sub, p, q) = self.n(a) {
                        if q == b {
                            return p;
                        }
                    }
                    if let N::Bin(B::Sub, p, q) = self.n(b) {
                        if q == a {
                            return p;
                        }
                    }
                }
            }
            B::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c(y.wrapping_neg(), w);
                    return self.bin(B::Add, a, k);
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
                if let N::Bin(B::Add, p, q) = self.n(a) {
                    if self.as_const(q).is_some() {
                        let s = self.bin(B::Sub, p, b);
                        return self.bin(B::Add, s, q);
                    }
                    if p == b {
                        return q;
                    }
                    if q == b {
                        return p;
                    }
                }
                if let N::Bin(B::Add, p, q) = self.n(b) {
                    if let Some(z) = self.as_const(q) {
                        let s = self.bin(B::Sub, a, p);
                        let k = self.c(z.wrapping_neg(), w);
                        return self.bin(B::Add, s, k);
                    }
                }
            }
            B::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, k);
                    }
                }
            }
            B::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, k);
                    }
                }
            }
            B::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(B::And, a, k);
                    }
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // low mask
                    let k = 128 - y.leading_zeros();
                    if y == mask(k) {
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    // contiguous mask in the middle
                    let tz = y.trailing_zeros();
                    let top = 128 - y.leading_zeros();
                    if y == mask(top) & !mask(tz) {
                        let x = self.extract(a, tz, top - tz);
                        let z = self.c(0, tz);
                        let lowpart = self.concat(x, z);
                        return self.zext(lowpart, w);
                    }
                    if let N::Bin(B::And, p, q) = self.n(a) {
                        if let Some(z) = self.as_const(q) {
                            let k = self.c(y & z, w);
                            return self.bin(B::And, p, k);
                        }
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.f();
                    }
                    // absorb: a & (a & b)
                    if let N::Bin(B::And, p, q) = self.n(b) {
                        if p == a || q == a {
                            return b;
                        }
                    }
                    if let N::Bin(B::And, p, q) = self.n(a) {
                        if p == b || q == b {
                            return a;
                        }
                    }
                }
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.t();
                    }
                } else {
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_disjoint(b, a) {
                        return r;
                    }
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if let N::Bin(B::Xor, p, q) = self.n(a) {
                        if let Some(z) = self.as_const(q) {
                            let k = self.c(y ^ z, w);
                            return self.bin(B::Xor, p, k);
                        }
                    }
                    if w == 1 {
                        if let N::Ite(c, p, q) = self.n(a) {
                            let np = self.bin(B::Xor, p, b);
                            let nq = self.bin(B::Xor, q, b);
                            return self.ite(c, np, nq);
                        }
                    }
                }
            }
            B::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    let x = self.extract(a, 0, w - y);
                    let z = self.c(0, y);
                    return self.concat(x, z);
                }
            }
            B::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            B::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = (y as u32).min(w - 1);
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            _ => {}
        }
        if op == B::Add && w == 8 && cb.is_none() {
            // a canonical order of the terms of narrow sums (checksums)
            if matches!(self.n(b), N::Bin(B::Add, ..)) && !matches!(self.n(a), N::Bin(B::Add, ..)) {
                return self.bin(B::Add, b, a);
            }
            if let N::Bin(B::Add, p, q) = self.n(b) {
                let s = self.bin(B::Add, a, p);
                return self.bin(B::Add, s, q);
            }
            if let N::Bin(B::Add, p, q) = self.n(a) {
                if q > b {
                    let s = self.bin(B::Add, p, b);
                    return self.bin(B::Add, s, q);
                }
                return self.intern(N::Bin(op, a, b), w);
            }
        }
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && cb.is_none() && a > b {
            return self.intern(N::Bin(op, b, a), w);
        }
        self.intern(N::Bin(op, a, b), w)
    }
    /// a = concat(x, 0_k) (possibly zero-extended) and b known zero above bit k.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (core, cw) = match self.n(a) {
            N::ZExt(x) => (x, self.w(x)),
            _ => (a, w),
        };
        if let N::Concat(x, z) = self.n(core) {
            if self.as_const(z) == Some(0) {
                let k = self.w(z);
                if let N::ZExt(y) = self.n(b) {
                    if self.w(y) <= k {
                        let lo = self.zext(y, k);
                        let r = self.concat(x, lo);
                        let _ = cw;
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        None
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x == y) as u128, 1);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if let Some(y) = cb {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match self.n(a) {
                N::ZExt(x) => {
                    let xw = self.w(x);
                    if y > mask(xw) {
                        return self.f();
                    }
                    let k = self.c(y, xw);
                    return self.eq(x, k);
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    let t = y & mask(xw);
                    if (sext_val(t, xw) as u128) & mask(w) != y {
                        return self.f();
                    }
                    let k = self.c(t, xw);
                    return self.eq(x, k);
                }
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kl = self.c(y, lw);
                    let kh = self.c(y >> lw, hw);
                    let e1 = self.eq(h, kh);
                    let e2 = self.eq(l, kl);
                    return self.and(e1, e2);
                }
                N::Bin(B::Xor, x, k) => {
                    if let Some(z) = self.as_const(k) {
                        let q = self.c(y ^ z, w);
                        return self.eq(x, q);
                    }
                    if y == 0 {
                        return self.eq(x, k);
                    }
                }
                N::Bin(B::Add, x, k) => {
                    if let Some(z) = self.as_const(k) {
                        let q = self.c(y.wrapping_sub(z), w);
                        return self.eq(x, q);
                    }
                }
                N::Bin(B::Sub, x, k) => {
                    if y == 0 {
                        return self.eq(x, k);
                    }
                }
                N::Bin(B::Or, p, q) => {
                    if y == 0 {
                        let e1 = self.eq(p, b);
                        let e2 = self.eq(q, b);
                        return self.and(e1, e2);
                    }
                }
                N::Ite(c, p, q) => {
                    if self.as_const(p).is_some() || self.as_const(q).is_some() {
                        let e1 = self.eq(p, b);
                        let e2 = self.eq(q, b);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
            if let (N::Concat(x1, x2), N::Concat(y1, y2)) = (self.n(a), self.n(b)) {
                if self.w(x1) == self.w(y1) {
                    let e1 = self.eq(x1, y1);
                    let e2 = self.eq(x2, y2);
                    return self.and(e1, e2);
                }
            }
            if let (N::Bin(B::Add, p, q), N::Bin(B::Add, r, s)) = (self.n(a), self.n(b)) {
                if q == s {
                    return self.eq(p, r);
                }
            }
            if w == 1 {
                let x = self.bin(B::Xor, a, b);
                return self.not(x);
            }
        }
        if w == 8 {
            // a = p - q, so that checksums compare alike
            for (x, y) in [(a, b), (b, a)] {
                if let N::Bin(B::Sub, p, q) = self.n(y) {
                    let s = self.bin(B::Add, x, q);
                    return self.eq(s, p);
                }
            }
        }
        if cb.is_none() && a > b {
            return self.intern(N::Eq(b, a), 1);
        }
        self.intern(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((x < y) as u128, 1);
        }
        if cb == Some(0) || ca == Some(mask(w)) {
            return self.f();
        }
        if cb == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let z = self.c(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if cb == Some(mask(w)) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        match (self.n(a), self.n(b)) {
            (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (N::ZExt(x), N::Const(y)) => {
                let xw = self.w(x);
                if y > mask(xw) {
                    return self.t();
                }
                let k = self.c(y, xw);
                return self.ult(x, k);
            }
            (N::Const(y), N::ZExt(x)) => {
                let xw = self.w(x);
                if y > mask(xw) {
                    return self.f();
                }
                let k = self.c(y, xw);
                return self.ult(k, x);
            }
            (N::Ite(c, p, q), N::Const(_)) if self.as_const(p).is_some() || self.as_const(q).is_some() => {
                let x = self.ult(p, b);
                let y = self.ult(q, b);
                return self.ite(c, x, y);
            }
            (N::Const(_), N::Ite(c, p, q)) if self.as_const(p).is_some() || self.as_const(q).is_some() => {
                let x = self.ult(a, p);
                let y = self.ult(a, q);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.intern(N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c((sext_val(x, w) < sext_val(y, w)) as u128, 1);
        }
        // both non-negative
        let nonneg = |s: &Self, e: E| match s.n(e) {
            N::ZExt(_) => true,
            N::Const(v) => v >> (w - 1) == 0,
            _ => s.hi(e) >> (w - 1) == 0,
        };
        if nonneg(self, a) && nonneg(self, b) {
            return self.ult(a, b);
        }
        if cb == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if ca == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        self.intern(N::Slt(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let N::Ite(c2, x, y) = self.n(b) {
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(v) => return self.c(v, w),
            N::ZExt(x) => return self.zext(x, w),
            N::Ite(c, p, q) if self.as_const(p).is_some() && self.as_const(q).is_some() => {
                let x = self.zext(p, w);
                let y = self.zext(q, w);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.intern(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(v) => {
                let k = sext_val(v, aw) as u128;
                return self.c(k, w);
            }
            N::ZExt(x) => return self.zext(x, w),
            N::SExt(x) => return self.sext(x, w),
            _ => {}
        }
        if aw == 1 {
            let x = self.c(mask(w), w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        self.intern(N::SExt(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        match self.n(a) {
            N::Const(v) => return self.c(if lo >= 128 { 0 } else { v >> lo }, w),
            N::Extract(x, l) => return self.extract(x, l + lo, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let x = self.extract(h, 0, lo + w - lw);
                let y = self.extract(l, lo, lw - lo);
                return self.concat(x, y);
            }
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    return self.sext(y, w);
                }
                let s = self.extract(x, xw - 1, 1);
                return self.sext(s, w);
            }
            N::Ite(c, p, q) => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.ite(c, x, y);
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), p, q) => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.bin(op, x, y);
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), p, q) if lo == 0 => {
                let x = self.extract(p, lo, w);
                let y = self.extract(q, lo, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        self.intern(N::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        match (self.n(h), self.n(l)) {
            (N::Const(x), N::Const(y)) if w <= 128 => return self.c((x << lw) | y, w),
            (N::Const(0), _) => return self.zext(l, w),
            (N::Extract(x, lo1), N::Extract(y, lo2)) if x == y && lo1 == lo2 + lw => {
                return self.extract(x, lo2, w);
            }
            (N::Concat(hh, hl), _) => {
                // right-associate
                let r = self.concat(hl, l);
                return self.concat_raw(hh, r);
            }
            (N::ZExt(x), _) => {
                let r = self.concat(x, l);
                return self.zext(r, w);
            }
            (N::Extract(x, lo1), N::Concat(y, rest)) => {
                if let N::Extract(z, lo2) = self.n(y) {
                    if z == x && lo1 == lo2 + self.w(y) {
                        let ww = hw + self.w(y);
                        let e = self.extract(x, lo2, ww);
                        return self.concat_raw(e, rest);
                    }
                }
            }
            _ => {}
        }
        self.concat_raw(h, l)
    }
    fn concat_raw(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            if w <= 128 {
                let lw = self.w(l);
                return self.c((x << lw) | y, w);
            }
        }
        self.intern(N::Concat(h, l), w)
    }

    pub fn eval(&mut self, e: E, m: &HashMap<u32, u128>) -> u128 {
        self.gen += 1;
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &HashMap<u32, u128>) -> u128 {
        let i = e as usize;
        if self.eval_gen[i] == self.gen {
            return self.eval_val[i];
        }
        let (n, w) = self.nodes[i];
        let v = match n {
            N::Const(v) => return v,
            N::Var(x) => m.get(&x).copied().unwrap_or(0) & mask(w),
            N::Bin(op, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                bin_val(op, w, x, y)
            }
            N::Eq(a, b) => (self.ev(a, m) == self.ev(b, m)) as u128,
            N::Ult(a, b) => (self.ev(a, m) < self.ev(b, m)) as u128,
            N::Slt(a, b) => {
                let aw = self.w(a);
                (sext_val(self.ev(a, m), aw) < sext_val(self.ev(b, m), aw)) as u128
            }
            N::Ite(c, a, b) => {
                if self.ev(c, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            N::ZExt(a) => self.ev(a, m),
            N::SExt(a) => {
                let aw = self.w(a);
                (sext_val(self.ev(a, m), aw) as u128) & mask(w)
            }
            N::Extract(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            N::Concat(a, b) => {
                let lw = self.w(b);
                (self.ev(a, m) << lw) | self.ev(b, m)
            }
        };
        self.eval_gen[i] = self.gen;
        self.eval_val[i] = v;
        v
    }
    /// Number of low bits known to be zero.
    pub fn tz(&self, e: E) -> u32 {
        let w = self.w(e);
        match self.n(e) {
            N::Const(v) => {
                if v == 0 {
                    w
                } else {
                    v.trailing_zeros()
                }
            }
            N::Concat(h, l) => {
                let t = self.tz(l);
                if t == self.w(l) {
                    t + self.tz(h)
                } else {
                    t
                }
            }
            N::ZExt(a) => {
                let t = self.tz(a);
                if t == self.w(a) {
                    w
                } else {
                    t
                }
            }
            N::Bin(B::Add | B::Or, a, b) => self.tz(a).min(self.tz(b)),
            N::Bin(B::Mul, a, b) => (self.tz(a) + self.tz(b)).min(w),
            N::Ite(_, a, b) => self.tz(a).min(self.tz(b)),
            _ => 0,
        }
    }
}

fn merge(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        match a[i].cmp(&b[j]) {
            std::cmp::Ordering::Less => {
                v.push(a[i]);
                i += 1
            }
            std::cmp::Ordering::Greater => {
                v.push(b[j]);
                j += 1
            }
            std::cmp::Ordering::Equal => {
                v.push(a[i]);
                i += 1;
                j += 1
            }
        }
    }
    v.extend_from_slice(&a[i..]);
    v.extend_from_slice(&b[j..]);
    if v.len() == a.len() {
        return a.clone();
    }
    if v.len() == b.len() {
        return b.clone();
    }
    v.into()
}

#[cfg(test)]
mod tests {
    use super::*;

    struct R(u64);
    impl R {
        fn n(&mut self, k: u64) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            (self.0 >> 11) % k
        }
    }

    /// Random terms, built by the simplifying constructors and evaluated beside them
    #[test]
    fn simplification_keeps_values() {
        let mut r = R(0x1234_5678_9abc_def1);
        for round in 0..20000 {
            let mut x = Ctx::new();
            let mut m = HashMap::new();
            // (term, value)
            let mut pool: Vec<(E, u128)> = Vec::new();
            for i in 0..4 {
                let w = [8, 8, 16, 1][i];
                let v = x.var(w);
                let k = match r.n(4) {
                    0 => 0,
                    1 => mask(w),
                    _ => r.n(1 << 20) as u128 & mask(w),
                };
                if let N::Var(id) = x.n(v) {
                    m.insert(id, k);
                }
                pool.push((v, k));
            }
            for _ in 0..24 {
                let (a, va) = pool[r.n(pool.len() as u64) as usize];
                let w = x.w(a);
                let same: Vec<(E, u128)> = pool.iter().copied().filter(|p| x.w(p.0) == w).collect();
                let (b, vb) = if r.n(3) == 0 {
                    let k = match r.n(4) {
                        0 => mask(w),
                        1 => 1 & mask(w),
                        2 => 1u128 << r.n(w as u64),
                        _ => r.n(1 << 18) as u128 & mask(w),
                    };
                    (x.c(k, w), k)
                } else {
                    same[r.n(same.len() as u64) as usize]
                };
                let e = match r.n(9) {
                    0..=2 => {
                        let op = [B::Add, B::Sub, B::Mul, B::UDiv, B::URem, B::SDiv, B::SRem, B::And, B::Or, B::Xor, B::Shl, B::LShr, B::AShr]
                            [r.n(13) as usize];
                        if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && vb == 0 {
                            continue;
                        }
                        (x.bin(op, a, b), bin_val(op, w, va, vb))
                    }
                    3 => (x.eq(a, b), (va == vb) as u128),
                    4 => (x.ult(a, b), (va < vb) as u128),
                    5 => (x.slt(a, b), (sext_val(va, w) < sext_val(vb, w)) as u128),
                    6 => {
                        let bits: Vec<(E, u128)> = pool.iter().copied().filter(|p| x.w(p.0) == 1).collect();
                        let (c, vc) = bits[r.n(bits.len() as u64) as usize];
                        (x.ite(c, a, b), if vc == 1 { va } else { vb })
                    }
                    7 => {
                        let nw = [8, 16, 32][r.n(3) as usize];
                        if nw < w {
                            continue;
                        }
                        if r.n(2) == 0 {
                            (x.zext(a, nw), va)
                        } else {
                            (x.sext(a, nw), (sext_val(va, w) as u128) & mask(nw))
                        }
                    }
                    _ => {
                        if w == 8 && r.n(2) == 0 {
                            (x.concat(a, b), va << 8 | vb)
                        } else {
                            let nw = [1, 8, 16][r.n(3) as usize];
                            if nw > w {
                                continue;
                            }
                            let lo = r.n((w - nw + 1) as u64) as u32;
                            (x.extract(a, lo, nw), va >> lo & mask(nw))
                        }
                    }
                };
                assert_eq!(x.eval(e.0, &m), e.1, "round {}", round);
                assert!(x.lo(e.0) <= e.1 && e.1 <= x.hi(e.0), "range in round {}", round);
                pool.push(e);
            }
        }
    }
}
