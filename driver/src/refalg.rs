//! Reference Clifford arithmetic, written from the definition.
use crate::rings::*;
use std::collections::BTreeMap;

/// Blade as a word of generators in descending order.
pub fn word(idx: usize) -> Vec<usize> {
    (0..usize::BITS as usize).rev().filter(|i| (idx >> i) & 1 == 1).collect()
}

/// Sort the concatenated words by adjacent transpositions and contract equal neighbours.
fn reduce(a: usize, b: usize, square: impl Fn(usize) -> i8) -> i8 {
    let mut w = word(a);
    w.extend(word(b));
    let mut sign = 1i8;
    loop {
        let mut changed = false;
        let mut i = 0;
        while i + 1 < w.len() {
            if w[i] < w[i + 1] {
                w.swap(i, i + 1);
                sign = -sign;
                changed = true;
            } else if w[i] == w[i + 1] {
                sign *= square(w[i]);
                w.drain(i..i + 2);
                changed = true;
            }
            i += 1;
        }
        if !changed {
            return sign;
        }
    }
}
pub fn geo_sign(sig: &[i8], a: usize, b: usize) -> i8 {
    reduce(a, b, |g| sig[g])
}
pub fn wedge_sign(a: usize, b: usize) -> i8 {
    reduce(a, b, |_| 0)
}
/// sign of reordering alone: repeated generators contract to +1
pub fn ac_sign(a: usize, b: usize) -> i8 {
    reduce(a, b, |_| 1)
}

pub type Ref<T> = BTreeMap<usize, T>;

pub fn rget<T: Coef>(a: &Ref<T>, i: usize) -> T {
    a.get(&i).cloned().unwrap_or_else(T::zero)
}
pub fn norm<T: Coef>(a: Ref<T>) -> Ref<T> {
    a.into_iter().filter(|(_, c)| !c.same(&T::zero())).collect()
}
pub fn rprod<T: Coef>(a: &Ref<T>, b: &Ref<T>, sign: impl Fn(usize, usize) -> i8) -> Ref<T> {
    let mut r: Ref<T> = BTreeMap::new();
    for (i, x) in a {
        for (j, y) in b {
            let s = sign(*i, *j);
            if s == 0 {
                continue;
            }
            let p = x.mulr(y);
            let p = if s < 0 { p.negr() } else { p };
            let o = rget(&r, i ^ j);
            r.insert(i ^ j, o.addr(&p));
        }
    }
    norm(r)
}
pub fn rgeo<T: Coef>(sig: &[i8], a: &Ref<T>, b: &Ref<T>) -> Ref<T> {
    rprod(a, b, |x, y| geo_sign(sig, x, y))
}
pub fn rwedge<T: Coef>(a: &Ref<T>, b: &Ref<T>) -> Ref<T> {
    rprod(a, b, wedge_sign)
}
pub fn rmap<T: Coef>(a: &Ref<T>, f: impl Fn(usize, &T) -> (usize, T)) -> Ref<T> {
    norm(a.iter().map(|(i, c)| f(*i, c)).collect())
}
pub fn sgn<T: Coef>(s: i8, c: &T) -> T {
    match s {
        0 => T::zero(),
        1 => c.clone(),
        _ => c.negr(),
    }
}
pub fn rzip<T: Coef>(a: &Ref<T>, b: &Ref<T>, f: impl Fn(&T, &T) -> T) -> Ref<T> {
    let mut r = BTreeMap::new();
    for i in a.keys().chain(b.keys()) {
        r.insert(*i, f(&rget(a, *i), &rget(b, *i)));
    }
    norm(r)
}
pub fn radd<T: Coef>(a: &Ref<T>, b: &Ref<T>) -> Ref<T> {
    rzip(a, b, |x, y| x.addr(y))
}
pub fn rsub<T: Coef>(a: &Ref<T>, b: &Ref<T>) -> Ref<T> {
    rzip(a, b, |x, y| x.subr(y))
}
pub fn rneg<T: Coef>(a: &Ref<T>) -> Ref<T> {
    rmap(a, |i, c| (i, c.negr()))
}
pub fn rrev<T: Coef>(a: &Ref<T>) -> Ref<T> {
    rmap(a, |i, c| {
        let k = word(i).len();
        (i, sgn(if (k * k.wrapping_sub(1) / 2) % 2 == 0 { 1 } else { -1 }, c))
    })
}
pub fn rflip<T: Coef>(a: &Ref<T>, mask: usize) -> Ref<T> {
    rmap(a, |i, c| (i, sgn(if word(i & mask).len() % 2 == 0 { 1 } else { -1 }, c)))
}
pub fn rdual<T: Coef>(dim: usize, a: &Ref<T>) -> Ref<T> {
    let full = (1usize << dim) - 1;
    rmap(a, |i, c| (full ^ i, sgn(wedge_sign(full ^ i, i), c)))
}
pub fn rundual<T: Coef>(dim: usize, a: &Ref<T>) -> Ref<T> {
    let full = (1usize << dim) - 1;
    rmap(a, |i, c| (full ^ i, sgn(wedge_sign(i, full ^ i), c)))
}
pub fn rscalar<T: Coef>(c: T) -> Ref<T> {
    norm(BTreeMap::from([(0, c)]))
}

/// random multivector; `kind` cycles through shapes
pub fn rgen<T: Coef>(r: &mut Rng, dim: usize, max_terms: usize) -> Ref<T> {
    let full = (1usize << dim) - 1;
    let mut m: Ref<T> = BTreeMap::new();
    let small = dim <= 6 && (1usize << dim) <= max_terms;
    match r.below(12) {
        0 => {}
        1 => {
            m.insert(r.idx(dim), T::nonzero(r));
        }
        2 => {
            m.insert(full, T::nonzero(r));
            m.insert(r.idx(dim), T::gen(r));
        }
        3 => {
            m.insert(0, T::nonzero(r));
            m.insert(1usize << r.below(dim), T::nonzero(r));
        }
        4 => {
            for i in 0..dim.min(max_terms) {
                m.insert(1usize << (dim - 1 - i), T::gen(r));
            }
        }
        5 => {
            // one grade
            let g = r.below(dim + 1);
            for _ in 0..max_terms {
                let mut i = 0usize;
                let mut k = 0;
                while k < g {
                    let b = 1usize << r.below(dim);
                    if i & b == 0 {
                        i |= b;
                        k += 1;
                    }
                }
                m.insert(i, T::gen(r));
            }
        }
        6 => {
            // even part
            for _ in 0..max_terms {
                let i = r.idx(dim);
                if i.count_ones() % 2 == 0 {
                    m.insert(i, T::gen(r));
                }
            }
        }
        7 | 8 | 9 if small => {
            for i in 0..=full {
                m.insert(i, T::gen(r));
            }
        }
        10 => {
            for k in 0..3 {
                m.insert(full ^ r.idx(k + 1).min(full), T::gen(r));
                m.insert(r.idx((k + 1).min(dim)), T::gen(r));
            }
        }
        _ => {
            let n = 1 + r.below(max_terms);
            for _ in 0..n {
                m.insert(r.idx(dim), T::gen(r));
            }
        }
    }
    norm(m)
}
