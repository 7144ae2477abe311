// ---- exact coefficient arithmetic: the library's traits with the laws the proofs use.
pub trait Clone: Sized {
    fn v_clone(&self) -> (r: Self)
        ensures
            r == *self,
    ;
}

impl Clone for usize {
    fn v_clone(&self) -> (r: Self) {
        *self
    }
}

pub trait PartialEq: Sized {
    spec fn eq_req(&self, o: &Self) -> bool;

    spec fn eqs(&self, o: &Self) -> bool;

    fn eq(&self, other: &Self) -> (b: bool)
        requires
            self.eq_req(other),
        ensures
            b == self.eqs(other),
    ;
}

pub trait Ring: Sized + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> {
    spec fn z() -> Self;

    spec fn o() -> Self;

    spec fn a(x: Self, y: Self) -> Self;

    spec fn s(x: Self, y: Self) -> Self;

    spec fn m(x: Self, y: Self) -> Self;

    spec fn n(x: Self) -> Self;

    fn zero() -> (r: Self)
        ensures
            r == Self::z(),
    ;

    fn one() -> (r: Self)
        ensures
            r == Self::o(),
    ;

    fn is_zero(&self) -> (b: bool)
        ensures
            b == (*self == Self::z()),
    ;

    fn ref_add(&self, y: &Self) -> (r: Self)
        ensures
            r == Self::a(*self, *y),
    ;

    fn ref_sub(&self, y: &Self) -> (r: Self)
        ensures
            r == Self::s(*self, *y),
    ;

    fn ref_mul(&self, y: &Self) -> (r: Self)
        ensures
            r == Self::m(*self, *y),
    ;

    fn ref_neg(&self) -> (r: Self)
        ensures
            r == Self::n(*self),
    ;

    fn eq(&self, y: &Self) -> (b: bool)
        ensures
            b == (*self == *y),
    ;

    // operators by value
    proof fn ops()
        ensures
            <Self as AddSpec>::obeys_add_spec(),
            <Self as SubSpec>::obeys_sub_spec(),
            <Self as MulSpec>::obeys_mul_spec(),
            <Self as NegSpec>::obeys_neg_spec(),
            forall|x: Self, y: Self| #[trigger] x.add_req(y),
            forall|x: Self, y: Self| #[trigger] x.sub_req(y),
            forall|x: Self, y: Self| #[trigger] x.mul_req(y),
            forall|x: Self| #[trigger] x.neg_req(),
            forall|x: Self, y: Self| #[trigger] x.add_spec(y) == Self::a(x, y),
            forall|x: Self, y: Self| #[trigger] x.sub_spec(y) == Self::s(x, y),
            forall|x: Self, y: Self| #[trigger] x.mul_spec(y) == Self::m(x, y),
            forall|x: Self| #[trigger] x.neg_spec() == Self::n(x),
    ;

    proof fn add_comm(x: Self, y: Self)
        ensures
            Self::a(x, y) == Self::a(y, x),
    ;

    proof fn add_assoc(x: Self, y: Self, w: Self)
        ensures
            Self::a(Self::a(x, y), w) == Self::a(x, Self::a(y, w)),
    ;

    proof fn add_zero(x: Self)
        ensures
            Self::a(x, Self::z()) == x,
    ;

    proof fn add_neg(x: Self)
        ensures
            Self::a(x, Self::n(x)) == Self::z(),
    ;

    proof fn sub_def(x: Self, y: Self)
        ensures
            Self::s(x, y) == Self::a(x, Self::n(y)),
    ;

    proof fn mul_assoc(x: Self, y: Self, w: Self)
        ensures
            Self::m(Self::m(x, y), w) == Self::m(x, Self::m(y, w)),
    ;

    proof fn mul_one(x: Self)
        ensures
            Self::m(x, Self::o()) == x,
            Self::m(Self::o(), x) == x,
    ;

    proof fn dist_l(x: Self, y: Self, w: Self)
        ensures
            Self::m(x, Self::a(y, w)) == Self::a(Self::m(x, y), Self::m(x, w)),
    ;

    proof fn dist_r(x: Self, y: Self, w: Self)
        ensures
            Self::m(Self::a(x, y), w) == Self::a(Self::m(x, w), Self::m(y, w)),
    ;
}

pub trait DivRing: Ring + Div<Output = Self> {
    spec fn iv(x: Self) -> Self;

    fn ref_div(&self, y: &Self) -> (r: Self)
        ensures
            r == Self::m(*self, Self::iv(*y)),
    ;

    proof fn divops()
        ensures
            <Self as DivSpec>::obeys_div_spec(),
            forall|x: Self, y: Self| #[trigger] x.div_req(y),
            forall|x: Self, y: Self| #[trigger] x.div_spec(y) == Self::m(x, Self::iv(y)),
    ;

    proof fn inv_law(x: Self)
        requires
            x != Self::z(),
        ensures
            Self::m(x, Self::iv(x)) == Self::o(),
            Self::m(Self::iv(x), x) == Self::o(),
    ;
}

pub open spec fn dv<T: DivRing>(x: T, y: T) -> T {
    T::m(x, T::iv(y))
}

pub open spec fn comm<T: Ring>() -> bool {
    forall|x: T, y: T| #[trigger] T::m(x, y) == T::m(y, x)
}

// ---- consequences of the ring laws
pub proof fn r_zero<T: Ring>(x: T)
    ensures
        T::a(x, T::z()) == x,
        T::a(T::z(), x) == x,
{
    T::add_zero(x);
    T::add_comm(x, T::z());
}

pub proof fn r_cancel<T: Ring>(x: T, y: T, w: T)
    requires
        T::a(x, y) == T::a(x, w),
    ensures
        y == w,
{
    T::add_comm(x, T::n(x));
    T::add_neg(x);
    T::add_assoc(T::n(x), x, y);
    T::add_assoc(T::n(x), x, w);
    r_zero(y);
    r_zero(w);
}

// y with x + y == 0 is n(x)
pub proof fn r_neg_uniq<T: Ring>(x: T, y: T)
    requires
        T::a(x, y) == T::z(),
    ensures
        y == T::n(x),
{
    T::add_neg(x);
    r_cancel(x, y, T::n(x));
}

pub proof fn r_neg<T: Ring>(x: T)
    ensures
        T::n(T::n(x)) == x,
        T::n(T::z()) == T::z(),
        T::a(T::n(x), x) == T::z(),
        T::a(x, T::n(x)) == T::z(),
        T::s(x, x) == T::z(),
{
    T::add_neg(x);
    T::add_comm(x, T::n(x));
    r_neg_uniq(T::n(x), x);
    r_zero(T::z());
    r_neg_uniq(T::z(), T::z());
    T::sub_def(x, x);
}

pub proof fn r_neg_add<T: Ring>(x: T, y: T)
    ensures
        T::n(T::a(x, y)) == T::a(T::n(x), T::n(y)),
{
    let (nx, ny) = (T::n(x), T::n(y));
    r_add4(x, y, nx, ny);
    T::add_neg(x);
    T::add_neg(y);
    r_zero(T::z());
    r_neg_uniq(T::a(x, y), T::a(nx, ny));
}

// (x + y) + (u + v) == (x + u) + (y + v)
pub proof fn r_add4<T: Ring>(x: T, y: T, u: T, v: T)
    ensures
        T::a(T::a(x, y), T::a(u, v)) == T::a(T::a(x, u), T::a(y, v)),
{
    T::add_assoc(x, y, T::a(u, v));
    T::add_assoc(y, u, v);
    T::add_comm(y, u);
    T::add_assoc(u, y, v);
    T::add_assoc(x, u, T::a(y, v));
}

pub proof fn r_mul_zero<T: Ring>(x: T)
    ensures
        T::m(x, T::z()) == T::z(),
        T::m(T::z(), x) == T::z(),
{
    r_zero(T::z());
    T::dist_l(x, T::z(), T::z());
    T::dist_r(T::z(), T::z(), x);
    let p = T::m(x, T::z());
    let q = T::m(T::z(), x);
    r_zero(p);
    r_zero(q);
    r_cancel(p, p, T::z());
    r_cancel(q, q, T::z());
}

pub proof fn r_mul_neg<T: Ring>(x: T, y: T)
    ensures
        T::m(T::n(x), y) == T::n(T::m(x, y)),
        T::m(x, T::n(y)) == T::n(T::m(x, y)),
{
    T::add_neg(x);
    T::add_neg(y);
    r_mul_zero(x);
    r_mul_zero(y);
    T::dist_r(x, T::n(x), y);
    T::dist_l(x, y, T::n(y));
    r_neg_uniq(T::m(x, y), T::m(T::n(x), y));
    r_neg_uniq(T::m(x, y), T::m(x, T::n(y)));
}

// ---- a sign times a coefficient
pub open spec fn sg<T: Ring>(s: Sign, x: T) -> T {
    match s {
        Sign::Null => T::z(),
        Sign::Plus => x,
        Sign::Minus => T::n(x),
    }
}

pub open spec fn smul(s: Sign, t: Sign) -> Sign {
    match (s, t) {
        (Sign::Null, _) => Sign::Null,
        (_, Sign::Null) => Sign::Null,
        (Sign::Plus, x) => x,
        (Sign::Minus, Sign::Plus) => Sign::Minus,
        (Sign::Minus, Sign::Minus) => Sign::Plus,
    }
}

pub proof fn sg_props<T: Ring>(s: Sign, t: Sign, x: T, y: T)
    ensures
        sg(s, T::z()) == T::z(),
        sg(s, sg(t, x)) == sg(smul(s, t), x),
        sg(s, T::a(x, y)) == T::a(sg(s, x), sg(s, y)),
        T::m(sg(s, x), y) == sg(s, T::m(x, y)),
        T::m(x, sg(s, y)) == sg(s, T::m(x, y)),
        sg(s, T::n(x)) == T::n(sg(s, x)),
{
    r_neg(x);
    r_neg(T::z());
    r_zero(T::z());
    r_neg_add(x, y);
    r_mul_neg(x, y);
    r_mul_zero(x);
    r_mul_zero(y);
}

// ---- finite sums
pub open spec fn sum<T: Ring>(f: spec_fn(int) -> T, n: nat) -> T
    decreases n,
{
    if n == 0 {
        T::z()
    } else {
        T::a(sum(f, (n - 1) as nat), f(n - 1))
    }
}

pub proof fn sum_eq<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, n: nat)
    requires
        forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures
        sum(f, n) == sum(g, n),
    decreases n,
{
    if n > 0 {
        sum_eq(f, g, (n - 1) as nat);
    }
}

pub proof fn sum_zero<T: Ring>(f: spec_fn(int) -> T, n: nat)
    requires
        forall|i: int| 0 <= i < n ==> #[trigger] f(i) == T::z(),
    ensures
        sum(f, n) == T::z(),
    decreases n,
{
    if n > 0 {
        sum_zero(f, (n - 1) as nat);
        r_zero(T::z());
    }
}

// changing one zero term
pub proof fn sum_point<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, n: nat, p: int)
    requires
        0 <= p < n,
        f(p) == T::z(),
        forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == g(i),
    ensures
        sum(g, n) == T::a(sum(f, n), g(p)),
    decreases n,
{
    let k = (n - 1) as nat;
    if p == k {
        sum_eq(f, g, k);
        r_zero(sum(f, k));
    } else {
        sum_point(f, g, k, p);
        let s = sum(f, k);
        T::add_assoc(s, g(p), g(k as int));
        T::add_comm(g(p), g(k as int));
        T::add_assoc(s, g(k as int), g(p));
    }
}

// all terms but one vanish
pub proof fn sum_single<T: Ring>(f: spec_fn(int) -> T, n: nat, p: int)
    requires
        0 <= p < n,
        forall|i: int| 0 <= i < n && i != p ==> #[trigger] f(i) == T::z(),
    ensures
        sum(f, n) == f(p),
{
    let e = |i: int| T::z();
    sum_zero(e, n);
    sum_point(e, f, n, p);
    r_zero(f(p));
}

pub proof fn sum_add<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, h: spec_fn(int) -> T, n: nat)
    requires
        forall|i: int| 0 <= i < n ==> #[trigger] h(i) == T::a(f(i), g(i)),
    ensures
        sum(h, n) == T::a(sum(f, n), sum(g, n)),
    decreases n,
{
    if n > 0 {
        let k = (n - 1) as nat;
        sum_add(f, g, h, k);
        r_add4(sum(f, k), sum(g, k), f(k as int), g(k as int));
    } else {
        r_zero(T::z());
    }
}

pub proof fn sum_mul_r<T: Ring>(f: spec_fn(int) -> T, c: T, h: spec_fn(int) -> T, n: nat)
    requires
        forall|i: int| 0 <= i < n ==> #[trigger] h(i) == T::m(f(i), c),
    ensures
        sum(h, n) == T::m(sum(f, n), c),
    decreases n,
{
    if n > 0 {
        let k = (n - 1) as nat;
        sum_mul_r(f, c, h, k);
        T::dist_r(sum(f, k), f(k as int), c);
    } else {
        r_mul_zero(c);
    }
}

pub proof fn sum_mul_l<T: Ring>(f: spec_fn(int) -> T, c: T, h: spec_fn(int) -> T, n: nat)
    requires
        forall|i: int| 0 <= i < n ==> #[trigger] h(i) == T::m(c, f(i)),
    ensures
        sum(h, n) == T::m(c, sum(f, n)),
    decreases n,
{
    if n > 0 {
        let k = (n - 1) as nat;
        sum_mul_l(f, c, h, k);
        T::dist_l(c, sum(f, k), f(k as int));
    } else {
        r_mul_zero(c);
    }
}

pub proof fn sum_sg<T: Ring>(f: spec_fn(int) -> T, s: Sign, h: spec_fn(int) -> T, n: nat)
    requires
        forall|i: int| 0 <= i < n ==> #[trigger] h(i) == sg(s, f(i)),
    ensures
        sum(h, n) == sg(s, sum(f, n)),
    decreases n,
{
    sg_props(s, s, T::z(), T::z());
    if n > 0 {
        let k = (n - 1) as nat;
        sum_sg(f, s, h, k);
        sg_props(s, s, sum(f, k), f(k as int));
    }
}

pub proof fn sum_swap<T: Ring>(f: spec_fn(int, int) -> T, n: nat, m: nat)
    ensures
        sum(|i: int| sum(|j: int| f(i, j), m), n) == sum(|j: int| sum(|i: int| f(i, j), n), m),
    decreases n,
{
    let l = |i: int| sum(|j: int| f(i, j), m);
    let r = |j: int| sum(|i: int| f(i, j), n);
    if n == 0 {
        sum_zero(r, m);
    } else {
        let k = (n - 1) as nat;
        sum_swap(f, k, m);
        let r0 = |j: int| sum(|i: int| f(i, j), k);
        let row = |j: int| f(k as int, j);
        sum_add(r0, row, r, m);
    }
}

// splitting and shifting
pub proof fn sum_split<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, n: nat, m: nat)
    requires
        forall|i: int| 0 <= i < m ==> #[trigger] g(i) == f(n + i),
    ensures
        sum(f, n + m) == T::a(sum(f, n), sum(g, m)),
    decreases m,
{
    if m == 0 {
        r_zero(sum(f, n));
    } else {
        let k = (m - 1) as nat;
        sum_split(f, g, n, k);
        assert((n + m - 1) as nat == n + k);
        assert(g(k as int) == f(n + k as int));
        T::add_assoc(sum(f, n), sum(g, k), g(k as int));
    }
}

// conjugation of complex coefficients
pub trait ComplexFloat: Ring {
    spec fn cj(x: Self) -> Self;

    fn conj(&self) -> (r: Self)
        ensures
            r == Self::cj(*self),
    ;

    proof fn cj_zero()
        ensures
            Self::cj(Self::z()) == Self::z(),
    ;
}
