// ---- systems of linear equations, for the elimination
pub open spec fn dotf<T: Ring>(l: spec_fn(int) -> T, x: spec_fn(int) -> T, n: nat) -> T {
    sum(|k: int| T::m(l(k), x(k)), n)
}

// row i of the left and of the right half
pub open spec fn lrow<T>(w: spec_fn(int, int) -> T, i: int) -> spec_fn(int) -> T {
    |k: int| w(i, k)
}

pub open spec fn rrow<T>(w: spec_fn(int, int) -> T, n: nat, i: int) -> spec_fn(int) -> T {
    |k: int| w(i, n + k)
}

pub open spec fn eqn<T: Ring>(w: spec_fn(int, int) -> T, n: nat, i: int, x: spec_fn(int) -> T, y: spec_fn(int) -> T) -> bool {
    dotf(lrow(w, i), x, n) == dotf(rrow(w, n, i), y, n)
}

pub open spec fn sol<T: Ring>(w: spec_fn(int, int) -> T, n: nat, x: spec_fn(int) -> T, y: spec_fn(int) -> T) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] eqn(w, n, i, x, y)
}

pub open spec fn msol<T: Ring>(m: spec_fn(int, int) -> T, n: nat, x: spec_fn(int) -> T, y: spec_fn(int) -> T) -> bool {
    forall|i: int| 0 <= i < n ==> dotf(#[trigger] lrow(m, i), x, n) == y(i)
}

// the rows of w say what m says
pub open spec fn equiv<T: Ring>(w: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat) -> bool {
    forall|x: spec_fn(int) -> T, y: spec_fn(int) -> T| #[trigger] sol(w, n, x, y) == msol(m, n, x, y)
}

pub open spec fn dl<T: Ring>(i: int, j: int) -> T {
    if i == j {
        T::o()
    } else {
        T::z()
    }
}

pub open spec fn unitf<T: Ring>(b: int) -> spec_fn(int) -> T {
    |k: int| dl(k, b)
}

pub proof fn l_dotf_eq<T: Ring>(l: spec_fn(int) -> T, x: spec_fn(int) -> T, p: spec_fn(int) -> T, q: spec_fn(int) -> T, n: nat)
    requires
        forall|k: int| 0 <= k < n ==> #[trigger] l(k) == p(k),
        forall|k: int| 0 <= k < n ==> #[trigger] x(k) == q(k),
    ensures
        dotf(l, x, n) == dotf(p, q, n),
{
    let (f, g) = (|k: int| T::m(l(k), x(k)), |k: int| T::m(p(k), q(k)));
    assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by {
        assert(l(k) == p(k) && x(k) == q(k));
    }
    sum_eq(f, g, n);
}

// a single non-zero term
pub proof fn l_dotf_unit<T: Ring>(l: spec_fn(int) -> T, b: int, n: nat)
    ensures
        dotf(l, unitf(b), n) == if 0 <= b < n {
            l(b)
        } else {
            T::z()
        },
        dotf(unitf(b), l, n) == if 0 <= b < n {
            l(b)
        } else {
            T::z()
        },
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        l_dotf_unit(l, b, m);
        T::mul_one(l(m as int));
        r_mul_zero(l(m as int));
        r_zero(l(m as int));
        r_zero(T::z());
        r_zero(l(b));
    }
}

// l - c p
pub open spec fn rowsub<T: Ring>(l: spec_fn(int) -> T, p: spec_fn(int) -> T, c: T) -> spec_fn(int) -> T {
    |k: int| T::s(l(k), T::m(c, p(k)))
}

pub open spec fn rowscale<T: Ring>(l: spec_fn(int) -> T, c: T) -> spec_fn(int) -> T {
    |k: int| T::m(c, l(k))
}

pub proof fn l_dotf_lin<T: Ring>(l: spec_fn(int) -> T, p: spec_fn(int) -> T, c: T, x: spec_fn(int) -> T, n: nat)
    ensures
        dotf(rowsub(l, p, c), x, n) == T::s(dotf(l, x, n), T::m(c, dotf(p, x, n))),
        dotf(rowscale(p, c), x, n) == T::m(c, dotf(p, x, n)),
    decreases n,
{
    if n == 0 {
        r_mul_zero(c);
        r_neg(T::z());
        T::sub_def(T::z(), T::z());
    } else {
        let m = (n - 1) as nat;
        l_dotf_lin(l, p, c, x, m);
        let (u, v, t) = (l(m as int), p(m as int), x(m as int));
        let (du, dp) = (dotf(l, x, m), dotf(p, x, m));
        T::mul_assoc(c, v, t);
        T::dist_l(c, dp, T::m(v, t));
        // (u - c v) t = u t - c (v t)
        T::sub_def(u, T::m(c, v));
        T::dist_r(u, T::n(T::m(c, v)), t);
        r_mul_neg(T::m(c, v), t);
        let (a, b) = (T::m(u, t), T::m(c, T::m(v, t)));
        let d = T::m(c, dp);
        T::sub_def(du, d);
        T::sub_def(T::a(du, a), T::a(d, b));
        r_neg_add(d, b);
        r_add4(du, T::n(d), a, T::n(b));
    }
}

pub proof fn r_sub_eq<T: Ring>(x: T, y: T, u: T, v: T, c: T)
    requires
        u == v,
    ensures
        (T::s(x, T::m(c, u)) == T::s(y, T::m(c, v))) == (x == y),
{
    let w = T::m(c, u);
    T::sub_def(x, w);
    T::sub_def(y, w);
    if T::s(x, w) == T::s(y, w) {
        T::add_comm(x, T::n(w));
        T::add_comm(y, T::n(w));
        r_cancel(T::n(w), x, y);
    }
}

// adding a multiple of row i to row j changes nothing
pub proof fn l_elim<T: Ring>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, j: int, c: T)
    requires
        0 <= i < n,
        0 <= j < n,
        i != j,
        equiv(w, m, n),
        forall|a: int, k: int|
            vin2(a, k, n, 2 * n) ==> #[trigger] u(a, k) == if a == j {
                T::s(w(j, k), T::m(c, w(i, k)))
            } else {
                w(a, k)
            },
    ensures
        equiv(u, m, n),
{
    assert forall|x: spec_fn(int) -> T, y: spec_fn(int) -> T| #[trigger] sol(u, n, x, y) == msol(m, n, x, y) by {
        assert forall|a: int| 0 <= a < n && a != j implies #[trigger] eqn(u, n, a, x, y) == eqn(w, n, a, x, y) by {
            l_rows(u, w, n, a, x, y);
        }
        l_dotf_eq(lrow(u, j), x, rowsub(lrow(w, j), lrow(w, i), c), x, n);
        l_dotf_eq(rrow(u, n, j), y, rowsub(rrow(w, n, j), rrow(w, n, i), c), y, n);
        l_dotf_lin(lrow(w, j), lrow(w, i), c, x, n);
        l_dotf_lin(rrow(w, n, j), rrow(w, n, i), c, y, n);
        if eqn(w, n, i, x, y) {
            r_sub_eq(dotf(lrow(w, j), x, n), dotf(rrow(w, n, j), y, n), dotf(lrow(w, i), x, n), dotf(rrow(w, n, i), y, n), c);
            assert(eqn(u, n, j, x, y) == eqn(w, n, j, x, y));
        }
        assert(eqn(u, n, i, x, y) == eqn(w, n, i, x, y));
        if sol(u, n, x, y) {
            assert(eqn(u, n, i, x, y) && eqn(u, n, j, x, y));
            assert forall|a: int| 0 <= a < n implies #[trigger] eqn(w, n, a, x, y) by {
                assert(eqn(u, n, a, x, y));
            }
        }
        if sol(w, n, x, y) {
            assert(eqn(w, n, i, x, y) && eqn(w, n, j, x, y));
            assert forall|a: int| 0 <= a < n implies #[trigger] eqn(u, n, a, x, y) by {
                assert(eqn(w, n, a, x, y));
            }
        }
        assert(sol(u, n, x, y) == sol(w, n, x, y));
    }
}

// equal rows
pub proof fn l_rows<T: Ring>(u: spec_fn(int, int) -> T, w: spec_fn(int, int) -> T, n: nat, a: int, x: spec_fn(int) -> T, y: spec_fn(int) -> T)
    requires
        0 <= a < n,
        forall|k: int| 0 <= k < 2 * n ==> #[trigger] u(a, k) == w(a, k),
    ensures
        eqn(u, n, a, x, y) == eqn(w, n, a, x, y),
{
    l_dotf_eq(lrow(u, a), x, lrow(w, a), x, n);
    l_dotf_eq(rrow(u, n, a), y, rrow(w, n, a), y, n);
}

// multiplying row i by an invertible factor changes nothing
pub proof fn l_rescale<T: Ring>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, c: T, d: T)
    requires
        0 <= i < n,
        equiv(w, m, n),
        T::m(d, c) == T::o(),
        forall|a: int, k: int|
            vin2(a, k, n, 2 * n) ==> #[trigger] u(a, k) == if a == i {
                T::m(c, w(i, k))
            } else {
                w(a, k)
            },
    ensures
        equiv(u, m, n),
{
    assert forall|x: spec_fn(int) -> T, y: spec_fn(int) -> T| #[trigger] sol(u, n, x, y) == msol(m, n, x, y) by {
        assert forall|a: int| 0 <= a < n && a != i implies #[trigger] eqn(u, n, a, x, y) == eqn(w, n, a, x, y) by {
            l_rows(u, w, n, a, x, y);
        }
        l_dotf_eq(lrow(u, i), x, rowscale(lrow(w, i), c), x, n);
        l_dotf_eq(rrow(u, n, i), y, rowscale(rrow(w, n, i), c), y, n);
        l_dotf_lin(lrow(w, i), lrow(w, i), c, x, n);
        l_dotf_lin(rrow(w, n, i), rrow(w, n, i), c, y, n);
        let (p, q) = (dotf(lrow(w, i), x, n), dotf(rrow(w, n, i), y, n));
        T::mul_assoc(d, c, p);
        T::mul_assoc(d, c, q);
        T::mul_one(p);
        T::mul_one(q);
        assert(eqn(u, n, i, x, y) == eqn(w, n, i, x, y));
        if sol(u, n, x, y) {
            assert forall|a: int| 0 <= a < n implies #[trigger] eqn(w, n, a, x, y) by {
                assert(eqn(u, n, a, x, y));
            }
        }
        if sol(w, n, x, y) {
            assert forall|a: int| 0 <= a < n implies #[trigger] eqn(u, n, a, x, y) by {
                assert(eqn(w, n, a, x, y));
            }
        }
        assert(sol(u, n, x, y) == sol(w, n, x, y));
    }
}

pub open spec fn sw(i: int, j: int, a: int) -> int {
    if a == i {
        j
    } else if a == j {
        i
    } else {
        a
    }
}

// exchanging two rows changes nothing
pub proof fn l_exchange<T: Ring>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, j: int)
    requires
        0 <= i < n,
        0 <= j < n,
        equiv(w, m, n),
        forall|a: int, k: int| vin2(a, k, n, 2 * n) ==> #[trigger] u(a, k) == w(sw(i, j, a), k),
    ensures
        equiv(u, m, n),
{
    assert forall|x: spec_fn(int) -> T, y: spec_fn(int) -> T| #[trigger] sol(u, n, x, y) == msol(m, n, x, y) by {
        assert forall|a: int| 0 <= a < n implies #[trigger] eqn(u, n, a, x, y) == eqn(w, n, sw(i, j, a), x, y) by {
            l_dotf_eq(lrow(u, a), x, lrow(w, sw(i, j, a)), x, n);
            l_dotf_eq(rrow(u, n, a), y, rrow(w, n, sw(i, j, a)), y, n);
        }
        if sol(u, n, x, y) {
            assert forall|a: int| 0 <= a < n implies #[trigger] eqn(w, n, a, x, y) by {
                assert(eqn(u, n, sw(i, j, a), x, y));
                assert(sw(i, j, sw(i, j, a)) == a);
            }
        }
        if sol(w, n, x, y) {
            assert forall|a: int| 0 <= a < n implies #[trigger] eqn(u, n, a, x, y) by {
                assert(eqn(w, n, sw(i, j, a), x, y));
            }
        }
        assert(sol(u, n, x, y) == sol(w, n, x, y));
    }
}

// the beginning: the matrix and the identity
pub proof fn l_augmented<T: Ring>(w: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat)
    requires
        forall|a: int, k: int|
            vin2(a, k, n, 2 * n) ==> #[trigger] w(a, k) == if k < n {
                m(a, k)
            } else {
                dl(k - n, a)
            },
    ensures
        equiv(w, m, n),
{
    assert forall|x: spec_fn(int) -> T, y: spec_fn(int) -> T| #[trigger] sol(w, n, x, y) == msol(m, n, x, y) by {
        assert forall|a: int| 0 <= a < n implies #[trigger] eqn(w, n, a, x, y) == (dotf(lrow(m, a), x, n) == y(a)) by {
            l_dotf_eq(lrow(w, a), x, lrow(m, a), x, n);
            l_dotf_eq(rrow(w, n, a), y, unitf::<T>(a), y, n);
            l_dotf_unit(y, a, n);
        }
        if sol(w, n, x, y) {
            assert forall|i: int| 0 <= i < n implies dotf(#[trigger] lrow(m, i), x, n) == y(i) by {
                assert(eqn(w, n, i, x, y));
            }
        }
        if msol(m, n, x, y) {
            assert forall|i: int| 0 <= i < n implies #[trigger] eqn(w, n, i, x, y) by {
                assert(dotf(lrow(m, i), x, n) == y(i));
            }
        }
    }
}

// two matrices are inverse to each other
pub open spec fn minv<T: Ring>(m: spec_fn(int, int) -> T, b: spec_fn(int, int) -> T, n: nat) -> bool {
    forall|i: int, j: int| #![trigger mm(m, b, n, i, j)] #![trigger mm(b, m, n, i, j)] vin2(i, j, n, n) ==> mm(m, b, n, i, j) == dl::<T>(i, j) && mm(b, m, n, i, j) == dl::<T>(i, j)
}

// the end: the identity and the inverse
pub proof fn l_solved<T: Ring>(w: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, b: spec_fn(int, int) -> T, n: nat)
    requires
        equiv(w, m, n),
        forall|a: int, k: int| vin2(a, k, n, n) ==> #[trigger] w(a, k) == dl::<T>(k, a),
        forall|a: int, k: int| vin2(a, k, n, n) ==> #[trigger] b(a, k) == w(a, n + k),
    ensures
        minv(m, b, n),
{
    assert forall|i: int, j: int| #![trigger mm(m, b, n, i, j)] #![trigger mm(b, m, n, i, j)] vin2(i, j, n, n) implies mm(m, b, n, i, j) == dl::<T>(i, j) && mm(b, m, n, i, j) == dl::<T>(i, j) by {
        // M (B e_j) = e_j
        let y = unitf::<T>(j);
        let x = |k: int| b(k, j);
        assert forall|a: int| 0 <= a < n implies #[trigger] eqn(w, n, a, x, y) by {
            l_dotf_eq(lrow(w, a), x, unitf::<T>(a), x, n);
            l_dotf_unit(x, a, n);
            l_dotf_unit(rrow(w, n, a), j, n);
            assert(vin2(a, j, n, n) && b(a, j) == w(a, n + j));
        }
        assert(sol(w, n, x, y));
        assert(msol(m, n, x, y));
        assert(dotf(lrow(m, i), x, n) == y(i));
        let (f, g) = (|k: int| T::m(lrow(m, i)(k), x(k)), |k: int| T::m(m(i, k), b(k, j)));
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by {}
        sum_eq(f, g, n);
        // B (M e_j) = e_j
        let x2 = unitf::<T>(j);
        let y2 = |k: int| m(k, j);
        assert forall|a: int| 0 <= a < n implies dotf(#[trigger] lrow(m, a), x2, n) == y2(a) by {
            l_dotf_unit(lrow(m, a), j, n);
        }
        assert(msol(m, n, x2, y2));
        assert(sol(w, n, x2, y2));
        assert(eqn(w, n, i, x2, y2));
        l_dotf_unit(lrow(w, i), j, n);
        assert(w(i, j) == dl::<T>(j, i));
        let (f2, g2) = (|k: int| T::m(rrow(w, n, i)(k), y2(k)), |k: int| T::m(b(i, k), m(k, j)));
        assert forall|k: int| 0 <= k < n implies #[trigger] f2(k) == g2(k) by {
            assert(vin2(i, k, n, n) && b(i, k) == w(i, n + k));
        }
        sum_eq(f2, g2, n);
    }
}

// a vector that the matrix kills
pub open spec fn nullv<T: Ring>(m: spec_fn(int, int) -> T, n: nat, x: spec_fn(int) -> T) -> bool {
    (exists|i: int| 0 <= i < n && #[trigger] x(i) != T::z()) && forall|i: int| 0 <= i < n ==> dotf(#[trigger] lrow(m, i), x, n) == T::z()
}

pub open spec fn singular<T: Ring>(m: spec_fn(int, int) -> T, n: nat) -> bool {
    exists|x: spec_fn(int) -> T| nullv(m, n, x)
}

// zeros below the diagonal and ones on it, in the first t columns
pub open spec fn upper<T: Ring>(w: spec_fn(int, int) -> T, n: nat, t: int) -> bool {
    &&& forall|a: int, k: int| 0 <= k < t && k < a < n ==> #[trigger] w(a, k) == T::z()
    &&& forall|k: int| 0 <= k < t ==> #[trigger] w(k, k) == T::o()
}

// dot product where only the first terms count
pub proof fn l_dotf_short<T: Ring>(l: spec_fn(int) -> T, x: spec_fn(int) -> T, s: nat, n: nat)
    requires
        s <= n,
        forall|k: int| s <= k < n ==> T::m(#[trigger] l(k), x(k)) == T::z(),
    ensures
        dotf(l, x, n) == dotf(l, x, s),
    decreases n,
{
    if s < n {
        let m = (n - 1) as nat;
        l_dotf_short(l, x, s, m);
        assert(T::m(l(m as int), x(m as int)) == T::z());
        r_zero(dotf(l, x, m));
    }
}

pub proof fn l_dotf_zero<T: Ring>(l: spec_fn(int) -> T, x: spec_fn(int) -> T, n: nat)
    requires
        forall|k: int| 0 <= k < n ==> T::m(#[trigger] l(k), x(k)) == T::z(),
    ensures
        dotf(l, x, n) == T::z(),
{
    l_dotf_short(l, x, 0, n);
}

// dot product when one entry of x changes
pub open spec fn setf<T>(x: spec_fn(int) -> T, t: int, v: T) -> spec_fn(int) -> T {
    |k: int| if k == t { v } else { x(k) }
}

pub proof fn l_dotf_set<T: Ring>(l: spec_fn(int) -> T, x: spec_fn(int) -> T, t: int, v: T, n: nat)
    requires
        x(t) == T::z(),
    ensures
        dotf(l, setf(x, t, v), n) == if 0 <= t < n {
            T::a(dotf(l, x, n), T::m(l(t), v))
        } else {
            dotf(l, x, n)
        },
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        l_dotf_set(l, x, t, v, m);
        let (d, p, q) = (dotf(l, x, m), T::m(l(t), v), T::m(l(m as int), x(m as int)));
        r_mul_zero(l(t));
        r_zero(d);
        r_zero(p);
        T::add_assoc(d, p, q);
        T::add_comm(p, q);
        T::add_assoc(d, q, p);
    }
}

// with an unsolvable column there is a vector that every row kills
pub proof fn l_nullv<T: Ring>(w: spec_fn(int, int) -> T, n: nat, t: int, s: int) -> (x: spec_fn(int) -> T)
    requires
        0 <= s <= t < n,
        upper(w, n, t),
        forall|a: int| t <= a < n ==> #[trigger] w(a, t) == T::z(),
    ensures
        x(t) == T::o(),
        forall|k: int| 0 <= k < s || t < k ==> #[trigger] x(k) == T::z(),
        forall|a: int| s <= a < n ==> dotf(#[trigger] lrow(w, a), x, n) == T::z(),
    decreases t - s,
{
    if s == t {
        let x = unitf::<T>(t);
        assert forall|a: int| s <= a < n implies dotf(#[trigger] lrow(w, a), x, n) == T::z() by {
            l_dotf_unit(lrow(w, a), t, n);
            assert(w(a, t) == T::z());
        }
        x
    } else {
        let y = l_nullv(w, n, t, s + 1);
        let v = T::n(dotf(lrow(w, s), y, n));
        let x = setf(y, s, v);
        assert forall|a: int| s <= a < n implies dotf(#[trigger] lrow(w, a), x, n) == T::z() by {
            l_dotf_set(lrow(w, a), y, s, v, n);
            if a > s {
                assert(w(a, s) == T::z());
                r_mul_zero(v);
                assert(dotf(lrow(w, a), y, n) == T::z());
                r_zero(T::z());
            } else {
                assert(w(s, s) == T::o());
                T::mul_one(v);
                r_neg(dotf(lrow(w, s), y, n));
            }
        }
        x
    }
}

pub proof fn l_singular<T: Ring>(w: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, t: int)
    requires
        0 <= t < n,
        upper(w, n, t),
        equiv(w, m, n),
        T::z() != T::o(),
        forall|a: int| t <= a < n ==> #[trigger] w(a, t) == T::z(),
    ensures
        singular(m, n),
{
    let x = l_nullv(w, n, t, 0);
    let y = |k: int| T::z();
    assert forall|a: int| 0 <= a < n implies #[trigger] eqn(w, n, a, x, y) by {
        assert(dotf(lrow(w, a), x, n) == T::z());
        assert forall|k: int| 0 <= k < n implies T::m(#[trigger] rrow(w, n, a)(k), y(k)) == T::z() by {
            r_mul_zero(rrow(w, n, a)(k));
        }
        l_dotf_zero(rrow(w, n, a), y, n);
    }
    assert(sol(w, n, x, y));
    assert(msol(m, n, x, y));
    assert(x(t) != T::z());
    assert forall|i: int| 0 <= i < n implies dotf(#[trigger] lrow(m, i), x, n) == T::z() by {
        assert(y(i) == T::z());
    }
    assert(nullv(m, n, x));
}

// the steps of the elimination
pub proof fn l_step_swap<T: Ring>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, j: int)
    requires
        0 <= i <= j < n,
        equiv(w, m, n),
        upper(w, n, i),
        forall|a: int, k: int| vin2(a, k, n, 2 * n) ==> #[trigger] u(a, k) == w(sw(i, j, a), k),
    ensures
        equiv(u, m, n),
        upper(u, n, i),
        u(i, i) == w(j, i),
{
    l_exchange(w, u, m, n, i, j);
    assert forall|a: int, k: int| 0 <= k < i && k < a < n implies #[trigger] u(a, k) == T::z() by {
        assert(vin2(a, k, n, 2 * n));
        assert(w(sw(i, j, a), k) == T::z());
    }
    assert forall|k: int| 0 <= k < i implies #[trigger] u(k, k) == T::o() by {
        assert(vin2(k, k, n, 2 * n));
        assert(w(k, k) == T::o());
    }
    assert(vin2(i, i, n, 2 * n));
}

pub proof fn l_step_scale<T: DivRing>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, k: T)
    requires
        0 <= i < n,
        equiv(w, m, n),
        upper(w, n, i),
        k == w(i, i),
        k != T::z(),
        forall|a: int, c: int|
            vin2(a, c, n, 2 * n) ==> #[trigger] u(a, c) == if a == i {
                T::m(T::m(T::o(), T::iv(k)), w(i, c))
            } else {
                w(a, c)
            },
    ensures
        equiv(u, m, n),
        upper(u, n, i),
        u(i, i) == T::o(),
{
    let q = T::m(T::o(), T::iv(k));
    T::mul_one(T::iv(k));
    T::inv_law(k);
    assert forall|a: int, c: int| vin2(a, c, n, 2 * n) implies #[trigger] u(a, c) == (if a == i { T::m(q, w(i, c)) } else { w(a, c) }) by {
        if a == i && c < i {
            assert(w(a, c) == T::z());
            r_mul_zero(q);
        }
    }
    l_rescale(w, u, m, n, i, q, k);
    assert forall|a: int, c: int| 0 <= c < i && c < a < n implies #[trigger] u(a, c) == T::z() by {
        assert(vin2(a, c, n, 2 * n));
        r_mul_zero(q);
        assert(w(a, c) == T::z());
    }
    assert forall|c: int| 0 <= c < i implies #[trigger] u(c, c) == T::o() by {
        assert(vin2(c, c, n, 2 * n));
        assert(w(c, c) == T::o());
    }
    assert(vin2(i, i, n, 2 * n));
}

// zeros in column i below the diagonal, down to row j
pub open spec fn below<T: Ring>(w: spec_fn(int, int) -> T, i: int, j: int) -> bool {
    w(i, i) == T::o() && forall|a: int| i < a < j ==> #[trigger] w(a, i) == T::z()
}

pub proof fn r_sub_zero<T: Ring>(x: T, c: T)
    ensures
        T::s(x, T::m(c, T::z())) == x,
        T::s(x, T::m(x, T::o())) == T::z(),
{
    r_mul_zero(c);
    r_neg(T::z());
    T::sub_def(x, T::z());
    r_neg_uniq(T::z(), T::z());
    r_zero(x);
    r_zero(T::z());
    T::mul_one(x);
    T::sub_def(x, x);
    T::add_neg(x);
}

// left of its pivot a reduced row is zero, so that row operations with it change nothing there
pub proof fn l_row_left<T: Ring>(w: spec_fn(int, int) -> T, n: nat, t: int, i: int, j: int, q: T)
    requires
        upper(w, n, t),
        0 <= i < n,
        i <= t,
    ensures
        forall|c: int| 0 <= c < i ==> #[trigger] T::s(w(j, c), T::m(q, w(i, c))) == w(j, c),
        forall|c: int| 0 <= c < i ==> #[trigger] T::m(q, w(i, c)) == w(i, c),
{
    assert forall|c: int| 0 <= c < i implies #[trigger] T::s(w(j, c), T::m(q, w(i, c))) == w(j, c) by {
        assert(w(i, c) == T::z());
        r_sub_zero(w(j, c), q);
    }
    assert forall|c: int| 0 <= c < i implies #[trigger] T::m(q, w(i, c)) == w(i, c) by {
        assert(w(i, c) == T::z());
        r_mul_zero(q);
    }
}

pub proof fn l_step_elim<T: Ring>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, j: int)
    requires
        0 <= i < j < n,
        equiv(w, m, n),
        upper(w, n, i),
        below(w, i, j),
        forall|a: int, c: int|
            vin2(a, c, n, 2 * n) ==> #[trigger] u(a, c) == if a == j {
                T::s(w(j, c), T::m(w(j, i), w(i, c)))
            } else {
                w(a, c)
            },
    ensures
        equiv(u, m, n),
        upper(u, n, i),
        below(u, i, j + 1),
{
    let q = w(j, i);
    assert forall|a: int, c: int| vin2(a, c, n, 2 * n) implies #[trigger] u(a, c) == (if a == j { T::s(w(j, c), T::m(q, w(i, c))) } else { w(a, c) }) by {
        if a == j && c < i {
            assert(w(j, c) == T::z());
            assert(w(i, c) == T::z());
            r_sub_zero(T::z(), q);
        }
    }
    l_elim(w, u, m, n, i, j, q);
    assert forall|a: int, c: int| 0 <= c < i && c < a < n implies #[trigger] u(a, c) == T::z() by {
        assert(vin2(a, c, n, 2 * n));
        r_sub_zero(T::z(), q);
        assert(w(i, c) == T::z() || a != j);
        assert(w(a, c) == T::z());
    }
    assert forall|c: int| 0 <= c < i implies #[trigger] u(c, c) == T::o() by {
        assert(vin2(c, c, n, 2 * n));
        assert(w(c, c) == T::o());
    }
    assert(vin2(i, i, n, 2 * n));
    assert forall|a: int| i < a < j + 1 implies #[trigger] u(a, i) == T::z() by {
        assert(vin2(a, i, n, 2 * n));
        if a == j {
            r_sub_zero(q, q);
        } else {
            assert(w(a, i) == T::z());
        }
    }
}

pub proof fn l_upper_next<T: Ring>(w: spec_fn(int, int) -> T, n: nat, i: int)
    requires
        0 <= i < n,
        upper(w, n, i),
        below(w, i, n as int),
    ensures
        upper(w, n, i + 1),
{
    assert forall|a: int, c: int| 0 <= c < i + 1 && c < a < n implies #[trigger] w(a, c) == T::z() by {}
    assert forall|c: int| 0 <= c < i + 1 implies #[trigger] w(c, c) == T::o() by {}
}

// the columns from t on are those of the identity
pub open spec fn diag<T: Ring>(w: spec_fn(int, int) -> T, n: nat, t: int) -> bool {
    forall|a: int, c: int| 0 <= a < n && t <= c < n ==> #[trigger] w(a, c) == dl::<T>(c, a)
}

// zeros in column i above the diagonal, up to row j
pub open spec fn above<T: Ring>(w: spec_fn(int, int) -> T, i: int, j: int) -> bool {
    forall|a: int| j <= a < i ==> #[trigger] w(a, i) == T::z()
}

pub proof fn l_step_back<T: DivRing>(w: spec_fn(int, int) -> T, u: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int, j: int, q: T)
    requires
        0 <= j < i < n,
        T::z() != T::o(),
        equiv(w, m, n),
        upper(w, n, n as int),
        diag(w, n, i + 1),
        above(w, i, j + 1),
        q == T::m(T::m(T::o(), T::iv(w(i, i))), w(j, i)),
        forall|a: int, c: int|
            vin2(a, c, n, 2 * n) ==> #[trigger] u(a, c) == if a == j {
                T::s(w(j, c), T::m(q, w(i, c)))
            } else {
                w(a, c)
            },
    ensures
        equiv(u, m, n),
        upper(u, n, n as int),
        diag(u, n, i + 1),
        above(u, i, j),
{
    assert(w(i, i) == T::o());
    T::inv_law(T::o());
    T::mul_one(T::iv(T::o()));
    T::mul_one(T::o());
    T::mul_one(w(j, i));
    assert(q == w(j, i));
    assert forall|a: int, c: int| vin2(a, c, n, 2 * n) implies #[trigger] u(a, c) == (if a == j { T::s(w(j, c), T::m(q, w(i, c))) } else { w(a, c) }) by {
        if a == j && c < j {
            assert(w(j, c) == T::z());
            assert(w(i, c) == T::z());
            r_sub_zero(T::z(), q);
        }
    }
    l_elim(w, u, m, n, i, j, q);
    assert forall|a: int, c: int| 0 <= a < n && 0 <= c < n && c != i implies #[trigger] u(a, c) == w(a, c) by {
        assert(vin2(a, c, n, 2 * n));
        if a == j {
            if c < i {
                assert(w(i, c) == T::z());
            } else {
                assert(w(i, c) == dl::<T>(c, i));
            }
            r_sub_zero(w(j, c), q);
        }
    }
    assert forall|a: int| 0 <= a < n implies #[trigger] u(a, i) == (if a == j { T::z() } else { w(a, i) }) by {
        assert(vin2(a, i, n, 2 * n));
        r_sub_zero(q, q);
    }
    assert forall|a: int, c: int| 0 <= c < n && c < a < n implies #[trigger] u(a, c) == T::z() by {
        assert(w(a, c) == T::z());
        if c == i {
            assert(u(a, i) == w(a, i));
        } else {
            assert(u(a, c) == w(a, c));
        }
    }
    assert forall|c: int| 0 <= c < n implies #[trigger] u(c, c) == T::o() by {
        assert(w(c, c) == T::o());
        if c == i {
            assert(u(i, i) == w(i, i));
        } else {
            assert(u(c, c) == w(c, c));
        }
    }
    assert forall|a: int, c: int| 0 <= a < n && i + 1 <= c < n implies #[trigger] u(a, c) == dl::<T>(c, a) by {
        assert(u(a, c) == w(a, c));
    }
    assert forall|a: int| j <= a < i implies #[trigger] u(a, i) == T::z() by {
        if a > j {
            assert(w(a, i) == T::z());
        }
    }
}

pub proof fn l_diag_next<T: Ring>(w: spec_fn(int, int) -> T, n: nat, i: int)
    requires
        0 <= i < n,
        upper(w, n, n as int),
        diag(w, n, i + 1),
        above(w, i, 0),
    ensures
        diag(w, n, i),
{
    assert forall|a: int, c: int| 0 <= a < n && i <= c < n implies #[trigger] w(a, c) == dl::<T>(c, a) by {
        if c == i && a < i {
            assert(w(a, i) == T::z());
        } else if c == i && a > i {
            assert(w(a, i) == T::z());
        } else if c == i {
            assert(w(i, i) == T::o());
        }
    }
}

// if the largest entry of the column is zero, all are
pub proof fn l_no_pivot<T: Norm>(w: spec_fn(int, int) -> T, m: spec_fn(int, int) -> T, n: nat, i: int)
    requires
        0 <= i < n,
        upper(w, n, i),
        equiv(w, m, n),
        forall|a: int| i <= a < n ==> (#[trigger] w(a, i)).nrm() <= 0real,
    ensures
        singular(m, n),
{
    T::norm_law(T::z());
    assert forall|a: int| i <= a < n implies #[trigger] w(a, i) == T::z() by {
        T::norm_law(w(a, i));
    }
    l_singular(w, m, n, i);
}

pub proof fn l_minv_eq<T: Ring>(m: spec_fn(int, int) -> T, b: spec_fn(int, int) -> T, c: spec_fn(int, int) -> T, n: nat)
    requires
        minv(m, b, n),
        forall|i: int, j: int| vin2(i, j, n, n) ==> #[trigger] c(i, j) == b(i, j),
    ensures
        minv(m, c, n),
{
    assert forall|i: int, j: int| #![trigger mm(m, c, n, i, j)] #![trigger mm(c, m, n, i, j)] vin2(i, j, n, n) implies mm(m, c, n, i, j) == dl::<T>(i, j) && mm(c, m, n, i, j) == dl::<T>(i, j) by {
        assert forall|k: int| 0 <= k < n implies #[trigger] c(k, j) == b(k, j) by {
            assert(vin2(k, j, n, n));
        }
        assert forall|k: int| 0 <= k < n implies #[trigger] c(i, k) == b(i, k) by {
            assert(vin2(i, k, n, n));
        }
        l_mm_eq(m, c, m, b, n, i, j);
        l_mm_eq(c, m, b, m, n, i, j);
        assert(mm(m, b, n, i, j) == dl::<T>(i, j));
    }
}

// M B = 1 on the left leaves no vector for M to kill
pub proof fn l_nullv_mm<T: Ring>(m: spec_fn(int, int) -> T, b: spec_fn(int, int) -> T, n: nat, x: spec_fn(int) -> T)
    requires
        nullv(m, n, x),
    ensures
        !forall|i: int, j: int| vin2(i, j, n, n) ==> #[trigger] mm(b, m, n, i, j) == dl::<T>(i, j),
{
    if forall|i: int, j: int| vin2(i, j, n, n) ==> #[trigger] mm(b, m, n, i, j) == dl::<T>(i, j) {
        let i = choose|i: int| 0 <= i < n && #[trigger] x(i) != T::z();
        // sum_j (sum_k b_ik m_kj) x_j = sum_k b_ik (sum_j m_kj x_j)
        let f = |j: int, k: int| T::m(T::m(b(i, k), m(k, j)), x(j));
        let g = |k: int, j: int| T::m(T::m(b(i, k), m(k, j)), x(j));
        let fj = |j: int| sum(|k: int| f(j, k), n);
        let gk = |k: int| sum(|j: int| f(j, k), n);
        sum_swap(f, n, n);
        assert forall|j: int| 0 <= j < n implies #[trigger] fj(j) == T::m(dl::<T>(j, i), x(j)) by {
            let p = |k: int| T::m(b(i, k), m(k, j));
            sum_mul_r(p, x(j), |k: int| f(j, k), n);
            assert(vin2(i, j, n, n));
            assert(mm(b, m, n, i, j) == dl::<T>(i, j));
        }
        let e = |j: int| T::m(unitf::<T>(i)(j), x(j));
        sum_eq(fj, e, n);
        l_dotf_unit(x, i, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] gk(k) == T::z() by {
            let p = |j: int| T::m(lrow(m, k)(j), x(j));
            let q = |j: int| f(j, k);
            assert forall|j: int| 0 <= j < n implies #[trigger] q(j) == T::m(b(i, k), p(j)) by {
                T::mul_assoc(b(i, k), m(k, j), x(j));
            }
            sum_mul_l(p, b(i, k), q, n);
            assert(dotf(lrow(m, k), x, n) == T::z());
            r_mul_zero(b(i, k));
        }
        sum_zero(gk, n);
        assert(false);
    }
}
