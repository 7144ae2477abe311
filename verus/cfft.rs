// ---- the fast transform: coefficients of Cl(n,n) <-> matrices of side 2^n
pub open spec fn p2(n: nat) -> nat
    decreases n,
{
    if n == 0 {
        1
    } else {
        2 * p2((n - 1) as nat)
    }
}

pub proof fn l_p2(n: nat)
    ensures
        p2(n) >= 1,
        n <= 63 ==> p2(n) == 1usize << (n as usize),
        n <= 63 ==> dimlen(p2(n), n as usize),
    decreases n,
{
    assert((1usize << 0usize) == 1) by (bit_vector);
    if n > 0 {
        l_p2((n - 1) as nat);
        if n <= 63 {
            let d = n as usize;
            let t = (n - 1) as usize;
            assert((1usize << d) == mul(2, 1usize << t) && (1usize << t) <= 0x4000_0000_0000_0000) by (bit_vector)
                requires
                    1 <= d <= 63,
                    t == d - 1,
            ;
        }
    }
}

pub proof fn l_p2_add(m: nat, n: nat)
    ensures
        p2(m + n) == p2(m) * p2(n),
    decreases m,
{
    if m > 0 {
        l_p2_add((m - 1) as nat, n);
        let (a, b) = (p2((m - 1) as nat), p2(n));
        assert(2 * (a * b) == (2 * a) * b) by (nonlinear_arith);
        assert(((m - 1) as nat + n) as nat == (m + n - 1) as nat);
        assert(p2(m + n) == 2 * p2((m + n - 1) as nat));
    } else {
        assert(1 * p2(n) == p2(n));
    }
}

pub proof fn l_p2_mono(m: nat, n: nat)
    requires
        m <= n,
    ensures
        p2(m) <= p2(n),
        m < n ==> 2 * p2(m) <= p2(n),
    decreases n,
{
    if m < n {
        l_p2_mono(m, (n - 1) as nat);
    }
    l_p2(m);
}

// parity of the number of generators in a blade; of the grade of a matrix unit
pub open spec fn par(k: int) -> Sign {
    pm(odd(pc(k as usize)))
}

pub open spec fn ap(i: int, j: int) -> Sign {
    par(xr(i, j))
}

pub open spec fn opp(s: Sign) -> Sign {
    smul(Sign::Minus, s)
}

pub proof fn l_par_top(k: int, t: usize)
    requires
        t < 63,
        0 <= k < (1usize << t),
    ensures
        par(k + (1usize << t)) == opp(par(k)),
        0 <= k + (1usize << t) <= usize::MAX,
{
    let h = 1usize << t;
    let x = k as usize;
    l_addtop(x, t);
    l_cnt_xor(x, h, 64);
    l_inv_one(t, t, 64);
}

pub proof fn l_par_zero()
    ensures
        par(0) == Sign::Plus,
        ap(0, 0) == Sign::Plus,
{
    l_pc_zero(64);
    assert(0usize ^ 0usize == 0) by (bit_vector);
}

// the four quarters of a side-2h matrix index
pub proof fn l_ap_top(i: int, j: int, t: usize)
    requires
        t < 63,
        0 <= i < (1usize << t),
        0 <= j < (1usize << t),
    ensures
        ap(i + (1usize << t), j) == opp(ap(i, j)),
        ap(i, j + (1usize << t)) == opp(ap(i, j)),
        ap(i + (1usize << t), j + (1usize << t)) == ap(i, j),
{
    l_xr_top(i, j, t);
    l_par_top(xr(i, j), t);
}

pub open spec fn qo(q: nat, s: int) -> int {
    if s <= 0 {
        0
    } else if s == 1 {
        q as int
    } else if s == 2 {
        (2 * q) as int
    } else if s == 3 {
        (3 * q) as int
    } else {
        (4 * q) as int
    }
}

pub open spec fn quart<T>(c: Seq<T>, s: int) -> Seq<T> {
    c.subrange(qo(c.len() / 4, s), qo(c.len() / 4, s + 1))
}

// side 2^n, coefficients 4^n
pub open spec fn sqlen(c: nat, n: nat) -> bool {
    c == p2(2 * n) && 2 * n <= 62
}

pub proof fn l_sq(c: nat, n: nat)
    requires
        sqlen(c, n),
        n > 0,
    ensures
        sqlen(c / 4, (n - 1) as nat),
        c == 4 * (c / 4),
        c / 4 >= 1,
        c / 4 == p2((2 * n - 2) as nat),
        p2(n) == 2 * p2((n - 1) as nat),
        p2(n) * p2(n) == c,
        p2((n - 1) as nat) * p2((n - 1) as nat) == c / 4,
        p2((n - 1) as nat) == 1usize << ((n - 1) as usize),
        c / 4 == 1usize << ((2 * n - 2) as usize),
        2 * (c / 4) == 1usize << ((2 * n - 1) as usize),
        c <= usize::MAX,
        p2((n - 1) as nat) >= 1,
{
    assert(p2(2 * n) == 2 * p2((2 * n - 1) as nat));
    assert(p2((2 * n - 1) as nat) == 2 * p2((2 * n - 2) as nat));
    assert((2 * (n - 1)) as nat == (2 * n - 2) as nat);
    l_p2((2 * n - 2) as nat);
    l_p2((2 * n - 1) as nat);
    l_p2(2 * n);
    l_p2((n - 1) as nat);
    l_p2_add(n, n);
    l_p2_add((n - 1) as nat, (n - 1) as nat);
}

pub open spec fn cl<T: Ring>(c: Seq<T>, n: nat, i: int, j: int) -> T
    decreases n,
{
    if n == 0 {
        c[0]
    } else {
        let m = (n - 1) as nat;
        let h = p2(m);
        if i < h && j < h {
            T::a(cl(quart(c, 0), m, i, j), cl(quart(c, 3), m, i, j))
        } else if j < h {
            T::s(cl(quart(c, 1), m, i - h, j), cl(quart(c, 2), m, i - h, j))
        } else if i < h {
            sg(ap(i, j - h), T::a(cl(quart(c, 1), m, i, j - h), cl(quart(c, 2), m, i, j - h)))
        } else {
            sg(ap(i - h, j - h), T::s(cl(quart(c, 0), m, i - h, j - h), cl(quart(c, 3), m, i - h, j - h)))
        }
    }
}

// row and column of the block an index is in
pub open spec fn lw(i: int, h: nat) -> int {
    if i < h {
        i
    } else {
        i - h
    }
}

pub proof fn r_sub_add<T: Ring>(x: T, y: T, u: T, v: T)
    ensures
        T::s(T::a(x, y), T::a(u, v)) == T::a(T::s(x, u), T::s(y, v)),
{
    T::sub_def(T::a(x, y), T::a(u, v));
    r_neg_add(u, v);
    r_add4(x, y, T::n(u), T::n(v));
    T::sub_def(x, u);
    T::sub_def(y, v);
}

pub proof fn sg_sub<T: Ring>(s: Sign, x: T, y: T)
    ensures
        sg(s, T::s(x, y)) == T::s(sg(s, x), sg(s, y)),
{
    T::sub_def(x, y);
    sg_props(s, s, x, T::n(y));
    sg_props(s, s, y, y);
    T::sub_def(sg(s, x), sg(s, y));
}

pub proof fn r_mul_sub<T: Ring>(x: T, y: T, c: T)
    ensures
        T::m(T::s(x, y), c) == T::s(T::m(x, c), T::m(y, c)),
        T::m(c, T::s(x, y)) == T::s(T::m(c, x), T::m(c, y)),
{
    T::sub_def(x, y);
    T::dist_r(x, T::n(y), c);
    T::dist_l(c, x, T::n(y));
    r_mul_neg(y, c);
    r_mul_neg(c, y);
    T::sub_def(T::m(x, c), T::m(y, c));
    T::sub_def(T::m(c, x), T::m(c, y));
}

pub proof fn l_cl_add<T: Ring>(a: Seq<T>, b: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(a.len(), n),
        b.len() == a.len(),
    ensures
        cl(vadd(a, b), n, i, j) == T::a(cl(a, n, i, j), cl(b, n, i, j)),
    decreases n,
{
    let v = vadd(a, b);
    if n > 0 {
        let m = (n - 1) as nat;
        let h = p2(m);
        l_sq(a.len(), n);
        let (i2, j2) = (lw(i, h), lw(j, h));
        assert forall|s: int| 0 <= s < 4 implies #[trigger] quart(v, s) == vadd(quart(a, s), quart(b, s)) by {
            assert(quart(v, s) =~= vadd(quart(a, s), quart(b, s)));
        }
        let (s, t) = if (i < h) == (j < h) { (0int, 3int) } else { (1int, 2int) };
        assert(quart(v, s) == vadd(quart(a, s), quart(b, s)));
        assert(quart(v, t) == vadd(quart(a, t), quart(b, t)));
        l_cl_add(quart(a, s), quart(b, s), m, i2, j2);
        l_cl_add(quart(a, t), quart(b, t), m, i2, j2);
        let (x, y, u, w) = (cl(quart(a, s), m, i2, j2), cl(quart(b, s), m, i2, j2), cl(quart(a, t), m, i2, j2), cl(quart(b, t), m, i2, j2));
        r_add4(x, y, u, w);
        r_sub_add(x, y, u, w);
        let g = ap(i2, j2);
        sg_props(g, g, T::a(x, u), T::a(y, w));
        sg_props(g, g, T::s(x, u), T::s(y, w));
    }
}

pub proof fn l_cl_sg<T: Ring>(a: Seq<T>, e: Sign, n: nat, i: int, j: int)
    requires
        sqlen(a.len(), n),
    ensures
        cl(sgv(e, a), n, i, j) == sg(e, cl(a, n, i, j)),
    decreases n,
{
    let v = sgv(e, a);
    if n > 0 {
        let m = (n - 1) as nat;
        let h = p2(m);
        l_sq(a.len(), n);
        let (i2, j2) = (lw(i, h), lw(j, h));
        let (s, t) = if (i < h) == (j < h) { (0int, 3int) } else { (1int, 2int) };
        assert(quart(v, s) =~= sgv(e, quart(a, s)));
        assert(quart(v, t) =~= sgv(e, quart(a, t)));
        l_cl_sg(quart(a, s), e, m, i2, j2);
        l_cl_sg(quart(a, t), e, m, i2, j2);
        let (x, u) = (cl(quart(a, s), m, i2, j2), cl(quart(a, t), m, i2, j2));
        sg_props(e, e, x, u);
        sg_sub(e, x, u);
        let g = ap(i2, j2);
        sg_props(g, e, T::a(x, u), u);
        sg_props(g, e, T::s(x, u), u);
        sg_props(e, g, T::a(x, u), u);
        sg_props(e, g, T::s(x, u), u);
    } else {
        l_p2(0);
    }
}

pub proof fn l_cl_scale<T: Ring>(a: Seq<T>, e: T, n: nat, i: int, j: int)
    requires
        sqlen(a.len(), n),
    ensures
        cl(scaler(a, e), n, i, j) == T::m(cl(a, n, i, j), e),
    decreases n,
{
    let v = scaler(a, e);
    if n > 0 {
        let m = (n - 1) as nat;
        let h = p2(m);
        l_sq(a.len(), n);
        let (i2, j2) = (lw(i, h), lw(j, h));
        let (s, t) = if (i < h) == (j < h) { (0int, 3int) } else { (1int, 2int) };
        assert(quart(v, s) =~= scaler(quart(a, s), e));
        assert(quart(v, t) =~= scaler(quart(a, t), e));
        l_cl_scale(quart(a, s), e, m, i2, j2);
        l_cl_scale(quart(a, t), e, m, i2, j2);
        let (x, u) = (cl(quart(a, s), m, i2, j2), cl(quart(a, t), m, i2, j2));
        T::dist_r(x, u, e);
        r_mul_sub(x, u, e);
        let g = ap(i2, j2);
        sg_props(g, g, T::a(x, u), e);
        sg_props(g, g, T::s(x, u), e);
    } else {
        l_p2(0);
    }
}

// parity on coefficients and on matrices
pub open spec fn alv<T: Ring>(a: Seq<T>) -> Seq<T> {
    Seq::new(a.len(), |k: int| sg(par(k), a[k]))
}

pub proof fn l_par_quart(l: int, s: int, n: nat)
    requires
        1 <= n,
        2 * n <= 62,
        0 <= s < 4,
        0 <= l < p2((2 * n - 2) as nat),
    ensures
        par(l + qo(p2((2 * n - 2) as nat), s)) == if s == 1 || s == 2 {
            opp(par(l))
        } else {
            par(l)
        },
{
    let t = (2 * n - 2) as usize;
    l_p2(t as nat);
    l_p2((t + 1) as nat);
    let q = p2(t as nat) as int;
    assert(p2((t + 1) as nat) == 2 * q);
    l_par_top(l, t);
    l_par_top(l, (t + 1) as usize);
    l_par_top(l + q, (t + 1) as usize);
}

pub proof fn l_alv_quart<T: Ring>(a: Seq<T>, n: nat, s: int)
    requires
        sqlen(a.len(), n),
        n > 0,
        0 <= s < 4,
    ensures
        quart(alv(a), s) == sgv(
            if s == 1 || s == 2 {
                Sign::Minus
            } else {
                Sign::Plus
            },
            alv(quart(a, s)),
        ),
{
    l_sq(a.len(), n);
    let q = a.len() / 4;
    let e = if s == 1 || s == 2 { Sign::Minus } else { Sign::Plus };
    let r = sgv(e, alv(quart(a, s)));
    assert(quart(alv(a), s).len() == q);
    assert forall|l: int| 0 <= l < q implies quart(alv(a), s)[l] == r[l] by {
        l_par_quart(l, s, n);
        let x = a[qo(q, s) + l];
        assert(quart(a, s)[l] == x);
        sg_props(Sign::Minus, par(l), x, x);
    }
    assert(quart(alv(a), s) =~= r);
}

pub proof fn l_cl_alpha<T: Ring>(a: Seq<T>, n: nat, i: int, j: int)
    requires
        sqlen(a.len(), n),
        0 <= i < p2(n),
        0 <= j < p2(n),
    ensures
        cl(alv(a), n, i, j) == sg(ap(i, j), cl(a, n, i, j)),
    decreases n,
{
    l_par_zero();
    l_p2(0);
    if n > 0 {
        let m = (n - 1) as nat;
        let h = p2(m);
        l_sq(a.len(), n);
        let (i2, j2) = (lw(i, h), lw(j, h));
        l_ap_top(i2, j2, m as usize);
        let (s, t) = if (i < h) == (j < h) { (0int, 3int) } else { (1int, 2int) };
        l_alv_quart(a, n, s);
        l_alv_quart(a, n, t);
        let e = if s == 1 { Sign::Minus } else { Sign::Plus };
        l_cl_sg(alv(quart(a, s)), e, m, i2, j2);
        l_cl_sg(alv(quart(a, t)), e, m, i2, j2);
        l_cl_alpha(quart(a, s), m, i2, j2);
        l_cl_alpha(quart(a, t), m, i2, j2);
        let (x, u) = (cl(quart(a, s), m, i2, j2), cl(quart(a, t), m, i2, j2));
        let g = ap(i2, j2);
        // block value: sg(g, sg(e, sg(g, x))) ..., wanted sg(e g, ...)
        let (gx, gu) = (sg(g, x), sg(g, u));
        sg_props(g, g, x, u);
        sg_sub(g, x, u);
        sg_props(e, g, T::a(x, u), u);
        sg_props(e, g, T::s(x, u), u);
        sg_props(e, e, gx, gu);
        sg_sub(e, gx, gu);
        sg_props(g, e, sg(g, T::a(x, u)), u);
        sg_props(g, e, sg(g, T::s(x, u)), u);
        sg_props(smul(g, e), g, T::a(x, u), u);
        sg_props(smul(g, e), g, T::s(x, u), u);
        sg_props(smul(e, g), g, T::a(x, u), u);
        sg_props(smul(e, g), g, T::s(x, u), u);
    }
}

// ---- the inverse
pub open spec fn shm<T>(m: spec_fn(int, int) -> T, h: int, s: int, t: int) -> spec_fn(int, int) -> T {
    |i: int, j: int| m(i + s * h, j + t * h)
}

pub open spec fn two<T: Ring>() -> T {
    T::a(T::o(), T::o())
}

pub open spec fn icl<T: DivRing>(m: spec_fn(int, int) -> T, n: nat, k: int) -> T
    decreases n,
{
    if n == 0 {
        m(0, 0)
    } else {
        let p = (n - 1) as nat;
        let h = p2(p) as int;
        let q = p2((2 * n - 2) as nat) as int;
        if k < q {
            dv(T::a(icl(shm(m, h, 0, 0), p, k), sg(par(k), icl(shm(m, h, 1, 1), p, k))), two())
        } else if k < 2 * q {
            dv(T::a(sg(par(k - q), icl(shm(m, h, 0, 1), p, k - q)), icl(shm(m, h, 1, 0), p, k - q)), two())
        } else if k < 3 * q {
            dv(T::s(sg(par(k - 2 * q), icl(shm(m, h, 0, 1), p, k - 2 * q)), icl(shm(m, h, 1, 0), p, k - 2 * q)), two())
        } else {
            dv(T::s(icl(shm(m, h, 0, 0), p, k - 3 * q), sg(par(k - 3 * q), icl(shm(m, h, 1, 1), p, k - 3 * q))), two())
        }
    }
}

pub open spec fn iclv<T: DivRing>(m: spec_fn(int, int) -> T, n: nat) -> Seq<T> {
    Seq::new(p2(2 * n), |k: int| icl(m, n, k))
}

pub open spec fn clm<T: Ring>(c: Seq<T>, n: nat) -> spec_fn(int, int) -> T {
    |i: int, j: int| cl(c, n, i, j)
}

pub proof fn l_icl_eq<T: DivRing>(m: spec_fn(int, int) -> T, w: spec_fn(int, int) -> T, n: nat, k: int)
    requires
        forall|i: int, j: int| 0 <= i < p2(n) && 0 <= j < p2(n) ==> #[trigger] m(i, j) == w(i, j),
    ensures
        icl(m, n, k) == icl(w, n, k),
    decreases n,
{
    l_p2(0);
    if n > 0 {
        let p = (n - 1) as nat;
        let h = p2(p) as int;
        let q = p2((2 * n - 2) as nat) as int;
        let l = if k < q { k } else if k < 2 * q { k - q } else if k < 3 * q { k - 2 * q } else { k - 3 * q };
        l_icl_eq(shm(m, h, 0, 0), shm(w, h, 0, 0), p, l);
        l_icl_eq(shm(m, h, 0, 1), shm(w, h, 0, 1), p, l);
        l_icl_eq(shm(m, h, 1, 0), shm(w, h, 1, 0), p, l);
        l_icl_eq(shm(m, h, 1, 1), shm(w, h, 1, 1), p, l);
    }
}

pub proof fn r_half<T: DivRing>(x: T, y: T)
    requires
        two::<T>() != T::z(),
    ensures
        dv(T::a(x, x), two()) == x,
        dv(T::a(T::a(x, y), T::s(x, y)), two()) == x,
        dv(T::s(T::a(x, y), T::s(x, y)), two()) == y,
        T::a(dv(x, two()), dv(x, two())) == x,
{
    let t = two::<T>();
    T::inv_law(t);
    let o = T::o();
    T::dist_l(x, o, o);
    T::mul_one(x);
    assert(T::a(x, x) == T::m(x, t));
    T::mul_assoc(x, t, T::iv(t));
    assert(dv(T::a(x, x), t) == x);
    // x + y + (x - y)
    T::sub_def(x, y);
    r_add4(x, y, x, T::n(y));
    T::add_neg(y);
    r_zero(T::a(x, x));
    // x + y - (x - y)
    T::sub_def(T::a(x, y), T::s(x, y));
    r_neg_add(x, T::n(y));
    r_neg(y);
    r_add4(x, y, T::n(x), y);
    T::add_neg(x);
    r_zero(T::a(y, y));
    T::dist_l(y, o, o);
    T::mul_one(y);
    T::mul_assoc(y, t, T::iv(t));
    // halves
    T::dist_r(x, x, T::iv(t));
    assert(T::a(dv(x, t), dv(x, t)) == dv(T::a(x, x), t));
}

// the coefficients come back
pub proof fn th_inv_of_fwd<T: DivRing>(c: Seq<T>, n: nat, k: int)
    requires
        sqlen(c.len(), n),
        0 <= k < c.len(),
        two::<T>() != T::z(),
    ensures
        icl(clm(c, n), n, k) == c[k],
    decreases n,
{
    l_p2(0);
    if n > 0 {
        let p = (n - 1) as nat;
        l_sq(c.len(), n);
        let h = p2(p) as int;
        let q = p2((2 * n - 2) as nat) as int;
        let m = clm(c, n);
        let (c0, c1, c2, c3) = (quart(c, 0), quart(c, 1), quart(c, 2), quart(c, 3));
        let (n1, n2, n3) = (sgv(Sign::Minus, c1), sgv(Sign::Minus, c2), sgv(Sign::Minus, c3));
        let l = if k < q { k } else if k < 2 * q { k - q } else if k < 3 * q { k - 2 * q } else { k - 3 * q };
        assert(0 <= l < q);
        let ma = vadd(c0, c3);
        let mb = alv(vadd(c1, c2));
        let mc = vadd(c1, n2);
        let md = alv(vadd(c0, n3));
        assert forall|i: int, j: int| 0 <= i < h && 0 <= j < h implies #[trigger] shm(m, h, 0, 0)(i, j) == clm(ma, p)(i, j) by {
            l_cl_add(c0, c3, p, i, j);
        }
        assert forall|i: int, j: int| 0 <= i < h && 0 <= j < h implies #[trigger] shm(m, h, 0, 1)(i, j) == clm(mb, p)(i, j) by {
            l_cl_add(c1, c2, p, i, j);
            l_cl_alpha(vadd(c1, c2), p, i, j);
        }
        assert forall|i: int, j: int| 0 <= i < h && 0 <= j < h implies #[trigger] shm(m, h, 1, 0)(i, j) == clm(mc, p)(i, j) by {
            l_cl_sg(c2, Sign::Minus, p, i, j);
            l_cl_add(c1, n2, p, i, j);
            T::sub_def(cl(c1, p, i, j), cl(c2, p, i, j));
        }
        assert forall|i: int, j: int| 0 <= i < h && 0 <= j < h implies #[trigger] shm(m, h, 1, 1)(i, j) == clm(md, p)(i, j) by {
            l_cl_sg(c3, Sign::Minus, p, i, j);
            l_cl_add(c0, n3, p, i, j);
            l_cl_alpha(vadd(c0, n3), p, i, j);
            T::sub_def(cl(c0, p, i, j), cl(c3, p, i, j));
        }
        l_icl_eq(shm(m, h, 0, 0), clm(ma, p), p, l);
        l_icl_eq(shm(m, h, 0, 1), clm(mb, p), p, l);
        l_icl_eq(shm(m, h, 1, 0), clm(mc, p), p, l);
        l_icl_eq(shm(m, h, 1, 1), clm(md, p), p, l);
        th_inv_of_fwd(ma, p, l);
        th_inv_of_fwd(mb, p, l);
        th_inv_of_fwd(mc, p, l);
        th_inv_of_fwd(md, p, l);
        let (x0, x1, x2, x3) = (c0[l], c1[l], c2[l], c3[l]);
        T::sub_def(x1, x2);
        T::sub_def(x0, x3);
        let g = par(l);
        sg_props(g, g, T::a(x1, x2), x0);
        sg_props(g, g, T::s(x0, x3), x0);
        r_half(x0, x3);
        r_half(x1, x2);
        assert(c[k] == if k < q { x0 } else if k < 2 * q { x1 } else if k < 3 * q { x2 } else { x3 });
    }
}

pub proof fn l_cl_eq<T: Ring>(c: Seq<T>, e: Seq<T>, n: nat, i: int, j: int)
    requires
        c == e,
    ensures
        cl(c, n, i, j) == cl(e, n, i, j),
{
}

// the matrix comes back
pub proof fn th_fwd_of_inv<T: DivRing>(m: spec_fn(int, int) -> T, n: nat, i: int, j: int)
    requires
        2 * n <= 62,
        0 <= i < p2(n),
        0 <= j < p2(n),
        two::<T>() != T::z(),
    ensures
        cl(iclv(m, n), n, i, j) == m(i, j),
    decreases n,
{
    l_p2(0);
    if n > 0 {
        let p = (n - 1) as nat;
        let c = iclv(m, n);
        l_sq(c.len(), n);
        let h = p2(p) as int;
        let q = p2((2 * n - 2) as nat) as int;
        assert((2 * p) as nat == (2 * n - 2) as nat);
        let (i2, j2) = (lw(i, h as nat), lw(j, h as nat));
        let ca = iclv(shm(m, h, 0, 0), p);
        let cb = iclv(shm(m, h, 0, 1), p);
        let cc = iclv(shm(m, h, 1, 0), p);
        let cd = iclv(shm(m, h, 1, 1), p);
        let (c0, c1, c2, c3) = (quart(c, 0), quart(c, 1), quart(c, 2), quart(c, 3));
        // sums and differences of the quarters
        let (v03, w03, v12, w12) = (vadd(c0, c3), vadd(c0, sgv(Sign::Minus, c3)), vadd(c1, c2), vadd(c1, sgv(Sign::Minus, c2)));
        assert forall|l: int| #![trigger v03[l]] #![trigger w03[l]] #![trigger v12[l]] #![trigger w12[l]] 0 <= l < q implies v03[l] == ca[l] && w03[l] == alv(cd)[l]
            && w12[l] == cc[l] && v12[l] == alv(cb)[l] by {
            let g = par(l);
            let (xa, xb, xc, xd) = (ca[l], sg(g, cb[l]), cc[l], sg(g, cd[l]));
            assert(c0[l] == dv(T::a(xa, xd), two()));
            assert(c1[l] == dv(T::a(xb, xc), two()));
            assert(c2[l] == dv(T::s(xb, xc), two()));
            assert(c3[l] == dv(T::s(xa, xd), two()));
            l_halves(xa, xd);
            l_halves(xb, xc);
            T::sub_def(c0[l], c3[l]);
            T::sub_def(c1[l], c2[l]);
        }
        assert(vadd(c0, c3) =~= ca);
        assert(vadd(c0, sgv(Sign::Minus, c3)) =~= alv(cd));
        assert(vadd(c1, c2) =~= alv(cb));
        assert(vadd(c1, sgv(Sign::Minus, c2)) =~= cc);
        l_cl_add(c0, c3, p, i2, j2);
        l_cl_add(c1, c2, p, i2, j2);
        l_cl_add(c0, sgv(Sign::Minus, c3), p, i2, j2);
        l_cl_add(c1, sgv(Sign::Minus, c2), p, i2, j2);
        l_cl_sg(c3, Sign::Minus, p, i2, j2);
        l_cl_sg(c2, Sign::Minus, p, i2, j2);
        T::sub_def(cl(c0, p, i2, j2), cl(c3, p, i2, j2));
        T::sub_def(cl(c1, p, i2, j2), cl(c2, p, i2, j2));
        l_cl_alpha(cb, p, i2, j2);
        l_cl_alpha(cd, p, i2, j2);
        th_fwd_of_inv(shm(m, h, 0, 0), p, i2, j2);
        th_fwd_of_inv(shm(m, h, 0, 1), p, i2, j2);
        th_fwd_of_inv(shm(m, h, 1, 0), p, i2, j2);
        th_fwd_of_inv(shm(m, h, 1, 1), p, i2, j2);
        let g = ap(i2, j2);
        sg_props(g, g, shm(m, h, 0, 1)(i2, j2), T::z());
        sg_props(g, g, shm(m, h, 1, 1)(i2, j2), T::z());
        assert(0 * h == 0 && 1 * h == h);
    }
}

pub proof fn l_halves<T: DivRing>(x: T, y: T)
    requires
        two::<T>() != T::z(),
    ensures
        T::a(dv(T::a(x, y), two()), dv(T::s(x, y), two())) == x,
        T::s(dv(T::a(x, y), two()), dv(T::s(x, y), two())) == y,
{
    let w = T::iv(two::<T>());
    T::dist_r(T::a(x, y), T::s(x, y), w);
    r_mul_sub(T::a(x, y), T::s(x, y), w);
    r_half(x, y);
}
