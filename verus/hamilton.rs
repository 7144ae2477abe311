// ---- the division algebras: one or two generators squaring to -1
pub open spec fn isdiv(d: usize, im: usize, pr: usize) -> bool {
    pr == 0 && ((d == 1 && im == 1) || (d == 2 && im == 3))
}

// conjugation: reversal and grade involution together
pub open spec fn ccv<T: Ring>(a: Seq<T>) -> Seq<T> {
    flipv(revv(a), allnull())
}

pub open spec fn conj4<T: Ring>(a: Seq<T>) -> Seq<T> {
    seq![a[0], T::n(a[1]), T::n(a[2]), T::n(a[3])]
}

pub open spec fn sq<T: Ring>(x: T) -> T {
    T::m(x, x)
}

pub open spec fn norm2<T: Ring>(a: Seq<T>) -> T {
    T::a(sq(a[0]), sq(a[1]))
}

pub open spec fn norm4<T: Ring>(a: Seq<T>) -> T {
    T::a(T::a(T::a(sq(a[0]), sq(a[1])), sq(a[2])), sq(a[3]))
}

pub proof fn l_div_signs()
    ensures
        geos(1, 1, 1, 0) == Sign::Minus,
        geos(1, 1, 3, 0) == Sign::Minus,
        geos(2, 2, 3, 0) == Sign::Minus,
        geos(3, 3, 3, 0) == Sign::Minus,
        geos(1, 2, 3, 0) == Sign::Minus,
        geos(2, 1, 3, 0) == Sign::Plus,
        geos(2, 3, 3, 0) == Sign::Minus,
        geos(3, 2, 3, 0) == Sign::Plus,
        geos(3, 1, 3, 0) == Sign::Minus,
        geos(1, 3, 3, 0) == Sign::Plus,
        revs(0) == Sign::Plus,
        revs(1) == Sign::Plus,
        revs(2) == Sign::Plus,
        revs(3) == Sign::Minus,
        flips(0, allnull()) == Sign::Plus,
        flips(1, allnull()) == Sign::Minus,
        flips(2, allnull()) == Sign::Minus,
        flips(3, allnull()) == Sign::Plus,
{
    assert(geos(1, 1, 1, 0) == Sign::Minus) by (compute);
    assert(geos(1, 1, 3, 0) == Sign::Minus) by (compute);
    assert(geos(2, 2, 3, 0) == Sign::Minus) by (compute);
    assert(geos(3, 3, 3, 0) == Sign::Minus) by (compute);
    assert(geos(1, 2, 3, 0) == Sign::Minus) by (compute);
    assert(geos(2, 1, 3, 0) == Sign::Plus) by (compute);
    assert(geos(2, 3, 3, 0) == Sign::Minus) by (compute);
    assert(geos(3, 2, 3, 0) == Sign::Plus) by (compute);
    assert(geos(3, 1, 3, 0) == Sign::Minus) by (compute);
    assert(geos(1, 3, 3, 0) == Sign::Plus) by (compute);
    assert(revs(0) == Sign::Plus) by (compute);
    assert(revs(1) == Sign::Plus) by (compute);
    assert(revs(2) == Sign::Plus) by (compute);
    assert(revs(3) == Sign::Minus) by (compute);
    assert(flips(0, allnull()) == Sign::Plus) by (compute);
    assert(flips(1, allnull()) == Sign::Minus) by (compute);
    assert(flips(2, allnull()) == Sign::Minus) by (compute);
    assert(flips(3, allnull()) == Sign::Plus) by (compute);
}

pub proof fn l_xor4()
    ensures
        xr(0, 0) == 0 && xr(0, 1) == 1 && xr(0, 2) == 2 && xr(0, 3) == 3,
        xr(1, 0) == 1 && xr(2, 0) == 2 && xr(3, 0) == 3,
        xr(1, 1) == 0 && xr(2, 2) == 0 && xr(3, 3) == 0,
        xr(1, 2) == 3,
        xr(2, 1) == 3,
        xr(1, 3) == 2,
        xr(3, 1) == 2,
        xr(2, 3) == 1,
        xr(3, 2) == 1,
        dimlen(2, 1),
        dimlen(4, 2),
{
    assert(1usize ^ 2 == 3 && 2usize ^ 1 == 3 && 1usize ^ 3 == 2 && 3usize ^ 1 == 2 && 2usize ^ 3 == 1 && 3usize ^ 2 == 1) by (bit_vector);
    assert((1usize << 1) == 2 && (1usize << 2) == 4) by (bit_vector);
    assert(0usize ^ 0 == 0 && 0usize ^ 1 == 1 && 0usize ^ 2 == 2 && 0usize ^ 3 == 3 && 1usize ^ 0 == 1 && 2usize ^ 0 == 2 && 3usize ^ 0 == 3) by (bit_vector);
    assert(1usize ^ 1 == 0 && 2usize ^ 2 == 0 && 3usize ^ 3 == 0) by (bit_vector);
}

pub proof fn l_cj4<T: Ring>(a: Seq<T>)
    requires
        a.len() == 4,
    ensures
        ccv(a) == conj4(a),
{
    l_div_signs();
    r_neg(a[3]);
    assert forall|i: int| 0 <= i < 4 implies ccv(a)[i] == conj4(a)[i] by {
        assert(i == 0 || i == 1 || i == 2 || i == 3);
    }
    assert(ccv(a) =~= conj4(a));
}

pub open spec fn scal<T: Ring>(n: nat, x: T) -> Seq<T> {
    blade(n, 0, x)
}

pub proof fn sum4<T: Ring>(f: spec_fn(int) -> T)
    ensures
        sum(f, 2) == T::a(f(0), f(1)),
        sum(f, 4) == T::a(T::a(T::a(f(0), f(1)), f(2)), f(3)),
{
    reveal_with_fuel(sum, 5);
    r_zero(f(0));
}

// x + y + u + v with x + y == 0 and u + v == 0
pub proof fn l_cancel4<T: Ring>(x: T, y: T, u: T, v: T)
    requires
        T::a(x, y) == T::z(),
        T::a(u, v) == T::z(),
    ensures
        T::a(T::a(T::a(x, y), u), v) == T::z(),
{
    r_zero(u);
}

// x + u + y + v with x + y == 0 and u + v == 0
pub proof fn l_cancel4b<T: Ring>(x: T, u: T, y: T, v: T)
    requires
        T::a(x, y) == T::z(),
        T::a(u, v) == T::z(),
    ensures
        T::a(T::a(T::a(x, u), y), v) == T::z(),
        T::a(T::a(T::a(x, u), v), y) == T::z(),
{
    T::add_assoc(T::a(x, u), y, v);
    T::add_assoc(T::a(x, u), v, y);
    T::add_comm(v, y);
    r_add4(x, u, y, v);
    r_zero(T::z());
}

pub proof fn l_norm_q<T: Ring>(a: Seq<T>)
    requires
        a.len() == 4,
        comm::<T>(),
    ensures
        prod(a, ccv(a), 3, 0) == scal(4, norm4(a)),
        prod(ccv(a), a, 3, 0) == scal(4, norm4(a)),
{
    l_cj4(a);
    l_div_signs();
    l_xor4();
    let c = ccv(a);
    assert forall|k: int| 0 <= k < 4 implies prod(a, c, 3, 0)[k] == scal(4, norm4(a))[k] && prod(c, a, 3, 0)[k] == scal(4, norm4(a))[k] by {
        let f = pterm(a, c, 3, 0, k);
        let g = pterm(c, a, 3, 0, k);
        sum4(f);
        sum4(g);
        assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies #[trigger] T::m(a[i], T::n(a[j])) == T::n(T::m(a[i], a[j])) && T::m(T::n(a[i]), a[j]) == T::n(T::m(a[i], a[j])) && T::n(T::n(T::m(a[i], a[j]))) == T::m(a[i], a[j]) && T::a(T::m(a[i], a[j]), T::n(T::m(a[i], a[j]))) == T::z() && T::a(T::n(T::m(a[i], a[j])), T::m(a[i], a[j])) == T::z() && T::m(a[i], a[j]) == T::m(a[j], a[i]) by {
            r_mul_neg(a[i], a[j]);
            r_neg(T::m(a[i], a[j]));
        }
        l_gs_unit(0, 3, 0);
        l_gs_unit(1, 3, 0);
        l_gs_unit(2, 3, 0);
        l_gs_unit(3, 3, 0);
        let t = |i: int, j: int| T::m(a[i], T::n(a[j]));
        assert(t(0, 0) == T::n(T::m(a[0], a[0])) && t(1, 1) == T::n(sq(a[1])) && t(2, 2) == T::n(sq(a[2])) && t(3, 3) == T::n(sq(a[3])));
        assert(t(0, 1) == T::n(T::m(a[0], a[1])) && t(0, 2) == T::n(T::m(a[0], a[2])) && t(0, 3) == T::n(T::m(a[0], a[3])));
        assert(t(1, 0) == T::n(T::m(a[1], a[0])) && t(2, 0) == T::n(T::m(a[2], a[0])) && t(3, 0) == T::n(T::m(a[3], a[0])));
        assert(t(1, 2) == T::n(T::m(a[1], a[2])) && t(2, 1) == T::n(T::m(a[2], a[1])));
        assert(t(1, 3) == T::n(T::m(a[1], a[3])) && t(3, 1) == T::n(T::m(a[3], a[1])));
        assert(t(2, 3) == T::n(T::m(a[2], a[3])) && t(3, 2) == T::n(T::m(a[3], a[2])));
        if k == 0 {
            assert(f(0) == sq(a[0]) && f(1) == sq(a[1]) && f(2) == sq(a[2]) && f(3) == sq(a[3]));
            assert(g(0) == sq(a[0]) && g(1) == sq(a[1]) && g(2) == sq(a[2]) && g(3) == sq(a[3]));
        } else if k == 1 {
            let (p, q) = (T::m(a[0], a[1]), T::m(a[2], a[3]));
            assert(f(0) == T::n(p) && f(1) == p && f(2) == q && f(3) == T::n(q));
            assert(g(0) == p && g(1) == T::n(p) && g(2) == q && g(3) == T::n(q));
            l_cancel4(f(0), f(1), f(2), f(3));
            l_cancel4(g(0), g(1), g(2), g(3));
        } else if k == 2 {
            let (p, q) = (T::m(a[0], a[2]), T::m(a[1], a[3]));
            assert(f(0) == T::n(p) && f(2) == p && f(1) == T::n(q) && f(3) == q);
            assert(g(0) == p && g(2) == T::n(p) && g(1) == T::n(q) && g(3) == q);
            l_cancel4b(f(0), f(1), f(2), f(3));
            l_cancel4b(g(0), g(1), g(2), g(3));
        } else {
            let (p, q) = (T::m(a[0], a[3]), T::m(a[1], a[2]));
            assert(f(0) == T::n(p) && f(3) == p && f(1) == q && f(2) == T::n(q));
            assert(g(0) == p && g(3) == T::n(p) && g(1) == q && g(2) == T::n(q));
            l_cancel4b(f(0), f(1), f(3), f(2));
            l_cancel4b(g(0), g(1), g(3), g(2));
        }
    }
    assert(prod(a, c, 3, 0) =~= scal(4, norm4(a)));
    assert(prod(c, a, 3, 0) =~= scal(4, norm4(a)));
}

pub proof fn l_norm_c<T: Ring>(a: Seq<T>)
    requires
        a.len() == 2,
        comm::<T>(),
    ensures
        prod(a, ccv(a), 1, 0) == scal(2, norm2(a)),
        prod(ccv(a), a, 1, 0) == scal(2, norm2(a)),
{
    l_div_signs();
    l_xor4();
    let c = ccv(a);
    assert(c[0] == a[0] && c[1] == T::n(a[1]));
    assert forall|k: int| 0 <= k < 2 implies prod(a, c, 1, 0)[k] == scal(2, norm2(a))[k] && prod(c, a, 1, 0)[k] == scal(2, norm2(a))[k] by {
        let f = pterm(a, c, 1, 0, k);
        let g = pterm(c, a, 1, 0, k);
        sum4(f);
        sum4(g);
        r_mul_neg(a[0], a[1]);
        r_mul_neg(a[1], a[0]);
        r_mul_neg(a[1], a[1]);
        r_neg(sq(a[1]));
        r_neg(T::m(a[0], a[1]));
        l_gs_unit(0, 1, 0);
        l_gs_unit(1, 1, 0);
        if k == 0 {
            assert(f(0) == sq(a[0]) && f(1) == sq(a[1]));
            assert(g(0) == sq(a[0]) && g(1) == sq(a[1]));
        } else {
            let p = T::m(a[0], a[1]);
            assert(p == T::m(a[1], a[0]));
            assert(f(0) == T::n(p) && f(1) == p);
            assert(g(0) == p && g(1) == T::n(p));
        }
    }
    assert(prod(a, c, 1, 0) =~= scal(2, norm2(a)));
    assert(prod(c, a, 1, 0) =~= scal(2, norm2(a)));
}

// i*i = j*j = k*k = i*j*k = -1
pub proof fn th_hamilton<T: Ring>()
    ensures
        ({
            let i = blade::<T>(4, 1, T::o());
            let j = blade::<T>(4, 2, T::o());
            let k = blade::<T>(4, 3, T::n(T::o()));
            let m1 = scal::<T>(4, T::n(T::o()));
            prod(i, i, 3, 0) == m1 && prod(j, j, 3, 0) == m1 && prod(k, k, 3, 0) == m1 && prod(prod(i, j, 3, 0), k, 3, 0) == m1
                && m1 == vneg(onev::<T>(4))
        }),
{
    let o = T::o();
    let i = blade::<T>(4, 1, o);
    let j = blade::<T>(4, 2, o);
    let k = blade::<T>(4, 3, T::n(o));
    let m1 = scal::<T>(4, T::n(o));
    l_div_signs();
    l_xor4();
    l_blade_mul(i, 3, 0, 1, o, 2);
    l_blade_mul(j, 3, 0, 2, o, 2);
    l_blade_mul(k, 3, 0, 3, T::n(o), 2);
    l_blade_mul(j, 3, 0, 1, o, 2);
    T::mul_one(o);
    T::mul_one(T::n(o));
    r_mul_neg(o, T::n(o));
    r_mul_neg(o, o);
    r_neg(o);
    r_mul_zero(o);
    r_mul_zero(T::n(o));
    r_neg(T::z());
    let ij = prod(i, j, 3, 0);
    assert forall|q: int| 0 <= q < 4 implies ij[q] == k[q] by {
        assert(q == 0 || q == 1 || q == 2 || q == 3);
        sg_props(gs(1, xr(1, q), 3, 0), Sign::Plus, T::z(), T::z());
    }
    assert(ij =~= k);
    assert forall|q: int| 0 <= q < 4 implies prod(i, i, 3, 0)[q] == m1[q] && prod(j, j, 3, 0)[q] == m1[q] && prod(k, k, 3, 0)[q] == m1[q]
        && prod(ij, k, 3, 0)[q] == m1[q] by {
        assert(q == 0 || q == 1 || q == 2 || q == 3);
        sg_props(gs(1, xr(1, q), 3, 0), Sign::Plus, T::z(), T::z());
        sg_props(gs(2, xr(2, q), 3, 0), Sign::Plus, T::z(), T::z());
        sg_props(gs(3, xr(3, q), 3, 0), Sign::Plus, T::z(), T::z());
    }
    assert(prod(i, i, 3, 0) =~= m1);
    assert(prod(j, j, 3, 0) =~= m1);
    assert(prod(k, k, 3, 0) =~= m1);
    assert(prod(ij, k, 3, 0) =~= m1);
    assert(m1 =~= vneg(onev::<T>(4)));
}

// conjugation is an anti-automorphism and q conj(q) is the sum of squares
pub proof fn th_conj<T: Ring>(a: Seq<T>, b: Seq<T>)
    requires
        a.len() == 4,
        b.len() == 4,
        comm::<T>(),
    ensures
        conj4(prod(a, b, 3, 0)) == prod(conj4(b), conj4(a), 3, 0),
        conj4(conj4(a)) == a,
        prod(a, conj4(a), 3, 0) == scal(4, norm4(a)),
{
    l_xor4();
    l_cj4(a);
    l_cj4(b);
    l_cj4(prod(a, b, 3, 0));
    th_rev(a, b, 3, 0, 2);
    th_flip(revv(b), revv(a), allnull(), 3, 0, 2);
    l_norm_q(a);
    r_neg(a[1]);
    r_neg(a[2]);
    r_neg(a[3]);
    assert(conj4(conj4(a)) =~= a);
}

// the quotient: times the conjugate divided by the norm
pub open spec fn quotv<T: DivRing>(a: Seq<T>, b: Seq<T>, im: usize) -> Seq<T> {
    prod(a, divv(ccv(b), prod(b, ccv(b), im, 0)[0]), im, 0)
}

pub proof fn l_scal_mul<T: Ring>(a: Seq<T>, x: T, im: usize, pr: usize, d: usize)
    requires
        dimlen(a.len(), d),
        a.len() >= 1,
    ensures
        prod(scal(a.len(), x), a, im, pr) == Seq::new(a.len(), |k: int| T::m(x, a[k])),
        prod(a, scal(a.len(), x), im, pr) == scaler(a, x),
{
    let n = a.len();
    l_blade_mul(a, im, pr, 0, x, d);
    let l = Seq::new(a.len(), |k: int| T::m(x, a[k]));
    let pl = prod(scal(n, x), a, im, pr);
    let pr2 = prod(a, scal(n, x), im, pr);
    assert forall|k: int| 0 <= k < n implies #[trigger] pl[k] == l[k] by {
        let kk = k as usize;
        assert(0usize ^ kk == kk) by (bit_vector);
        l_gs_unit(kk, im, pr);
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] pr2[k] == scaler(a, x)[k] by {
        let kk = k as usize;
        assert(0usize ^ kk == kk) by (bit_vector);
        l_gs_unit(kk, im, pr);
    }
    assert(prod(scal(n, x), a, im, pr) =~= l);
    assert(prod(a, scal(n, x), im, pr) =~= scaler(a, x));
}

// dividing and multiplying again
pub proof fn th_div<T: DivRing>(a: Seq<T>, b: Seq<T>, d: usize, im: usize)
    requires
        isdiv(d, im, 0),
        dimlen(a.len(), d),
        b.len() == a.len(),
        comm::<T>(),
        prod(b, ccv(b), im, 0)[0] != T::z(),
    ensures
        prod(quotv(a, b, im), b, im, 0) == a,
        quotv(prod(a, b, im, 0), b, im) == a,
{
    l_xor4();
    let n = a.len();
    let c = ccv(b);
    let nn = prod(b, c, im, 0)[0];
    if d == 1 {
        l_norm_c(b);
    } else {
        l_norm_q(b);
    }
    let iv = T::iv(nn);
    T::inv_law(nn);
    let s = scal(n, iv);
    let cd = divv(c, nn);
    l_scal_mul(c, iv, im, 0, d);
    l_scal_mul(b, iv, im, 0, d);
    assert(cd =~= prod(c, s, im, 0));
    // c s b == c b s == 1
    assert(prod(s, b, im, 0) =~= prod(b, s, im, 0)) by {
        assert forall|k: int| 0 <= k < n implies T::m(iv, b[k]) == T::m(b[k], iv) by {}
    }
    th_assoc(c, s, b, im, 0, d);
    th_assoc(c, b, s, im, 0, d);
    l_scal_mul(scal(n, nn), iv, im, 0, d);
    r_mul_zero(iv);
    assert(scaler(scal(n, nn), iv) =~= onev::<T>(n));
    assert(prod(cd, b, im, 0) == onev::<T>(n));
    // b c s == 1
    th_assoc(b, c, s, im, 0, d);
    assert(prod(b, cd, im, 0) == onev::<T>(n));
    th_assoc(a, cd, b, im, 0, d);
    th_assoc(a, b, cd, im, 0, d);
    th_unit(a, im, 0, d);
}
