@@ the fast transform: src/clifft/mod.rs
@module clifft clifft/mod.rs C12 C13 C14 C15
@fn alpha
@ensures
    r == sg(ap(i as int, j as int), *c),
@entry
    proof { l_par(); }
@fn cl_dim
@ensures
    r is Ok == ispow(size as nat),
    r is Ok ==> dimlen(size as nat, r->Ok_0) && r->Ok_0 == lgn(size as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@entry
    proof { l_pow_cases(size); l_pow_pos(); }
@hook let dim 0
    proof {
        assert((size >> (dim as u32 as usize)) == 1);
        if (1usize << dim) == size { assert(dimlen(size as nat, dim)); }
        if size == 0 { l_pow_pos(); }
    }
@fn clifft_nn
@requires
    issq(coeffs.v().len()),
@ensures
    r is Ok,
    r->Ok_0.nr() == p2(sqn(coeffs.v().len())), r->Ok_0.nc() == p2(sqn(coeffs.v().len())),
    forall|i: int, j: int| vin2(i, j, r->Ok_0.nr(), r->Ok_0.nc()) ==> #[trigger] r->Ok_0.g(i, j) == cl(coeffs.v(), sqn(coeffs.v().len()), i, j),
@decreases
    coeffs.v().len(), 1int
@entry
    proof { l_sqn(coeffs.v().len()); l_p2(sqn(coeffs.v().len())); l_half_dim(coeffs.v().len()); }
@fn clifft_nn_into
@index
@requires
    issq(coeffs.v().len()),
    dest.nr() == p2(sqn(coeffs.v().len())), dest.nc() == dest.nr(),
@ensures
    r is Ok,
    forall|i: int, j: int| vin2(i, j, dest.nr(), dest.nc()) ==> #[trigger] dest.fing(i, j) == cl(coeffs.v(), sqn(coeffs.v().len()), i, j),
@decreases
    coeffs.v().len(), 0int
@entry
    let ghost cv = coeffs.v();
    let ghost n = sqn(cv.len());
    proof {
        l_sqn(cv.len()); l_p2(n); l_half_dim(cv.len()); l_p2(0);
        if n > 0 { l_sq(cv.len(), n); l_sqn_quart(cv.len()); }
    }
@hook let mx_11 0
    let ghost h = quarter_mside as nat;
    let ghost m = (n - 1) as nat;
    proof {
        assert(mv_00.v() =~= quart(cv, 0));
        assert(mv_01.v() =~= quart(cv, 1));
        assert(mv_10.v() =~= quart(cv, 2));
        assert(mv_11.v() =~= quart(cv, 3));
    }
@loop 0
@inv
    n > 0, m == n - 1, h == p2(m), h == quarter_mside,
    a.nr() == h, a.nc() == h, b.nr() == h, b.nc() == h, c.nr() == h, c.nc() == h, d.nr() == h, d.nc() == h,
    mx_00.nr() == h, mx_00.nc() == h, mx_01.nr() == h, mx_01.nc() == h, mx_10.nr() == h, mx_10.nc() == h, mx_11.nr() == h, mx_11.nc() == h,
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_00.g(i, j) == cl(quart(cv, 0), m, i, j),
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_01.g(i, j) == cl(quart(cv, 1), m, i, j),
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_10.g(i, j) == cl(quart(cv, 2), m, i, j),
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_11.g(i, j) == cl(quart(cv, 3), m, i, j),
    forall|k: int, l: int| vin2(k, l, h, h) && k < i ==> #[trigger] a.g(k, l) == cl(cv, n, k, l),
    forall|k: int, l: int| vin2(k, l, h, h) && k < i ==> #[trigger] b.g(k, l) == cl(cv, n, k, l + h),
    forall|k: int, l: int| vin2(k, l, h, h) && k < i ==> #[trigger] c.g(k, l) == cl(cv, n, k + h, l),
    forall|k: int, l: int| vin2(k, l, h, h) && k < i ==> #[trigger] d.g(k, l) == cl(cv, n, k + h, l + h),
    dest.nr() == 2 * h, dest.nc() == 2 * h,
    forall|i: int, j: int| vin2(i, j, 2 * h, 2 * h) ==> #[trigger] dest.fing(i, j) == if i < h {
        if j < h { a.fing(i, j) } else { b.fing(i, j - h) } } else { if j < h { c.fing(i - h, j) } else { d.fing(i - h, j - h) } },
@loop 1
@inv
    n > 0, m == n - 1, h == p2(m), h == quarter_mside, i < h,
    a.nr() == h, a.nc() == h, b.nr() == h, b.nc() == h, c.nr() == h, c.nc() == h, d.nr() == h, d.nc() == h,
    mx_00.nr() == h, mx_00.nc() == h, mx_01.nr() == h, mx_01.nc() == h, mx_10.nr() == h, mx_10.nc() == h, mx_11.nr() == h, mx_11.nc() == h,
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_00.g(i, j) == cl(quart(cv, 0), m, i, j),
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_01.g(i, j) == cl(quart(cv, 1), m, i, j),
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_10.g(i, j) == cl(quart(cv, 2), m, i, j),
    forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] mx_11.g(i, j) == cl(quart(cv, 3), m, i, j),
    forall|k: int, l: int| vin2(k, l, h, h) && (k < i || k == i && l < j) ==> #[trigger] a.g(k, l) == cl(cv, n, k, l),
    forall|k: int, l: int| vin2(k, l, h, h) && (k < i || k == i && l < j) ==> #[trigger] b.g(k, l) == cl(cv, n, k, l + h),
    forall|k: int, l: int| vin2(k, l, h, h) && (k < i || k == i && l < j) ==> #[trigger] c.g(k, l) == cl(cv, n, k + h, l),
    forall|k: int, l: int| vin2(k, l, h, h) && (k < i || k == i && l < j) ==> #[trigger] d.g(k, l) == cl(cv, n, k + h, l + h),
    dest.nr() == 2 * h, dest.nc() == 2 * h,
    forall|i: int, j: int| vin2(i, j, 2 * h, 2 * h) ==> #[trigger] dest.fing(i, j) == if i < h {
        if j < h { a.fing(i, j) } else { b.fing(i, j - h) } } else { if j < h { c.fing(i - h, j) } else { d.fing(i - h, j - h) } },
@fn iclifft_nn
@requires
    true,
@ensures
    r is Ok == okside(matrix.nr(), matrix.nc()),
    r is Ok ==> r->Ok_0.v() == iclv(matrix.f(), lgn(matrix.nr()) as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@decreases
    matrix.nr(), 1int
@fn iclifft_nn_into
@index
@requires
    dest.v().len() == matrix.nr() * matrix.nc(),
@ensures
    r is Ok == okside(matrix.nr(), matrix.nc()),
    r is Ok ==> dest.fin() == iclv(matrix.f(), lgn(matrix.nr()) as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@decreases
    matrix.nr(), 0int
@entry
    let ghost mf = matrix.f();
    let ghost n = lgn(matrix.nr()) as nat;
    let ghost ok0 = okside(matrix.nr(), matrix.nc());
    proof { T::ops(); }
@hook let mside 0
    proof {
        l_pc_one(mside);
        if ok0 { l_side(mside as nat); if mside != 1 { l_side_half(mside as nat); } }
    }
@hook return 1
    proof { assert(dest.v() =~= iclv(mf, n)); }
@hook let quarter_size 0
    let ghost h = quarter_mside as nat;
    let ghost p = (n - 1) as nat;
@hook let mv_d 0
    proof {
        l_blocks(mf, a.f(), b.f(), c.f(), d.f(), h, p);
    }
@hook let mv_00 0
    let ghost dfin = mv_00.fin() + mv_01.fin();
@hook let two 0
    let ghost q = quarter_size as nat;
    proof { assert(two == crate::cfft::two::<T>()); }
@loop 0
@inv
    n > 0, p == n - 1, h == p2(p), q == quarter_size, q == p2((2 * n - 2) as nat), q == p2(2 * p), two == crate::cfft::two::<T>(), q <= isize::MAX, n <= 31,
    mv_a.v() == iclv(shm(mf, h as int, 0, 0), p), mv_b.v() == iclv(shm(mf, h as int, 0, 1), p),
    mv_c.v() == iclv(shm(mf, h as int, 1, 0), p), mv_d.v() == iclv(shm(mf, h as int, 1, 1), p),
    mv_00.v().len() == q, mv_01.v().len() == q, mv_10.v().len() == q, mv_11.v().len() == q,
    dest.fin() == (mv_00.fin() + mv_01.fin()) + (mv_10.fin() + mv_11.fin()),
    forall|k: int| 0 <= k < i ==> #[trigger] mv_00.v()[k] == icl(mf, n, k),
    forall|k: int| 0 <= k < i ==> #[trigger] mv_01.v()[k] == icl(mf, n, k + q),
    forall|k: int| 0 <= k < i ==> #[trigger] mv_10.v()[k] == icl(mf, n, k + 2 * q),
    forall|k: int| 0 <= k < i ==> #[trigger] mv_11.v()[k] == icl(mf, n, k + 3 * q),
@begin
    proof { l_ap_zero(i); }
@after
    proof {
        assert((mv_00.v() + mv_01.v()) + (mv_10.v() + mv_11.v()) =~= iclv(mf, n));
    }
@fn clifft
@index
@ensures
    r is Ok == ispow(coeffs.v().len()),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
    r is Ok ==> r->Ok_0.nr() == p2(upn(coeffs.v().len())) && r->Ok_0.nc() == r->Ok_0.nr(),
    r is Ok ==> forall|i: int, j: int| vin2(i, j, r->Ok_0.nr(), r->Ok_0.nc()) ==> #[trigger] r->Ok_0.g(i, j) == cl(ipx(coeffs.v()), upn(coeffs.v().len()), i, j),
@entry
    let ghost cv = coeffs.v();
    proof { Complex64::ops(); l_par(); }
@hook let size 0
    proof { if ispow(cv.len()) { l_up(cv.len()); } }
@loop 0
@inv
    it0.all().len() == cv.len(), ispow(cv.len()), cv.len() <= arr.v().len(), arr.v().len() == p2(2 * upn(cv.len())), idx_mask == alt(),
    I_POWERS@[0] == ip(0), I_POWERS@[1] == ip(1), I_POWERS@[2] == ip(2), I_POWERS@[3] == ip(3),
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < cv.len() ==> it0.all()[j].0 == j && *it0.all()[j].1 == cv[j],
    forall|j: int| #![trigger arr.v()[j]] 0 <= j < arr.v().len() ==> arr.v()[j] == if j < it0.pos() { ipx(cv)[j] } else { Complex64::z() },
@after
    proof { assert(arr.v() =~= ipx(cv)); }
@fn clifft_into
@index
@requires
    ispow(coeffs.v().len()) ==> dest.nr() == p2(upn(coeffs.v().len())) && dest.nc() == dest.nr(),
@ensures
    r is Ok == ispow(coeffs.v().len()),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
    r is Ok ==> forall|i: int, j: int| vin2(i, j, dest.nr(), dest.nc()) ==> #[trigger] dest.fing(i, j) == cl(ipx(coeffs.v()), upn(coeffs.v().len()), i, j),
@entry
    let ghost cv = coeffs.v();
    proof { Complex64::ops(); l_par(); }
@hook let size 0
    proof { if ispow(cv.len()) { l_up(cv.len()); } }
@loop 0
@inv
    it0.all().len() == cv.len(), ispow(cv.len()), cv.len() <= arr.v().len(), arr.v().len() == p2(2 * upn(cv.len())), idx_mask == alt(),
    I_POWERS@[0] == ip(0), I_POWERS@[1] == ip(1), I_POWERS@[2] == ip(2), I_POWERS@[3] == ip(3),
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < cv.len() ==> it0.all()[j].0 == j && *it0.all()[j].1 == cv[j],
    forall|j: int| #![trigger arr.v()[j]] 0 <= j < arr.v().len() ==> arr.v()[j] == if j < it0.pos() { ipx(cv)[j] } else { Complex64::z() },
@after
    proof { assert(arr.v() =~= ipx(cv)); }
@fn iclifft
@ensures
    r is Ok == okside(matrix.nr(), matrix.nc()),
    r is Ok ==> r->Ok_0.v() == iicl(matrix.f(), lgn(matrix.nr()) as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@fn iclifft_into
@index
@ensures
    r is Ok == (okside(matrix.nr(), matrix.nc()) && dest.v().len() == matrix.nr() * matrix.nc()),
    r is Ok ==> dest.fin() == iicl(matrix.f(), lgn(matrix.nr()) as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@entry
    let ghost w = iclv(matrix.f(), lgn(matrix.nr()) as nat);
    let ghost u = iicl(matrix.f(), lgn(matrix.nr()) as nat);
    proof { Complex64::ops(); l_par(); }
@loop 0
@inv
    idx_mask == alt(), it0.all().len() == w.len(), u.len() == w.len(),
    I_POWERS@[0] == ip(0), I_POWERS@[1] == ip(-1), I_POWERS@[2] == ip(-2), I_POWERS@[3] == ip(-3),
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < w.len() ==> it0.all()[j].0 == j && *it0.all()[j].1 == w[j],
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < it0.pos() ==> *final(it0.all()[j].1) == u[j],
    u == iicl(matrix.f(), lgn(matrix.nr()) as nat), w == iclv(matrix.f(), lgn(matrix.nr()) as nat),
@after
    proof { assert(dest.v() =~= u); }
@fn imaginary_flip_inplace
@index
@requires
    m.nr() == m.nc(), ispow(m.nr()),
@ensures
    forall|i: int, j: int| vin2(i, j, m.nr(), m.nr()) ==> #[trigger] m.fing(i, j) == beta(m.f(), lgn(m.nr()) as nat, i, j),
@decreases
    m.nr()
@entry
    let ghost mf = m.f();
    let ghost n = lgn(m.nr()) as nat;
    let ghost s = m.nr();
@hook let w 0
    let ghost g = s / 2;
    let ghost p = (n - 1) as nat;
    proof { l_side(s); l_side_half(s); }
@hook return 0
    proof { l_sq_one(s); l_pc_one(1); }
@hook let d 0
    let ghost a0 = a.f();
    let ghost b0 = b.f();
    let ghost c0 = c.f();
    let ghost d0 = d.f();
@loop 0
@inv
    h == s, w == s, s == 2 * g, g >= 1, g == p2(p), p <= 62,
    a.nr() == g, a.nc() == g, b.nr() == g, b.nc() == g, c.nr() == g, c.nc() == g, d.nr() == g, d.nc() == g,
    forall|i: int, j: int| vin2(i, j, s, s) ==> #[trigger] m.fing(i, j) == if i < g {
        if j < g { a.fing(i, j) } else { b.fing(i, j - g) } } else { if j < g { c.fing(i - g, j) } else { d.fing(i - g, j - g) } },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] a.g(k, l) == if k < i { sg(ap(k, l), d0(k, l)) } else { a0(k, l) },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] b.g(k, l) == if k < i { sg(ap(k, l), c0(k, l)) } else { b0(k, l) },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] c.g(k, l) == if k < i { sg(ap(k, l), b0(k, l)) } else { c0(k, l) },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] d.g(k, l) == if k < i { sg(ap(k, l), a0(k, l)) } else { d0(k, l) },
@loop 1
@inv
    h == s, w == s, s == 2 * g, g >= 1, g == p2(p), p <= 62, i < g,
    a.nr() == g, a.nc() == g, b.nr() == g, b.nc() == g, c.nr() == g, c.nc() == g, d.nr() == g, d.nc() == g,
    forall|i: int, j: int| vin2(i, j, s, s) ==> #[trigger] m.fing(i, j) == if i < g {
        if j < g { a.fing(i, j) } else { b.fing(i, j - g) } } else { if j < g { c.fing(i - g, j) } else { d.fing(i - g, j - g) } },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] a.g(k, l) == if k < i || k == i && l < j { sg(ap(k, l), d0(k, l)) } else { a0(k, l) },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] b.g(k, l) == if k < i || k == i && l < j { sg(ap(k, l), c0(k, l)) } else { b0(k, l) },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] c.g(k, l) == if k < i || k == i && l < j { sg(ap(k, l), b0(k, l)) } else { c0(k, l) },
    forall|k: int, l: int| vin2(k, l, g, g) ==> #[trigger] d.g(k, l) == if k < i || k == i && l < j { sg(ap(k, l), a0(k, l)) } else { d0(k, l) },
@hook beforecall imaginary_flip_inplace 0
    proof {
        assert(vin2(0, 0, g, g));
        l_beta_eq(a.f(), alm(shm(mf, g as int, 1, 1)), p);
        l_beta_eq(b.f(), alm(shm(mf, g as int, 1, 0)), p);
        l_beta_eq(c.f(), alm(shm(mf, g as int, 0, 1)), p);
        l_beta_eq(d.f(), alm(shm(mf, g as int, 0, 0)), p);
    }
@fn parity_flip
@index
@ensures
    r.nr() == mv.nr(), r.nc() == mv.nc(),
    forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == sg(ap(i, j), mv.g(i, j)),
@loop 0
@inv
    ret.nr() == mv.nr(), ret.nc() == mv.nc(),
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> vin2(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, mv.nr(), mv.nc())
        && *it0.all()[k].1 == mv.g(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int) && k == rmi(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, mv.nc()),
    forall|i: int, j: int| vin2(i, j, mv.nr(), mv.nc()) ==> 0 <= #[trigger] rmi(i, j, mv.nc()) < it0.all().len() && it0.all()[rmi(i, j, mv.nc())].0.0 == i && it0.all()[rmi(i, j, mv.nc())].0.1 == j,
    forall|i: int, j: int| vin2(i, j, mv.nr(), mv.nc()) && rmi(i, j, mv.nc()) < it0.pos() ==> #[trigger] ret.g(i, j) == sg(ap(i, j), mv.g(i, j)),
@fn imaginary_flip
@ensures
    r is Ok == okside(m.nr(), m.nc()),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
    r is Ok ==> r->Ok_0.nr() == m.nr() && r->Ok_0.nc() == m.nr(),
    r is Ok ==> forall|i: int, j: int| vin2(i, j, m.nr(), m.nr()) ==> #[trigger] r->Ok_0.g(i, j) == beta(m.f(), lgn(m.nr()) as nat, i, j),
@entry
    proof { l_pc_all(); if okside(m.nr(), m.nc()) { l_side0(m.nr()); l_beta_any(m.nr(), m.f(), lgn(m.nr()) as nat); } }
@fn reversal
@ensures
    r is Ok == okside(m.nr(), m.nc()),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
    r is Ok ==> r->Ok_0.nr() == m.nr() && r->Ok_0.nc() == m.nr(),
    r is Ok ==> forall|i: int, j: int| vin2(i, j, m.nr(), m.nr()) ==> #[trigger] r->Ok_0.g(i, j) == beta(trm(m.f()), lgn(m.nr()) as nat, i, j),
@entry
    proof { if okside(m.nr(), m.nc()) { l_side0(m.nr()); l_beta_t(m.nr(), m.f(), lgn(m.nr()) as nat); } }
@end
@raw
pub open spec fn trm<T>(m: spec_fn(int, int) -> T) -> spec_fn(int, int) -> T {
    |i: int, j: int| m(j, i)
}
// the automorphism that flips the odd generators, on matrices
pub open spec fn beta<T: Ring>(m: spec_fn(int, int) -> T, n: nat, i: int, j: int) -> T
    decreases n,
{
    if n == 0 {
        m(i, j)
    } else {
        let p = (n - 1) as nat;
        let h = p2(p);
        beta(alm(shm(m, h as int, if i < h { 1 } else { 0 }, if j < h { 1 } else { 0 })), p, lw(i, h), lw(j, h))
    }
}
pub proof fn l_beta_eq1<T: Ring>(m: spec_fn(int, int) -> T, w: spec_fn(int, int) -> T, n: nat, i: int, j: int)
    requires
        forall|i: int, j: int| vin2(i, j, p2(n), p2(n)) ==> #[trigger] m(i, j) == w(i, j),
        vin2(i, j, p2(n), p2(n)),
    ensures
        beta(m, n, i, j) == beta(w, n, i, j),
    decreases n,
{
    if n > 0 {
        let p = (n - 1) as nat;
        let h = p2(p);
        let (s, t) = (if i < h { 1int } else { 0 }, if j < h { 1int } else { 0 });
        let g = h as int;
        assert(0 * g == 0 && 1 * g == g);
        let (x, y) = (alm(shm(m, g, s, t)), alm(shm(w, g, s, t)));
        assert forall|k: int, l: int| vin2(k, l, h, h) implies #[trigger] x(k, l) == y(k, l) by {
            assert(vin2(k + s * g, l + t * g, p2(n), p2(n)));
            assert(m(k + s * g, l + t * g) == w(k + s * g, l + t * g));
        }
        l_beta_eq1(x, y, p, lw(i, h), lw(j, h));
    }
}
pub proof fn l_beta_eq<T: Ring>(m: spec_fn(int, int) -> T, w: spec_fn(int, int) -> T, n: nat)
    requires
        forall|i: int, j: int| vin2(i, j, p2(n), p2(n)) ==> #[trigger] m(i, j) == w(i, j),
    ensures
        forall|i: int, j: int| vin2(i, j, p2(n), p2(n)) ==> #[trigger] beta(m, n, i, j) == beta(w, n, i, j),
{
    assert forall|i: int, j: int| vin2(i, j, p2(n), p2(n)) implies #[trigger] beta(m, n, i, j) == beta(w, n, i, j) by {
        l_beta_eq1(m, w, n, i, j);
    }
}
pub proof fn l_beta_t<T: Ring>(s: nat, m: spec_fn(int, int) -> T, n: nat)
    requires s == p2(n),
    ensures
        forall|w: spec_fn(int, int) -> T, i: int, j: int| #![trigger beta(w, n, i, j)]
            (forall|k: int, l: int| vin2(k, l, s, s) ==> #[trigger] w(k, l) == m(l, k)) && vin2(i, j, s, s) ==> beta(w, n, i, j) == beta(trm(m), n, i, j),
{
    assert forall|w: spec_fn(int, int) -> T, i: int, j: int| #![trigger beta(w, n, i, j)]
            (forall|k: int, l: int| vin2(k, l, s, s) ==> #[trigger] w(k, l) == m(l, k)) && vin2(i, j, s, s) implies beta(w, n, i, j) == beta(trm(m), n, i, j) by {
        l_beta_eq1(w, trm(m), n, i, j);
    }
}
pub proof fn l_beta_any<T: Ring>(s: nat, m: spec_fn(int, int) -> T, n: nat)
    requires s == p2(n),
    ensures
        forall|w: spec_fn(int, int) -> T, i: int, j: int| #![trigger beta(w, n, i, j)]
            (forall|k: int, l: int| vin2(k, l, s, s) ==> #[trigger] w(k, l) == m(k, l)) && vin2(i, j, s, s) ==> beta(w, n, i, j) == beta(m, n, i, j),
{
    assert forall|w: spec_fn(int, int) -> T, i: int, j: int| #![trigger beta(w, n, i, j)]
            (forall|k: int, l: int| vin2(k, l, s, s) ==> #[trigger] w(k, l) == m(k, l)) && vin2(i, j, s, s) implies beta(w, n, i, j) == beta(m, n, i, j) by {
        l_beta_eq1(w, m, n, i, j);
    }
}
pub proof fn l_side0(s: nat)
    requires ispow(s),
    ensures s == p2(lgn(s) as nat), dimlen(s, lgn(s)),
{
    l_p2(lgn(s) as nat);
}
pub proof fn l_sq_one(s: nat)
    requires s * s == 1,
    ensures s == 1,
{
    if s > 1 { assert(s * s > 1) by (nonlinear_arith) requires s > 1; }
}
pub proof fn l_pc_all()
    ensures forall|x: usize| #[trigger] pc(x) == 1 <==> ispow(x as nat),
{
    assert forall|x: usize| #[trigger] pc(x) == 1 <==> ispow(x as nat) by { l_pc_one(x); }
}
pub open spec fn alt() -> usize {
    0xAAAA_AAAA_AAAA_AAAA
}
pub open spec fn upn(c: nat) -> nat {
    ((lgn(c) + 1) / 2) as nat
}
// power of i attached to a blade
pub open spec fn iw(k: int) -> int {
    pc(k as usize & alt()) as int
}
pub open spec fn ipx<T: IntoComplex64>(c: Seq<T>) -> Seq<Complex64> {
    Seq::new(p2(2 * upn(c.len())), |k: int| if k < c.len() { Complex64::m(c[k].toc(), ip(iw(k))) } else { Complex64::z() })
}
pub open spec fn iicl(m: spec_fn(int, int) -> Complex64, n: nat) -> Seq<Complex64> {
    Seq::new(p2(2 * n), |k: int| Complex64::m(icl(m, n, k), ip(-iw(k))))
}
pub proof fn l_up(c: nat)
    requires ispow(c), c <= isize::MAX,
    ensures
        dimlen(c, lgn(c)), lgn(c) <= 62, 2 * upn(c) <= 62, c <= p2(2 * upn(c)),
        issq(p2(2 * upn(c))), sqn(p2(2 * upn(c))) == upn(c),
        lgn(c) & 1 == lgn(c) % 2,
        p2(2 * upn(c)) == (1usize << ((2 * upn(c)) as usize)),
{
    let d = lgn(c);
    l_p2(d as nat);
    assert(d & 1 == d % 2) by (bit_vector);
    if d > 62 {
        assert(1usize << 63usize == 0x8000_0000_0000_0000) by (bit_vector);
    }
    l_p2(2 * upn(c));
    l_lgn(p2(2 * upn(c)), (2 * upn(c)) as usize);
    l_p2_mono(d as nat, 2 * upn(c));
}
pub open spec fn okside(r: nat, c: nat) -> bool {
    r == c && ispow(r)
}
pub proof fn l_pc_one(x: usize)
    ensures (pc(x) == 1) == ispow(x as nat), pc(1) == 1, lgn(1) == 0,
{
    assert((1usize << 0usize) == 1) by (bit_vector);
    l_inv_one(0, 0, 64);
    l_lgn(1, 0);
    if pc(x) == 1 {
        l_cnt_one(x, 64);
        let t = choose|t: nat| t < 64 && bit(x, t) && (forall|s: nat| s < 64 && s != t ==> !bit(x, s));
        let u = t as usize;
        assert forall|s: nat| s < 64 implies bit(x, s) == bit(1usize << u, s) by {
            l_bit_const(u, s);
        }
        l_bit_ext(x, 1usize << u);
        assert(dimlen(x as nat, u));
    }
    if ispow(x as nat) {
        let d = lgn(x as nat);
        l_inv_one(d, d, 64);
    }
}
pub proof fn l_cnt_one(x: usize, n: nat)
    requires cnt(x, n) == 1, n <= 64,
    ensures exists|t: nat| t < n && bit(x, t) && (forall|s: nat| s < n && s != t ==> !bit(x, s)),
    decreases n,
{
    let m = (n - 1) as nat;
    if bit(x, m) {
        l_cnt_none(x, m);
        assert(m < n && bit(x, m) && (forall|s: nat| s < n && s != m ==> !bit(x, s)));
    } else {
        l_cnt_one(x, m);
        let t = choose|t: nat| t < m && bit(x, t) && (forall|s: nat| s < m && s != t ==> !bit(x, s));
        assert(t < n && bit(x, t) && (forall|s: nat| s < n && s != t ==> !bit(x, s)));
    }
}
pub proof fn l_cnt_none(x: usize, n: nat)
    requires cnt(x, n) == 0,
    ensures forall|s: nat| s < n ==> !bit(x, s),
    decreases n,
{
    if n > 0 { l_cnt_none(x, (n - 1) as nat); }
}
pub proof fn l_side(s: nat)
    requires ispow(s), s * s <= isize::MAX,
    ensures dimlen(s, lgn(s)), lgn(s) <= 31, s == p2(lgn(s) as nat), s * s == p2((2 * lgn(s)) as nat), (lgn(s) == 0) == (s == 1),
{
    let d = lgn(s);
    l_p2(d as nat);
    l_p2(0);
    l_p2_add(d as nat, d as nat);
    assert(p2((2 * d) as nat) == s * s);
    if d > 31 {
        l_p2_mono(64, (2 * d) as nat);
        l_p2(63);
        assert(1usize << 63usize == 0x8000_0000_0000_0000) by (bit_vector);
        assert(p2(64) == 2 * p2(63));
    }
    if d > 0 { l_p2_mono(0, (d - 1) as nat); }
}
pub proof fn l_side_half(s: nat)
    requires ispow(s), s * s <= isize::MAX, s != 1,
    ensures
        s == 2 * (s / 2), ispow(s / 2), lgn(s / 2) == lgn(s) - 1, s / 2 == p2((lgn(s) - 1) as nat),
        (s / 2) * (s / 2) == p2((2 * lgn(s) - 2) as nat), s * s == 4 * p2((2 * lgn(s) - 2) as nat),
        s / 2 >= 1,
{
    l_side(s);
    let d = lgn(s);
    let m = (d - 1) as nat;
    l_p2(m);
    l_lgn(s / 2, m as usize);
    l_p2_add(m, m);
    assert(p2(d as nat) == 2 * p2(m));
    assert((2 * d - 2) as nat == m + m);
    assert(p2((2 * d) as nat) == 2 * p2((2 * d - 1) as nat));
    assert(p2((2 * d - 1) as nat) == 2 * p2((2 * d - 2) as nat));
}
pub proof fn l_ap_zero(i: usize)
    ensures ap(i as int, 0) == par(i as int),
{
    assert(i ^ 0 == i) by (bit_vector);
}
pub proof fn l_blocks<T: DivRing>(m: spec_fn(int, int) -> T, a: spec_fn(int, int) -> T, b: spec_fn(int, int) -> T, c: spec_fn(int, int) -> T, d: spec_fn(int, int) -> T, h: nat, p: nat)
    requires
        h == p2(p),
        forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] a(i, j) == m(i, j),
        forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] b(i, j) == m(i, j + h),
        forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] c(i, j) == m(i + h, j),
        forall|i: int, j: int| vin2(i, j, h, h) ==> #[trigger] d(i, j) == m(i + h, j + h),
    ensures
        iclv(a, p) == iclv(shm(m, h as int, 0, 0), p),
        iclv(b, p) == iclv(shm(m, h as int, 0, 1), p),
        iclv(c, p) == iclv(shm(m, h as int, 1, 0), p),
        iclv(d, p) == iclv(shm(m, h as int, 1, 1), p),
{
    let g = h as int;
    assert(0 * g == 0 && 1 * g == g);
    l_iclv_eq(a, shm(m, g, 0, 0), p);
    l_iclv_eq(b, shm(m, g, 0, 1), p);
    l_iclv_eq(c, shm(m, g, 1, 0), p);
    l_iclv_eq(d, shm(m, g, 1, 1), p);
}
pub proof fn l_iclv_eq<T: DivRing>(m: spec_fn(int, int) -> T, w: spec_fn(int, int) -> T, n: nat)
    requires
        forall|i: int, j: int| vin2(i, j, p2(n), p2(n)) ==> #[trigger] m(i, j) == w(i, j),
    ensures
        iclv(m, n) == iclv(w, n),
{
    assert forall|k: int| 0 <= k < p2(2 * n) implies iclv(m, n)[k] == iclv(w, n)[k] by {
        assert forall|i: int, j: int| 0 <= i < p2(n) && 0 <= j < p2(n) implies #[trigger] m(i, j) == w(i, j) by { assert(vin2(i, j, p2(n), p2(n))); }
        l_icl_eq(m, w, n, k);
    }
    assert(iclv(m, n) =~= iclv(w, n));
}
pub proof fn l_pow_pos() ensures !ispow(0), {
    assert forall|d: usize| !dimlen(0, d) by { assert(d <= 63 ==> (1usize << d) != 0) by (bit_vector); }
}
pub open spec fn issq(c: nat) -> bool {
    ispow(c) && lgn(c) % 2 == 0
}
pub open spec fn sqn(c: nat) -> nat {
    (lgn(c) / 2) as nat
}
pub proof fn l_sqn(c: nat)
    requires issq(c),
    ensures sqlen(c, sqn(c)), dimlen(c, lgn(c)), c >= 1, (sqn(c) == 0) == (c == 1),
{
    let d = lgn(c);
    l_p2(d as nat);
    l_p2(0);
    if d > 0 { l_p2_mono(0, (d - 1) as nat); }
}
pub proof fn l_half_dim(c: nat)
    requires issq(c),
    ensures (1usize << ((lgn(c) / 2) as usize)) == p2(sqn(c)), p2(sqn(c)) * p2(sqn(c)) == c,
{
    l_p2(sqn(c));
    l_sqn(c);
    l_p2_add(sqn(c), sqn(c));
}
pub proof fn l_lgn(c: nat, d: usize)
    requires dimlen(c, d),
    ensures ispow(c), lgn(c) == d,
{
    let e = lgn(c);
    assert(dimlen(c, e));
    assert((1usize << d) == (1usize << e) ==> d == e) by (bit_vector) requires d <= 63, e <= 63;
}
pub proof fn l_sqn_quart(c: nat)
    requires issq(c), c != 1,
    ensures issq(c / 4), sqn(c / 4) == sqn(c) - 1, ispow(c), c / 4 < c,
{
    l_sqn(c);
    l_sq(c, sqn(c));
    l_p2((2 * sqn(c) - 2) as nat);
    l_lgn(c / 4, (2 * sqn(c) - 2) as usize);
}
pub proof fn l_pow_cases(s: usize)
    ensures
        forall|d: usize| #[trigger] dimlen(s as nat, d) ==> lgn(s as nat) == d,
        forall|r: u32| #![trigger (s >> (r as usize))] s > 0 && r < 64 && (1usize << (r as usize)) <= s && (s >> (r as usize)) == 1 && ispow(s as nat) ==> s == (1usize << (r as usize)),
{
    assert forall|d: usize| #[trigger] dimlen(s as nat, d) implies lgn(s as nat) == d by { l_lgn(s as nat, d); }
    assert forall|r: u32| #![trigger (s >> (r as usize))] s > 0 && r < 64 && (1usize << (r as usize)) <= s && (s >> (r as usize)) == 1 && ispow(s as nat) implies s == (1usize << (r as usize)) by {
        let d = lgn(s as nat);
        let e = r as usize;
        assert(s == (1usize << d));
        assert(((1usize << d) >> e) == 1);
        assert(((1usize << d) >> e) == 1 ==> d == e) by (bit_vector) requires d <= 63, e <= 63;
    }
}
