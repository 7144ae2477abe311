@@ the fast representation: src/fftrepr/wmul.rs, src/fftrepr/mod.rs
@module wmul fftrepr/wmul.rs C13
@raw
pub proof fn l_a3(x: Complex64, w: int, i: int, j: int)
    ensures sg(a3(w, i, j), sg(a3(w, i, j), x)) == x,
{
    sg_props(a3(w, i, j), a3(w, i, j), x, x);
}
pub proof fn l_a3_code(w: usize, i: usize, j: usize)
    ensures (a3(w as int, i as int, j as int) == Sign::Minus) == odd(pc(w) + pc(i ^ j)), a3(w as int, i as int, j as int) != Sign::Null,
{
    l_par();
}
pub proof fn l_and1()
    ensures forall|x: u32| #[trigger] (x & 1) == x % 2,
{
    assert forall|x: u32| #[trigger] (x & 1) == x % 2 by { assert((x & 1) == x % 2) by (bit_vector); }
}
pub proof fn l_planes(n: nat)
    requires ispow(n),
    ensures
        n >= 1, n == p2(lgn(n) as nat), (lgn(n) == 0) == (n == 1), n <= usize::MAX,
        n != 1 ==> n == 2 * (n / 2) && n / 2 >= 1 && ispow(n / 2) && lgn(n / 2) == lgn(n) - 1 && n / 2 == p2((lgn(n) - 1) as nat),
{
    let d = lgn(n);
    l_p2(d as nat);
    l_p2(0);
    if n != 1 {
        l_half(n, d);
        l_lgn(n / 2, (d - 1) as usize);
        l_p2((d - 1) as nat);
    }
}
@fn wfft_repr_alpha_inplace
@ensures
    forall|w: int, i: int, j: int| vin3(w, i, j, a.np(), a.nr(), a.nc()) ==> #[trigger] a.fing(w, i, j) == sg(a3(w, i, j), a.g(w, i, j)),
@entry
    let ghost a0 = a.r;
    let ghost af = a.f();
@loop 0
@inv
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> *it0.all()[k].1 == af(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int),
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.pos() ==> *final(it0.all()[k].1) == sg(a3(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int), *it0.all()[k].1),
@begin
    proof { l_a3_code(idx, i, j); l_and1(); }
@after
    proof {
        assert forall|w: int, i: int, j: int| vin3(w, i, j, a0.np(), a0.nr(), a0.nc()) implies #[trigger] a.g(w, i, j) == sg(a3(w, i, j), af(w, i, j)) by {
            let k = rmi3(w, i, j, a0.nr(), a0.nc());
            assert(it0.all()[k].0.0 == w);
        }
    }
@fn wmul_impl
@index
@requires
    ispow(a.np()), a.nr() == a.nc(),
    b.np() == a.np(), b.nr() == a.nr(), b.nc() == a.nr(), dest.np() == a.np(), dest.nr() == a.nr(), dest.nc() == a.nr(),
@ensures
    forall|w: int, i: int, j: int| vin3(w, i, j, a.np(), a.nr(), a.nr()) ==> #[trigger] a.fing(w, i, j) == a.g(w, i, j),
    forall|w: int, i: int, j: int| vin3(w, i, j, a.np(), a.nr(), a.nr()) ==> #[trigger] dest.fing(w, i, j) == wm(a.f(), b.f(), lgn(a.np()) as nat, a.nr(), w, i, j),
@decreases
    a.np()
@entry
    let ghost x = a.f();
    let ghost y = b.f();
    let ghost n = a.np();
    let ghost h = a.nr();
    let ghost s = lgn(n) as nat;
    proof { l_planes(n); }
    let ghost q = (n / 2) as int;
@hook call assign 0
    proof {
        assert forall|w: int, i: int, j: int| vin3(w, i, j, n, h, h) implies dst.g(i, j) == wm(x, y, s, h, w, i, j) by {
            assert(vin2(i, j, h, h));
        }
    }
@hook let bottom 0
    let ghost x0 = a0.f();
    let ghost x1 = a1.f();
    let ghost r = (s - 1) as nat;
    proof {
        assert(same3(x0, x, n / 2, h)) by { assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] x0(w, i, j) == x(w, i, j) by {} }
        assert(same3(x1, shw(x, q), n / 2, h)) by { assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] x1(w, i, j) == shw(x, q)(w, i, j) by {} }
        assert(same3(b0.f(), y, n / 2, h)) by { assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] b0.f()(w, i, j) == y(w, i, j) by {} }
        assert(same3(b1.f(), shw(y, q), n / 2, h)) by { assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] b1.f()(w, i, j) == shw(y, q)(w, i, j) by {} }
    }
@hook call wmul_impl 0
    let ghost top1 = top.f();
    proof {
        assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] top1(w, i, j) == wm(shw(x, q), y, r, h, w, i, j) by {
            l_wm_eq(x1, b0.f(), shw(x, q), y, r, h, w, i, j);
        }
    }
@hook call wmul_impl 1
    let ghost tmp1 = tmp.f();
    proof {
        assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] tmp1(w, i, j) == wm(al3(x), shw(y, q), r, h, w, i, j) by {
            l_wm_eq(ax, b1.f(), al3(x), shw(y, q), r, h, w, i, j);
        }
    }
@hook call wfft_repr_alpha_inplace 0
    let ghost ax = a0.f();
    proof {
        assert(same3(ax, al3(x), n / 2, h)) by { assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] ax(w, i, j) == al3(x)(w, i, j) by { assert(x0(w, i, j) == x(w, i, j)); } }
    }
@loop 0
@inv
    n / 2 == tmp.np(), tmp.nr() == h, tmp.nc() == h, tmp.f() == tmp1,
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> vin3(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int, n / 2, h, h)
        && *it0.all()[k].1 == top1(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int),
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.pos() ==> *final(it0.all()[k].1) == Complex64::a(*it0.all()[k].1, tmp1(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int)),
@begin
    proof { assert(tmp.g(index.0 as int, index.1 as int, index.2 as int) == tmp.f()(index.0 as int, index.1 as int, index.2 as int)); }
@after
    proof {
        assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] top.g(w, i, j) == Complex64::a(top1(w, i, j), tmp1(w, i, j)) by {
            let k = rmi3(w, i, j, h, h);
            assert(it0.all()[k].0.0 == w);
        }
    }
@hook call wfft_repr_alpha_inplace 1
    let ghost x2 = a0.f();
    proof {
        assert(same3(x2, x, n / 2, h)) by { assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] x2(w, i, j) == x(w, i, j) by { l_a3(x0(w, i, j), w, i, j); assert(ax(w, i, j) == sg(a3(w, i, j), x0(w, i, j))); } }
        assert forall|w: int, i: int, j: int| vin3(w, i, j, n / 2, h, h) implies #[trigger] wm(x2, b0.f(), r, h, w, i, j) == wm(x, y, r, h, w, i, j) by {
            l_wm_eq(x2, b0.f(), x, y, r, h, w, i, j);
        }
    }
@fn wmul
@requires
    ispow(a.np()), a.nr() == a.nc(), b.np() == a.np(), b.nr() == a.nr(), b.nc() == a.nr(),
@ensures
    r.np() == a.np(), r.nr() == a.nr(), r.nc() == a.nr(),
    forall|w: int, i: int, j: int| vin3(w, i, j, a.np(), a.nr(), a.nr()) ==> #[trigger] r.g(w, i, j) == wm(a.f(), b.f(), lgn(a.np()) as nat, a.nr(), w, i, j),
@entry
    let ghost x = a.f();
    let ghost y = b.f();
    let ghost n = a.np();
    let ghost h = a.nr();
    proof { l_planes(n); }
@end
@module fftrepr fftrepr/mod.rs C13
@type FFTRepr
@raw
// the number of planes and the side of the matrices
pub open spec fn wn<A: ClAlgebraBase>() -> nat { p2((A::sdim() - nn::<A>()) as nat) }
pub open spec fn ms<A: ClAlgebraBase>() -> nat { p2(upl(nn::<A>())) }
impl<A: ClAlgebra> FFTRepr<A> {
    pub open spec fn f(&self) -> spec_fn(int, int, int) -> Complex64 { self.arr.f() }
    pub open spec fn wf(&self) -> bool {
        A::ok() && A::sdim() <= 62 && self.arr.np() == wn::<A>() && self.arr.nr() == ms::<A>() && self.arr.nc() == ms::<A>()
    }
}
// x represents the coefficients c
pub open spec fn reps<A: ClAlgebra>(x: FFTRepr<A>, c: Seq<Complex64>) -> bool {
    x.wf() && c.len() == N::<A>() && same3(x.f(), rpm(c, nn::<A>()), wn::<A>(), ms::<A>())
}
// entries of results
pub open spec fn padd<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::a(x.arr.g(w, i, j), y.arr.g(w, i, j))
}
pub open spec fn psub<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::s(x.arr.g(w, i, j), y.arr.g(w, i, j))
}
pub open spec fn pscale<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, c: Complex64) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::m(x.arr.g(w, i, j), c)
}
pub open spec fn pneg<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::n(x.arr.g(w, i, j))
}
pub open spec fn pmul<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == wm(x.f(), y.f(), (A::sdim() - nn::<A>()) as nat, ms::<A>(), w, i, j)
}
pub open spec fn pflip<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == sg(a3(w, i, j), x.arr.g(w, i, j))
}
pub open spec fn prev<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>) -> bool {
    r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == sg(rvs(w, i, j), beta(trm(pl(x.f(), w)), upl(nn::<A>()), i, j))
}
pub proof fn l_fshape<A: ClAlgebra>()
    requires A::ok(), A::sdim() <= 62,
    ensures
        nn::<A>() <= A::sdim(), nn::<A>() == pc(A::sreal() | A::simag()), pc(A::sproj()) == A::sdim() - nn::<A>(),
        upl(nn::<A>()) == (nn::<A>() + 1) / 2, upl(nn::<A>()) <= 31,
        ms::<A>() == 1usize << ((nn::<A>() + 1) / 2), wn::<A>() == 1usize << ((A::sdim() - nn::<A>()) as usize),
        dimlen(N::<A>() as nat, A::sdim()), N::<A>() == wn::<A>() * p2(nn::<A>() as nat), p2(nn::<A>() as nat) == 1usize << nn::<A>(),
        (A::sreal() | A::simag()) + 1 == p2(nn::<A>() as nat), (A::sproj() >> nn::<A>()) + 1 == wn::<A>(),
        ispow(wn::<A>()), lgn(wn::<A>()) == A::sdim() - nn::<A>(), wn::<A>() >= 1, ms::<A>() >= 1,
        nulls(A::sproj(), nn::<A>(), A::sdim()),
{
    l_alg::<A>();
    l_nn::<A>();
    let (k, d, p) = (nn::<A>(), A::sdim(), A::sproj());
    let s = (d - k) as usize;
    l_p2(upl(k));
    l_p2(s as nat);
    l_p2(k as nat);
    l_p2_add(s as nat, k as nat);
    l_p2(d as nat);
    l_lgn(p2(s as nat), s);
    assert((1usize << k) > 0 && (1usize << d) > 0 && (1usize << s) > 0) by (bit_vector) requires k <= 62, d <= 62, s <= 62;
    assert((p >> k) == sub(1usize << s, 1)) by (bit_vector) requires p == sub(1usize << d, 1) & !sub(1usize << k, 1), s == sub(d, k), k <= d, d <= 62;
    assert forall|t: usize| t < d implies #[trigger] bit(p, t as nat) == (t >= k) by {
        assert(((p >> t) & 1 == 1) == (t >= k)) by (bit_vector) requires p == sub(1usize << d, 1) & !sub(1usize << k, 1), t < d, k <= d, d <= 62;
    }
}
pub proof fn l_ap_code(i: usize, j: usize)
    ensures (ap(i as int, j as int) == Sign::Minus) == odd(pc(i ^ j)), (ap(i as int, j as int) == Sign::Plus) == !odd(pc(i ^ j)),
{
    l_par();
}
// the even extension the inverse transform writes into
pub proof fn l_even<A: ClAlgebra>()
    requires A::ok(), A::sdim() <= 62,
    ensures
        nn::<Complexification<A>>() == nn::<A>(), Even::<Complexification<A>>::ok(),
        pc(Even::<Complexification<A>>::sreal()) + pc(Even::<Complexification<A>>::simag()) == 2 * upl(nn::<A>()),
        N::<Even<Complexification<A>>>() == wn::<A>() * p2(2 * upl(nn::<A>())), p2(2 * upl(nn::<A>())) == 1usize << ((2 * upl(nn::<A>())) as usize),
        p2(2 * upl(nn::<A>())) == ms::<A>() * ms::<A>(),
        Even::<Complexification<A>>::sdim() <= 63, ispow(ms::<A>()), lgn(ms::<A>()) == upl(nn::<A>()), 2 * upl(nn::<A>()) <= 62,
{
    l_fshape::<A>();
    l_nn::<A>();
    l_nn::<Complexification<A>>();
    let (r, k, d) = (A::sreal() | A::simag(), nn::<A>(), A::sdim());
    assert(r | 0 == r) by (bit_vector);
    l_pc_zero(64);
    let n = upl(k);
    let s = (d - k) as nat;
    l_p2(2 * n);
    l_p2(n);
    l_lgn(ms::<A>(), n as usize);
    l_p2_add(n, n);
    assert(n + n == 2 * n);
    l_p2_add(s, 2 * n);
    if odd(k as nat) {
        let h = 1usize << k;
        l_cnt_sum(r, h, 64);
        assert((1usize << k) > 0) by (bit_vector) requires k <= 62;
        assert(r & h == 0 && r ^ h == r | h) by (bit_vector) requires r == sub(1usize << k, 1), h == 1usize << k, k <= 62;
        l_inv_one(k, k, 64);
        assert(2 * n == k + 1);
    } else {
        assert(2 * n == k);
    }
    l_p2(s + 2 * n);
}
pub proof fn l_unev(l: usize, n: usize)
    requires n <= 61, l < (1usize << 62),
    ensures unev(l, n) == (l as int / (1usize << n) as int) * (2 * (1usize << n)) + l as int % (1usize << n) as int,
{
    let g = 1usize << n;
    let m = sub(g, 1);
    let q = l >> n;
    let t = l & m;
    let w = (l & m) | ((l & !m) << 1usize);
    assert(g > 0) by (bit_vector) requires g == 1usize << n, n <= 61;
    assert(q * g + t == l) by (bit_vector) requires t == l & sub(g, 1), q == l >> n, g == 1usize << n, n <= 61;
    assert(w == 2 * (q * g) + t) by (bit_vector) requires m == sub(g, 1), w == (l & m) | ((l & !m) << 1usize), t == l & sub(g, 1), q == l >> n, g == 1usize << n, n <= 61, l < (1usize << 62);
    assert(t < g) by (bit_vector) requires t == l & sub(g, 1), g == 1usize << n, n <= 61;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l as int, g as int, q as int, t as int);
    assert((q * (2 * g)) == 2 * (q * g)) by (nonlinear_arith);
}
// what the inverse transform makes of a representation
pub open spec fn backc<A: ClAlgebra>(x: FFTRepr<A>) -> Seq<Complex64> {
    origv(backv(x.f(), upl(nn::<A>()), wn::<A>()), nn::<A>(), N::<A>() as nat)
}
pub proof fn th_back<A: ClAlgebra>(x: FFTRepr<A>, c: Seq<Complex64>)
    requires reps(x, c),
    ensures backc(x) == c,
{
    l_fshape::<A>();
    l_even::<A>();
    let (k, d) = (nn::<A>(), A::sdim());
    let b = backv(x.f(), upl(k), wn::<A>());
    l_p2(k as nat);
    assert((1usize << d) <= (1usize << 62)) by (bit_vector) requires d <= 62;
    assert forall|l: int| 0 <= l < c.len() implies backc(x)[l] == c[l] by {
        th_rp_back(c, x.f(), k, d, l);
        let g = p2(k as nat) as int;
        if odd(k as nat) {
            l_unev(l as usize, k);
            assert(p2(2 * upl(k)) == 2 * p2(k as nat)) by { assert(2 * upl(k) == k + 1); }
        } else {
            assert(2 * upl(k) == k);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, g);
            assert((l / g) * g == g * (l / g)) by (nonlinear_arith);
        }
    }
    assert(backc(x).len() == c.len()) by { if !odd(k as nat) { assert(2 * upl(k) == k); } }
    assert(backc(x) =~= c);
}
pub proof fn th_rep_mul_all<A: ClAlgebra>()
    ensures forall|r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, a: Seq<Complex64>, b: Seq<Complex64>| #[trigger] pmul(r, x, y) && #[trigger] reps(x, a) && #[trigger] reps(y, b) ==> reps(r, prod(a, b, 0, A::sproj())),
{
    assert forall|r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, a: Seq<Complex64>, b: Seq<Complex64>| #[trigger] pmul(r, x, y) && #[trigger] reps(x, a) && #[trigger] reps(y, b) implies reps(r, prod(a, b, 0, A::sproj())) by {
        th_rep_mul(r, x, y, a, b);
    }
}
pub proof fn th_rep_mul<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, a: Seq<Complex64>, b: Seq<Complex64>)
    requires pmul(r, x, y), reps(x, a), reps(y, b),
    ensures reps(r, prod(a, b, 0, A::sproj())),
{
    l_fshape::<A>();
    let (k, d, p) = (nn::<A>(), A::sdim(), A::sproj());
    let c = prod(a, b, 0, p);
    assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] r.f()(w, i, j) == rpm(c, k)(w, i, j) by {
        th_wm(a, b, p, k, d, w, i, j);
        l_wm_eq(x.f(), y.f(), rpm(a, k), rpm(b, k), (d - k) as nat, ms::<A>(), w, i, j);
        assert(r.arr.g(w, i, j) == wm(x.f(), y.f(), (d - k) as nat, ms::<A>(), w, i, j));
    }
}
// one and powers
pub proof fn th_rep_one<A: ClAlgebra>(r: FFTRepr<A>)
    requires r.wf(), forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() },
    ensures reps(r, onev::<Complex64>(N::<A>() as nat)),
{
    l_fshape::<A>();
    let c = onev::<Complex64>(N::<A>() as nat);
    l_alg::<A>();
    assert(c.len() >= 1 && c[0] == Complex64::o());
    assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] r.f()(w, i, j) == rpm(c, nn::<A>())(w, i, j) by {
        th_rp_one(c, nn::<A>(), A::sdim(), w, i, j);
        assert(r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() });
    }
}
pub proof fn th_rep_zero<A: ClAlgebra>(r: FFTRepr<A>)
    requires r.wf(), forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::z(),
    ensures reps(r, zeros::<Complex64>(N::<A>() as nat)),
{
    l_fshape::<A>();
    let c = zeros::<Complex64>(N::<A>() as nat);
    l_alg::<A>();
    assert(c.len() >= 1 && c[0] == Complex64::z());
    assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] r.f()(w, i, j) == rpm(c, nn::<A>())(w, i, j) by {
        th_rp_one(c, nn::<A>(), A::sdim(), w, i, j);
        assert(r.arr.g(w, i, j) == Complex64::z());
    }
}
pub proof fn th_rep_pow_all<A: ClAlgebra>()
    requires A::ok(), A::sdim() <= 62,
    ensures
        forall|r: FFTRepr<A>| (r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() }) ==> #[trigger] reps(r, onev::<Complex64>(N::<A>() as nat)),
        forall|c: Seq<Complex64>, n: nat, m: nat| c.len() == N::<A>() ==> #[trigger] prod(powv(c, n, 0, A::sproj()), powv(c, m, 0, A::sproj()), 0, A::sproj()) == powv(c, n + m, 0, A::sproj()),
        forall|c: Seq<Complex64>, n: nat| c.len() == N::<A>() ==> (#[trigger] powv(c, n, 0, A::sproj())).len() == N::<A>() && powv(c, 1, 0, A::sproj()) == c,
{
    l_fshape::<A>();
    assert forall|r: FFTRepr<A>| (r.wf() && forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() }) implies #[trigger] reps(r, onev::<Complex64>(N::<A>() as nat)) by { th_rep_one(r); }
    assert forall|c: Seq<Complex64>, n: nat, m: nat| c.len() == N::<A>() implies #[trigger] prod(powv(c, n, 0, A::sproj()), powv(c, m, 0, A::sproj()), 0, A::sproj()) == powv(c, n + m, 0, A::sproj()) by {
        th_pow_add(c, n, m, 0, A::sproj(), A::sdim());
    }
    assert forall|c: Seq<Complex64>, n: nat| c.len() == N::<A>() implies (#[trigger] powv(c, n, 0, A::sproj())).len() == N::<A>() && powv(c, 1, 0, A::sproj()) == c by {
        l_powv_len(c, n, 0, A::sproj());
        l_pow_one(c, 0, A::sproj(), A::sdim());
    }
}
// the numbers below n whose parity of bits is e, in order
pub open spec fn hs(n: int, e: bool) -> Seq<int>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if odd(pc((n - 1) as usize)) == e { hs(n - 1, e).push(n - 1) } else { hs(n - 1, e) }
}
pub proof fn l_hs_prefix(n: int, m: int, e: bool)
    requires 0 <= n <= m,
    ensures hs(n, e).len() <= hs(m, e).len(), forall|a: int| 0 <= a < hs(n, e).len() ==> #[trigger] hs(m, e)[a] == hs(n, e)[a], hs(n, e).len() + hs(n, !e).len() == n, forall|a: int| 0 <= a < hs(n, e).len() ==> 0 <= #[trigger] hs(n, e)[a] < n,
    decreases m,
{
    if n < m {
        l_hs_prefix(n, m - 1, e);
    } else if n > 0 {
        l_hs_prefix(n - 1, m - 1, e);
    }
}
pub proof fn l_hs_shift(t: usize, k: int, e: bool)
    requires t < 63, 0 <= k <= (1usize << t),
    ensures hs((1usize << t) + k, e).len() == hs((1usize << t) as int, e).len() + hs(k, !e).len(),
    decreases k,
{
    if k > 0 {
        l_hs_shift(t, k - 1, e);
        l_bits_top(k - 1, t, 0);
    }
}
pub proof fn l_hs_half(t: usize, e: bool)
    requires 1 <= t < 63,
    ensures hs((1usize << t) as int, e).len() == 1usize << ((t - 1) as usize), (1usize << t) == 2 * (1usize << ((t - 1) as usize)),
{
    let s = (t - 1) as usize;
    assert((1usize << t) == 2 * (1usize << s)) by (bit_vector) requires s == sub(t, 1), 1 <= t < 63;
    l_hs_shift(s, (1usize << s) as int, e);
    l_hs_prefix((1usize << s) as int, (1usize << s) as int, e);
}
@impl FFTRepr
@fn basis
@props C13
@sub A::basis::<Complex64>().map( =>> basis::<A, DIM, Complex64>().v_amap(
@requires
    A::ok(), A::sdim() <= 62, DIM == A::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> mvrep::<Complex64, A>(#[trigger] r@[i], blade(N::<A>() as nat, (1usize << (i as usize)) as int, Complex64::o())),
@entry
    proof { th_conv(); }
@closure 0
|p: Multivector<Complex64, A>| -> (q: Self)
  requires p.wf(), A::sdim() <= 62, toczero::<Complex64>(),
  ensures mvrep::<Complex64, A>(q, p.v()),
@fn from_array3_unchecked
@props C12 C13 C14 C15 C16
@ensures
    r.arr == arr,
@fn from_array3
@props C12
@requires
    A::ok(), A::sdim() <= 62,
@ensures
    r is Ok == (arr.np() == wn::<A>() && arr.nr() == ms::<A>() && arr.nc() == ms::<A>()),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.arr == arr,
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@entry
    proof { l_fshape::<A>(); }
@fn ifft
@props C12
@requires
    self.wf(), fromzero::<T>(),
@ensures
    r.wf(), r.v() == fromcv::<T>(tw(backc(*self), A::simag(), true)),
@entry
    let ghost b = backv(self.f(), upl(nn::<A>()), wn::<A>());
    proof { l_fshape::<A>(); l_even::<A>(); }
@loop 0
@inv
    self.wf(), wn::<A>() <= usize::MAX, ret_c.wf(), Even::<Complexification<A>>::ok(), b == backv(self.f(), upl(nn::<A>()), wn::<A>()), step == p2(2 * upl(nn::<A>())), step == ms::<A>() * ms::<A>(),
    ispow(ms::<A>()), lgn(ms::<A>()) == upl(nn::<A>()), it0.all().len() == wn::<A>(), ret_c.v().len() == wn::<A>() * step, ret_c.v().len() == N::<Even<Complexification<A>>>(),
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> it0.all()[k].0 == k && it0.all()[k].1.nr() == ms::<A>() && it0.all()[k].1.nc() == ms::<A>() && it0.all()[k].1.f() == pl(self.f(), k),
    forall|l: int| 0 <= l < it0.pos() * step ==> #[trigger] ret_c.v()[l] == b[l],
@begin
    let ghost v0 = ret_c.v();
    proof {
        assert(i < wn::<A>());
        assert((i + 1) * step == i * step + step && i * step + step <= wn::<A>() * step) by (nonlinear_arith) requires i < wn::<A>();
    }
@endbody
    proof {
        let x = iicl(pl(self.f(), i as int), upl(nn::<A>()));
        assert forall|l: int| 0 <= l < (i + 1) * step implies #[trigger] ret_c.v()[l] == b[l] by {
            if l >= i * step {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l, step as int, i as int, l - i * step);
            }
        }
    }
@after
    proof { assert(ret_c.v() =~= b); }
@fn pow
@props C16
@requires
    self.wf(),
@ensures
    r.wf(), forall|c: Seq<Complex64>| #[trigger] reps(*self, c) ==> reps(r, powv(c, n as nat, 0, A::sproj())),
@decreases
    n
@entry
    proof {
        assert(n >> 1usize == n / 2 && n & 1usize == n % 2) by (bit_vector);
        th_rep_mul_all::<A>();
        th_rep_pow_all::<A>();
    }
@fn exp
@props C19
@sub ?f64::EPSILON =>> v_eps()
@sub ?let mut i = 1; =>> let mut i: i32 = 1;
@sub max_c as usize =>> v_to_usize(max_c)
@requires
    self.wf(), rmax(self.f(), wn::<A>(), ms::<A>(), ms::<A>() as int) <= (usize::MAX - 1) as int as real,
@ensures
    r.wf(), forall|c: Seq<Complex64>| #[trigger] reps(*self, c) ==> fexp(r, c, rmax(self.f(), wn::<A>(), ms::<A>(), ms::<A>() as int)),
@entry
    let ghost h = ms::<A>() as int;
    let ghost b = rmax(self.f(), wn::<A>(), ms::<A>(), h);
    proof { l_fshape::<A>(); l_rmax(self.f(), wn::<A>(), ms::<A>(), h); }
@loop 0
@inv
    self.wf(), h == ms::<A>(), it0.all().len() == h,
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> it0.all()[k].nr() == wn::<A>() && it0.all()[k].nc() == h,
    forall|k: int, w: int, j: int| 0 <= k < it0.all().len() && vin2(w, j, wn::<A>(), ms::<A>()) ==> #[trigger] it0.all()[k].g(w, j) == self.arr.g(w, k, j),
    max_c == fl(rmax(self.f(), wn::<A>(), ms::<A>(), it0.pos() as int)),
@begin
    let ghost sq = rowseq(self.f(), wn::<A>(), ms::<A>(), it0.pos() - 1);
@loop 1
@inv
    sq.len() == it1.all().len(), forall|k: int| #![trigger it1.all()[k]] 0 <= k < it1.all().len() ==> *it1.all()[k] == sq[k],
    row_sum == fl(nsum(sq, it1.pos() as int)),
@before
    proof {
        assert(sq.len() == it1.all().len());
        assert forall|k: int| #![trigger it1.all()[k]] 0 <= k < it1.all().len() implies *it1.all()[k] == sq[k] by {
            l_cell(k, wn::<A>(), ms::<A>());
            assert(vin2(k / h, k % h, wn::<A>(), ms::<A>()));
            assert(row.g(k / h, k % h) == self.arr.g(k / h, it0.pos() - 1, k % h));
        }
    }
@hook let int_pow 0
    proof {
        let m = choose|m: int| max_c == #[trigger] fl(m as real) && m as real - 1real < b <= m as real;
        assert(1 <= m <= usize::MAX && int_pow == m);
    }
@loop 2
@inv
    self.wf(), int_pow >= 1, b <= int_pow as int as real, pscale(normalized_self, *self, rc(F64::iv(fl(int_pow as int as real)))),
    normalized_self.wf(), p.wf(), res.wf(), 1 <= i <= 60, coeff == fl(ifct((i - 1) as nat)),
    forall|c: Seq<Complex64>| #[trigger] reps(*self, c) ==> reps(p, powv(scl(c, int_pow as nat), i as nat, 0, A::sproj())) && reps(res, ser(scl(c, int_pow as nat), (i - 1) as nat, crf(), 0, A::sproj())),
@dec
    60 - i
@before
    proof {
        assert forall|c: Seq<Complex64>| #[trigger] reps(*self, c) implies reps(p, powv(scl(c, int_pow as nat), 1, 0, A::sproj())) && reps(res, ser(scl(c, int_pow as nat), 0, crf(), 0, A::sproj())) by {
            let y = scl(c, int_pow as nat);
            th_rep_lin(normalized_self, *self, *self, c, c, rc(F64::iv(fl(int_pow as int as real))));
            l_pow_one(y, 0, A::sproj(), A::sdim());
            th_rep_one(res);
        }
    }
@begin
    proof { l_cut((i - 1) as nat); }
    let ghost (res0, p0) = (res, p);
@endbody
    proof {
        assert forall|c: Seq<Complex64>| #[trigger] reps(*self, c) implies reps(p, powv(scl(c, int_pow as nat), i as nat, 0, A::sproj())) && reps(res, ser(scl(c, int_pow as nat), (i - 1) as nat, crf(), 0, A::sproj())) by {
            let y = scl(c, int_pow as nat);
            let j = (i - 1) as nat;
            th_rep_lin(normalized_self, *self, *self, c, c, rc(F64::iv(fl(int_pow as int as real))));
            th_rep_mul(p, p0, normalized_self, powv(y, j, 0, A::sproj()), y);
            l_repadd(res, res0, p0, ser(y, (j - 1) as nat, crf(), 0, A::sproj()), powv(y, j, 0, A::sproj()), rc(coeff));
        }
    }
@after
    proof {
        assert forall|c: Seq<Complex64>, r: FFTRepr<A>| reps(*self, c) && #[trigger] reps(r, powv(ser(scl(c, int_pow as nat), (i - 1) as nat, crf(), 0, A::sproj()), int_pow as nat, 0, A::sproj())) implies #[trigger] fexp(r, c, b) by {
            assert(expk(r, c, b, int_pow as nat, (i - 1) as nat));
        }
    }
@fn into_half_spin_repr
@props C14
@index
@requires
    self.wf(), A::sdim() == nn::<A>(),
@ensures
    r.0.nr() == ms::<A>() / 2, r.0.nc() == ms::<A>() / 2, r.1.nr() == ms::<A>() / 2, r.1.nc() == ms::<A>() / 2,
    forall|a: int, c: int| vin2(a, c, ms::<A>() / 2, ms::<A>() / 2) ==> #[trigger] r.0.g(a, c) == self.arr.g(0, hs(ms::<A>() as int, false)[a], hs(ms::<A>() as int, false)[c]),
    forall|a: int, c: int| vin2(a, c, ms::<A>() / 2, ms::<A>() / 2) ==> #[trigger] r.1.g(a, c) == self.arr.g(0, hs(ms::<A>() as int, true)[a], hs(ms::<A>() as int, true)[c]),
@entry
    let ghost x = self.arr;
    let ghost h = ms::<A>() as int;
    proof {
        l_fshape::<A>();
        l_alg::<A>();
        l_hs_half(upl(nn::<A>()) as usize, false);
        l_hs_half(upl(nn::<A>()) as usize, true);
        l_hs_prefix(h, h, false);
        l_hs_prefix(h, h, true);
    }
@loop 0
@inv
    repr_size == h, h == ms::<A>(), hs(h, false).len() == repr_size / 2, hs(h, true).len() == repr_size / 2, it0.all().len() == h,
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < h ==> it0.all()[k].0 == k && it0.all()[k].1.v().len() == h,
    forall|k: int, j: int| #![trigger it0.all()[k].1.v()[j]] 0 <= k < h && 0 <= j < h ==> it0.all()[k].1.v()[j] == x.g(0, k, j),
    forall|a: int| 0 <= a < hs(h, false).len() ==> 0 <= #[trigger] hs(h, false)[a] < h,
    forall|a: int| 0 <= a < hs(h, true).len() ==> 0 <= #[trigger] hs(h, true)[a] < h,
    even_spin_repr.nr() == hs(it0.pos() as int, false).len(), even_spin_repr.nc() == repr_size / 2,
    odd_spin_repr.nr() == hs(it0.pos() as int, true).len(), odd_spin_repr.nc() == repr_size / 2,
    forall|a: int, c: int| vin2(a, c, even_spin_repr.nr(), even_spin_repr.nc()) ==> #[trigger] even_spin_repr.g(a, c) == x.g(0, hs(h, false)[a], hs(h, false)[c]),
    forall|a: int, c: int| vin2(a, c, odd_spin_repr.nr(), odd_spin_repr.nc()) ==> #[trigger] odd_spin_repr.g(a, c) == x.g(0, hs(h, true)[a], hs(h, true)[c]),
@begin
    proof {
        l_hs_prefix(i as int, h, false);
        l_hs_prefix(i as int, h, true);
        l_hs_prefix(i + 1, h, false);
        l_hs_prefix(i + 1, h, true);
    }
@loop 1
@inv
    tmp.nr() == 1, tmp.nc() == repr_size / 2, cur == hs(j as int, false).len(), row.v().len() == repr_size, repr_size == ms::<A>(), hs(repr_size as int, false).len() == repr_size / 2,
    forall|c: int| 0 <= c < cur ==> #[trigger] tmp.g(0, c) == row.v()[hs(repr_size as int, false)[c]],
@begin
    proof { l_hs_prefix(j as int, repr_size as int, false); l_hs_prefix(j + 1, repr_size as int, false); }
@loop 2
@inv
    tmp.nr() == 1, tmp.nc() == repr_size / 2, cur == hs(j as int, true).len(), row.v().len() == repr_size, repr_size == ms::<A>(), hs(repr_size as int, true).len() == repr_size / 2,
    forall|c: int| 0 <= c < cur ==> #[trigger] tmp.g(0, c) == row.v()[hs(repr_size as int, true)[c]],
@begin
    proof { l_hs_prefix(j as int, repr_size as int, true); l_hs_prefix(j + 1, repr_size as int, true); }
@fn into_array3
@props C12 C14
@ensures
    r == self.arr,
@fn from_array2
@props C12
@requires
    A::ok(), A::sdim() <= 62, A::sdim() == nn::<A>(),
@ensures
    r is Ok == (arr.nr() == ms::<A>() && arr.nc() == ms::<A>()),
    r is Ok ==> r->Ok_0.wf() && forall|i: int, j: int| vin2(i, j, arr.nr(), arr.nc()) ==> #[trigger] r->Ok_0.arr.g(0, i, j) == arr.g(i, j),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@entry
    proof { l_fshape::<A>(); l_p2(0); assert(1 * arr.nr() * arr.nc() == arr.nr() * arr.nc()) by (nonlinear_arith); }
@fn into_array2
@props C12 C14
@requires
    self.wf(),
@ensures
    r.nr() == ms::<A>(), r.nc() == ms::<A>(),
    forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.arr.g(0, i, j),
@entry
    proof { l_fshape::<A>(); }
@fn inv
@props C15
@sub matrix::matrix_inv =>> matrix_inv
@requires
    self.wf(), A::sdim() == nn::<A>(),
@ensures
    r is Some ==> r->0.wf() && minv(pl(self.f(), 0), pl(r->0.f(), 0), ms::<A>()),
    r is None ==> singular(pl(self.f(), 0), ms::<A>()),
@entry
    proof { l_fshape::<A>(); l_p2(0); assert(1 * ms::<A>() * ms::<A>() == ms::<A>() * ms::<A>()) by (nonlinear_arith); }
@hook let n 0
    let ghost b = ret_arr.f();
@exit
    proof { if r is Some { l_minv_eq(pl(self.f(), 0), b, pl(r->0.f(), 0), ms::<A>()); } }
@fn view
@props C12 C14
@ensures
    r.f() == self.f(), r.np() == self.arr.np(), r.nr() == self.arr.nr(), r.nc() == self.arr.nc(),
@fn approx_eq
@props C13
@requires
    self.arr.np() == rhs.arr.np(), self.arr.nr() == rhs.arr.nr(), self.arr.nc() == rhs.arr.nc(),
@ensures
    r == (forall|w: int, i: int, j: int| vin3(w, i, j, self.arr.np(), self.arr.nr(), self.arr.nc())
        ==> Complex64::s(#[trigger] self.arr.g(w, i, j), rhs.arr.g(w, i, j)).nrm() < precision.v@),
@closure 0
|p: (&Complex64, &Complex64)| -> (b: bool)
  ensures b == (Complex64::s(*p.0, *p.1).nrm() < precision.v@),
@exit
    proof {
        if r {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, self.arr.np(), self.arr.nr(), self.arr.nc())
                implies Complex64::s(#[trigger] self.arr.g(w, i, j), rhs.arr.g(w, i, j)).nrm() < precision.v@ by {
                let k = rmi3(w, i, j, self.arr.nr(), self.arr.nc());
                assert(k >= 0);
            }
        }
    }
@fn shape
@props C12 C14
@ensures
    r.0 == self.arr.np(), r.1 == self.arr.nr(), r.2 == self.arr.nc(),
@fn flip
@props C14
@requires
    self.wf(),
@ensures
    pflip(r, *self),
@entry
    let ghost af = self.f();
    proof { l_fshape::<A>(); }
@loop 0
@inv
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> *it0.all()[k].1 == af(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int),
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.pos() ==> *final(it0.all()[k].1) == sg(a3(it0.all()[k].0.0 as int, it0.all()[k].0.1 as int, it0.all()[k].0.2 as int), *it0.all()[k].1),
@begin
    proof { l_a3_code(idx, i, j); l_and1(); }
@after
    proof {
        assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] ret.arr.g(w, i, j) == sg(a3(w, i, j), self.arr.g(w, i, j)) by {
            let k = rmi3(w, i, j, ms::<A>(), ms::<A>());
            assert(it0.all()[k].0.0 == w);
        }
    }
@fn trace
@props C14
@index
@opcalls
@requires
    self.wf(),
@ensures
    r == tr(pl(self.f(), 0), ms::<A>()),
@entry
    proof { l_fshape::<A>(); }
@loop 0
@iter it
@inv
    self.wf(), wn::<A>() >= 1, it.seq().len() == ms::<A>(), s == tr(pl(self.f(), 0), i as nat),
@fn ntrace
@props C14
@opcalls
@requires
    self.wf(),
@ensures
    r == Complex64::m(tr(pl(self.f(), 0), ms::<A>()), rc(F64::iv(fl(ms::<A>() as int as real)))),
@fn rev
@props C14
@requires
    self.wf(),
@ensures
    prev(r, *self),
@entry
    proof { l_fshape::<A>(); l_p2(upl(nn::<A>())); l_lgn(ms::<A>(), upl(nn::<A>()) as usize); }
@loop 0
@inv
    self.wf(), ret.wf(), ispow(ms::<A>()), lgn(ms::<A>()) == upl(nn::<A>()), it0.all().len() == wn::<A>(),
    forall|k: int| #![trigger it0.all()[k]] 0 <= k < it0.all().len() ==> it0.all()[k].0 == k && it0.all()[k].1.nr() == ms::<A>() && it0.all()[k].1.nc() == ms::<A>() && it0.all()[k].1.f() == pl(self.f(), k),
    forall|w: int, i: int, j: int| vin3(w, i, j, it0.pos() as nat, ms::<A>(), ms::<A>()) ==> #[trigger] ret.arr.g(w, i, j) == sg(rvs(w, i, j), beta(trm(pl(self.f(), w)), upl(nn::<A>()), i, j)),
@begin
    let ghost w = i;
    let ghost ret0 = ret.arr;
@hook call assign 0
    let ghost v0 = view.f();
    proof {
        assert forall|j: int, k: int| vin2(j, k, ms::<A>(), ms::<A>()) implies #[trigger] view.g(j, k) == beta(trm(pl(self.f(), w as int)), upl(nn::<A>()), j, k) by {}
    }
@loop 1
@inv
    forall|k: int| #![trigger it1.all()[k]] 0 <= k < it1.all().len() ==> *it1.all()[k].1 == v0(it1.all()[k].0.0 as int, it1.all()[k].0.1 as int),
    forall|k: int| #![trigger it1.all()[k]] 0 <= k < it1.pos() ==> *final(it1.all()[k].1) == sg(rvs(w as int, it1.all()[k].0.0 as int, it1.all()[k].0.1 as int), *it1.all()[k].1),
    pc(w) % 4 == 1,
@begin
    proof { l_ap_code(j, k); }
@after
    proof {
        assert forall|j: int, k: int| vin2(j, k, ms::<A>(), ms::<A>()) implies #[trigger] view.g(j, k) == sg(rvs(w as int, j, k), v0(j, k)) by {
            let l = rmi(j, k, ms::<A>());
            assert(it1.all()[l].0.0 == j);
        }
    }
@loop 2
@inv
    forall|k: int| #![trigger it2.all()[k]] 0 <= k < it2.pos() ==> *final(it2.all()[k]) == Complex64::n(*it2.all()[k]),
    pc(w) % 4 == 2,
@after
    proof {
        assert forall|j: int, k: int| vin2(j, k, ms::<A>(), ms::<A>()) implies #[trigger] view.g(j, k) == sg(rvs(w as int, j, k), v0(j, k)) by {
            let l = rmi(j, k, ms::<A>());
            assert(*final(it2.all()[l]) == Complex64::n(*it2.all()[l]));
        }
    }
@loop 3
@inv
    forall|k: int| #![trigger it3.all()[k]] 0 <= k < it3.all().len() ==> *it3.all()[k].1 == v0(it3.all()[k].0.0 as int, it3.all()[k].0.1 as int),
    forall|k: int| #![trigger it3.all()[k]] 0 <= k < it3.pos() ==> *final(it3.all()[k].1) == sg(rvs(w as int, it3.all()[k].0.0 as int, it3.all()[k].0.1 as int), *it3.all()[k].1),
    pc(w) % 4 == 3,
@begin
    proof { l_ap_code(j, k); }
@after
    proof {
        assert forall|j: int, k: int| vin2(j, k, ms::<A>(), ms::<A>()) implies #[trigger] view.g(j, k) == sg(rvs(w as int, j, k), v0(j, k)) by {
            let l = rmi(j, k, ms::<A>());
            assert(it3.all()[l].0.0 == j);
        }
    }
@fn mag2
@props C14
@requires
    self.wf(),
@ensures
    exists|x: FFTRepr<A>, y: FFTRepr<A>| #[trigger] prev(x, *self) && #[trigger] pmul(y, x, *self) && r == Complex64::m(tr(pl(y.f(), 0), ms::<A>()), rc(F64::iv(fl(ms::<A>() as int as real)))),
@end
@opfn Add 0
@requires
    $self.wf(),
    $rhs.wf(),
@ensures
    padd(r, $self, $rhs),
@opfn Sub 0
@requires
    $self.wf(),
    $rhs.wf(),
@ensures
    psub(r, $self, $rhs),
@opfn Mul 0
@props C13 C14 C16
@requires
    $self.wf(),
    $rhs.wf(),
@ensures
    pmul(r, $self, $rhs),
@entry
    proof { l_fshape::<A>(); }
@opfn Mul 1
@opcalls
@requires
    $self.wf(),
@ensures
    pscale(r, $self, $rhs),
@closure 0
|p: &Complex64| -> (q: Complex64)
  ensures q == Complex64::m(*p, $rhs),
@opfn Mul 2
@opcalls
@requires
    $self.wf(),
@ensures
    pscale(r, $self, rc($rhs)),
@closure 0
|p: &Complex64| -> (q: Complex64)
  ensures q == Complex64::m(*p, rc($rhs)),
@opfn Div 0
@opcalls
@requires
    $self.wf(),
@ensures
    pscale(r, $self, civ($rhs)),
@closure 0
|p: &Complex64| -> (q: Complex64)
  ensures q == Complex64::m(*p, civ($rhs)),
@opfn Div 1
@opcalls
@requires
    $self.wf(),
@ensures
    pscale(r, $self, rc(F64::iv($rhs))),
@closure 0
|p: &Complex64| -> (q: Complex64)
  ensures q == Complex64::m(*p, rc(F64::iv($rhs))),
@opfn Neg 0
@requires
    $self.wf(),
@ensures
    pneg(r, $self),
@impl Zero for FFTRepr
@sub Zero for FFTRepr =>> FFTRepr
@fn zero
@props C12 C13 C14 C16
@requires
    A::ok(), A::sdim() <= 62,
@ensures
    r.wf(), forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::z(),
@entry
    proof { l_fshape::<A>(); }
@fn is_zero
@props C13
@sub .all(Complex64::is_zero) =>> .all(|c| Complex64::is_zero(c))
@requires
    self.wf(),
@ensures
    r == (forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] self.arr.g(w, i, j) == Complex64::z()),
@closure 0
|p: &Complex64| -> (b: bool)
  ensures b == (*p == Complex64::z()),
@exit
    proof {
        if r {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] self.arr.g(w, i, j) == Complex64::z() by {
                let k = rmi3(w, i, j, ms::<A>(), ms::<A>());
            }
        }
    }
@end
@impl PartialEq for FFTRepr
@sub PartialEq for FFTRepr =>> FFTRepr
@fn eq
@props C13
@sub self.arr == other.arr =>> self.arr.eq(&other.arr)
@requires
    self.wf(), other.wf(),
@ensures
    r == same3(self.f(), other.f(), wn::<A>(), ms::<A>()),
@exit
    proof {
        if same3(self.f(), other.f(), wn::<A>(), ms::<A>()) {
            assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] self.arr.g(w, i, j) == other.arr.g(w, i, j) by { assert(self.f()(w, i, j) == other.f()(w, i, j)); }
        }
    }
@end
@impl One for FFTRepr
@sub One for FFTRepr =>> FFTRepr
@fn one
@props C13 C15 C16
@index
@requires
    A::ok(), A::sdim() <= 62,
@ensures
    r.wf(), forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() },
@entry
    proof { l_fshape::<A>(); }
@loop 0
@iter it
@inv
    ret.wf(), wn::<A>() >= 1, it.seq().len() == ms::<A>(),
    forall|w: int, k: int, l: int| vin3(w, k, l, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] ret.arr.g(w, k, l) == if w == 0 && k == l && k < i { Complex64::o() } else { Complex64::z() },
@end
@impl Clone for FFTRepr
@sub Clone for FFTRepr =>> FFTRepr
@fn clone
@props C13 C14 C16
@sub fn clone =>> fn v_clone
@ensures
    r.arr == self.arr,
@end
@raw C13 C14 C19
// ---- what the operations do to represented coefficients
pub proof fn th_rep_lin<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, a: Seq<Complex64>, b: Seq<Complex64>, s: Complex64)
    requires reps(x, a), reps(y, b),
    ensures
        padd(r, x, y) ==> reps(r, vadd(a, b)),
        psub(r, x, y) ==> reps(r, vsub(a, b)),
        pneg(r, x) ==> reps(r, vneg(a)),
        pscale(r, x, s) ==> reps(r, scaler(a, s)),
        pflip(r, x) ==> reps(r, alv(a)),
        prev(r, x) ==> reps(r, revv(a)),
{
    l_fshape::<A>();
    let (k, d) = (nn::<A>(), A::sdim());
    let (e, nb) = (Sign::Minus, sgv(Sign::Minus, b));
    assert(vsub(a, b) =~= vadd(a, nb)) by {
        assert forall|i: int| 0 <= i < a.len() implies vsub(a, b)[i] == vadd(a, nb)[i] by { Complex64::sub_def(a[i], b[i]); }
    }
    assert(vneg(a) =~= sgv(e, a));
    assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies
        (padd(r, x, y) ==> #[trigger] r.f()(w, i, j) == rpm(vadd(a, b), k)(w, i, j))
        && (psub(r, x, y) ==> r.f()(w, i, j) == rpm(vsub(a, b), k)(w, i, j))
        && (pneg(r, x) ==> r.f()(w, i, j) == rpm(vneg(a), k)(w, i, j))
        && (pscale(r, x, s) ==> r.f()(w, i, j) == rpm(scaler(a, s), k)(w, i, j))
        && (pflip(r, x) ==> r.f()(w, i, j) == rpm(alv(a), k)(w, i, j))
        && (prev(r, x) ==> r.f()(w, i, j) == rpm(revv(a), k)(w, i, j)) by {
        assert(x.f()(w, i, j) == rpm(a, k)(w, i, j));
        assert(y.f()(w, i, j) == rpm(b, k)(w, i, j));
        l_rp_lin(a, b, e, s, k, d, w, i, j);
        l_rp_lin(a, nb, e, s, k, d, w, i, j);
        l_rp_lin(b, a, e, s, k, d, w, i, j);
        Complex64::sub_def(rp(a, k, w, i, j), rp(b, k, w, i, j));
        th_rp_alpha(a, k, d, w, i, j);
        th_rp_rev(a, k, d, w, i, j);
        assert(r.arr.g(w, i, j) == r.f()(w, i, j));
        let h = ms::<A>();
        assert forall|u: int, v: int| vin2(u, v, h, h) implies #[trigger] trm(pl(x.f(), w))(u, v) == trm(pl(rpm(a, k), w))(u, v) by {
            assert(vin3(w, v, u, wn::<A>(), h, h));
            assert(x.f()(w, v, u) == rpm(a, k)(w, v, u));
        }
        l_beta_eq(trm(pl(x.f(), w)), trm(pl(rpm(a, k), w)), upl(k), i, j);
    }
}
@raw C19
// ---- the exponential of representations
pub open spec fn rowseq(f: spec_fn(int, int, int) -> Complex64, np: nat, n: nat, i: int) -> Seq<Complex64> {
    Seq::new(np * n, |k: int| f(k / n as int, i, k % n as int))
}
// the largest sum of norms in one of the first i rows, at least 1
pub open spec fn rmax(f: spec_fn(int, int, int) -> Complex64, np: nat, n: nat, i: int) -> real
    decreases i,
{
    if i <= 0 { 1real } else {
        let (x, y) = (rmax(f, np, n, i - 1), nsum(rowseq(f, np, n, i - 1), (np * n) as int));
        if x >= y { x } else { y }
    }
}
pub proof fn l_rmax(f: spec_fn(int, int, int) -> Complex64, np: nat, n: nat, i: int)
    ensures rmax(f, np, n, i) >= 1real,
    decreases i,
{
    if i > 0 { l_rmax(f, np, n, i - 1); }
}
pub proof fn l_cell(k: int, np: nat, n: nat)
    requires 0 <= k < np * n, n >= 1,
    ensures 0 <= k / n as int, k / (n as int) < np, 0 <= k % n as int, k % (n as int) < n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n as int);
    let (q, t) = (k / n as int, k % n as int);
    assert(0 <= q < np) by (nonlinear_arith) requires k == n * q + t, 0 <= t < n, 0 <= k < np * n;
}
pub open spec fn crf() -> spec_fn(real) -> Complex64 { |x: real| cx(x, 0real) }
pub open spec fn scl(c: Seq<Complex64>, m: nat) -> Seq<Complex64> { scaler(c, cx(rinv(m as int as real), 0real)) }
// r represents the m-th power of the series of c / m cut off after the power k
pub open spec fn expk<A: ClAlgebra>(r: FFTRepr<A>, c: Seq<Complex64>, b: real, m: nat, k: nat) -> bool {
    m >= 1 && b <= m as int as real && ifct(k) <= hlf(52) && reps(r, powv(ser(scl(c, m), k, crf(), 0, A::sproj()), m, 0, A::sproj()))
}
pub open spec fn fexp<A: ClAlgebra>(r: FFTRepr<A>, c: Seq<Complex64>, b: real) -> bool {
    exists|m: nat, k: nat| #[trigger] expk(r, c, b, m, k)
}
pub proof fn l_repadd<A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, a: Seq<Complex64>, b: Seq<Complex64>, s: Complex64)
    requires reps(x, a), reps(y, b), exists|z: FFTRepr<A>| #[trigger] pscale(z, y, s) && #[trigger] padd(r, x, z),
    ensures reps(r, vadd(a, scaler(b, s))),
{
    let z = choose|z: FFTRepr<A>| #[trigger] pscale(z, y, s) && #[trigger] padd(r, x, z);
    th_rep_lin(z, y, y, b, b, s);
    th_rep_lin(r, x, z, a, scaler(b, s), s);
}
@raw C13 C14 C19
pub proof fn l_beta_eq<T: Ring>(m: spec_fn(int, int) -> T, q: spec_fn(int, int) -> T, n: nat, i: int, j: int)
    requires 0 <= i < p2(n), 0 <= j < p2(n), forall|u: int, v: int| vin2(u, v, p2(n), p2(n)) ==> #[trigger] m(u, v) == q(u, v),
    ensures beta(m, n, i, j) == beta(q, n, i, j),
    decreases n,
{
    if n > 0 {
        let p = (n - 1) as nat;
        let h = p2(p);
        let (r, c) = (if i < h { 1int } else { 0 }, if j < h { 1int } else { 0 });
        let (m1, q1) = (alm(shm(m, h as int, r, c)), alm(shm(q, h as int, r, c)));
        assert forall|u: int, v: int| vin2(u, v, h, h) implies #[trigger] m1(u, v) == q1(u, v) by {
            assert(vin2(u + r * h, v + c * h, p2(n), p2(n))) by (nonlinear_arith) requires vin2(u, v, h, h), 0 <= r <= 1, 0 <= c <= 1, p2(n) == 2 * h;
            assert(m(u + r * h, v + c * h) == q(u + r * h, v + c * h));
        }
        l_beta_eq(m1, q1, p, lw(i, h), lw(j, h));
    }
}
@raw C14
pub proof fn l_tpow(n: nat)
    ensures tpow::<Complex64>(n) == cx(p2(n) as int as real, 0real), p2(n) >= 1,
    decreases n,
{
    if n > 0 { l_tpow((n - 1) as nat); }
}
pub open spec fn ntr<A: ClAlgebra>(x: FFTRepr<A>) -> Complex64 {
    Complex64::m(tr(pl(x.f(), 0), ms::<A>()), rc(F64::iv(fl(ms::<A>() as int as real))))
}
// the normalised trace is the scalar part
pub proof fn th_rep_trace<A: ClAlgebra>(x: FFTRepr<A>, a: Seq<Complex64>)
    requires reps(x, a),
    ensures
        tr(pl(x.f(), 0), ms::<A>()) == Complex64::m(tpow(upl(nn::<A>())), a[0]),
        ntr(x) == a[0],
{
    l_fshape::<A>();
    let (k, d, h) = (nn::<A>(), A::sdim(), ms::<A>());
    th_rp_trace(a, k, d);
    let (f, g) = (|i: int| pl(x.f(), 0)(i, i), |i: int| pl(rpm(a, k), 0)(i, i));
    assert forall|i: int| 0 <= i < h implies #[trigger] f(i) == g(i) by {
        assert(vin3(0, i, i, wn::<A>(), h, h));
        assert(x.f()(0, i, i) == rpm(a, k)(0, i, i));
    }
    sum_eq(f, g, h);
    l_tpow(upl(k));
    let hr = h as int as real;
    l_rinv(hr);
    let q = rinv(hr);
    let (u, v) = (re(a[0]), im(a[0]));
    assert(hr * q == 1real);
    assert((hr * u - 0real * v) * q - (hr * v + 0real * u) * 0real == u) by (nonlinear_arith) requires hr * q == 1real;
    assert((hr * u - 0real * v) * 0real + (hr * v + 0real * u) * q == v) by (nonlinear_arith) requires hr * q == 1real;
}
// the squared magnitude
pub proof fn th_rep_mag2<A: ClAlgebra>(x: FFTRepr<A>, y: FFTRepr<A>, z: FFTRepr<A>, a: Seq<Complex64>)
    requires reps(x, a), prev(y, x), pmul(z, y, x),
    ensures ntr(z) == sdot(revv(a), a, 0, A::sproj()),
{
    l_alg::<A>();
    th_rep_lin(y, x, x, a, a, a[0]);
    th_rep_mul(z, y, x, revv(a), a);
    th_rep_trace(z, prod(revv(a), a, 0, A::sproj()));
}
@raw C12 C13 C14 C15
// ---- multivectors and their representations
pub open spec fn mvrep<T: IntoComplex64, A: ClAlgebra>(x: FFTRepr<A>, v: Seq<T>) -> bool {
    reps(x, tw(tocv(v), A::simag(), false))
}
// C12: the inverse transform returns the multivector
pub proof fn th_mv_back<T: Ring + IntoComplex64 + FromComplex, A: ClAlgebra>(x: FFTRepr<A>, v: Seq<T>)
    requires mvrep(x, v), fromto::<T>(),
    ensures fromcv::<T>(tw(backc(x), A::simag(), true)) == v,
{
    th_back(x, tw(tocv(v), A::simag(), false));
    l_tw_inv(tocv(v), A::simag(), false);
    assert(fromcv::<T>(tocv(v)) =~= v);
}
pub proof fn l_toc_sum<T: Ring + IntoComplex64>(f: spec_fn(int) -> T, g: spec_fn(int) -> Complex64, n: nat)
    requires tochom::<T>(), forall|i: int| 0 <= i < n ==> (#[trigger] f(i)).toc() == g(i),
    ensures sum(f, n).toc() == sum(g, n),
    decreases n,
{
    if n > 0 { l_toc_sum(f, g, (n - 1) as nat); let t = f(n - 1); }
}
pub proof fn l_toc_sg<T: Ring + IntoComplex64>(s: Sign, x: T)
    requires tochom::<T>(),
    ensures sg(s, x).toc() == sg(s, x.toc()),
{
}
pub proof fn l_toc_prod<T: Ring + IntoComplex64>(a: Seq<T>, b: Seq<T>, im: usize, pr: usize, d: usize)
    requires dimlen(a.len(), d), b.len() == a.len(), tochom::<T>(),
    ensures tocv(prod(a, b, im, pr)) == prod(tocv(a), tocv(b), im, pr),
{
    assert forall|k: int| 0 <= k < a.len() implies tocv(prod(a, b, im, pr))[k] == prod(tocv(a), tocv(b), im, pr)[k] by {
        let (f, g) = (pterm(a, b, im, pr, k), pterm(tocv(a), tocv(b), im, pr, k));
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] f(i)).toc() == g(i) by {
            l_xr(i, k, a.len(), d);
            l_toc_sg(gs(i, xr(i, k), im, pr), T::m(a[i], b[xr(i, k)]));
        }
        l_toc_sum(f, g, a.len());
    }
    assert(tocv(prod(a, b, im, pr)) =~= prod(tocv(a), tocv(b), im, pr));
}
@raw C13 C14 C15 C16
// C13: the product represents the product
pub proof fn th_mv_mul<T: Ring + IntoComplex64, A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, u: Seq<T>, v: Seq<T>)
    requires pmul(r, x, y), mvrep(x, u), mvrep(y, v), tochom::<T>(),
    ensures mvrep(r, prod(u, v, A::simag(), A::sproj())),
{
    l_fshape::<A>();
    let (d, i, p) = (A::sdim(), A::simag(), A::sproj());
    l_toc_prod(u, v, i, p, d);
    th_tw(tocv(u), tocv(v), i, false, i, p, d);
    assert(i ^ i == 0) by (bit_vector);
    th_rep_mul(r, x, y, tw(tocv(u), i, false), tw(tocv(v), i, false));
}
pub proof fn l_tw_one<T: Ring + IntoComplex64>(n: nat, im: usize)
    requires tochom::<T>(), n >= 1,
    ensures tw(tocv(onev::<T>(n)), im, false) == onev::<Complex64>(n), tw(tocv(zeros::<T>(n)), im, false) == zeros::<Complex64>(n),
{
    assert(0usize & im == 0) by (bit_vector);
    l_pc_zero(64);
    l_ips(false, 0, 0);
    Complex64::mul_one(Complex64::o());
    assert forall|k: int| 0 <= k < n implies tw(tocv(onev::<T>(n)), im, false)[k] == onev::<Complex64>(n)[k] && tw(tocv(zeros::<T>(n)), im, false)[k] == zeros::<Complex64>(n)[k] by {
        r_mul_zero(ips(false, pc(k as usize & im) as int));
    }
    assert(tw(tocv(onev::<T>(n)), im, false) =~= onev::<Complex64>(n));
    assert(tw(tocv(zeros::<T>(n)), im, false) =~= zeros::<Complex64>(n));
}
// zero and one represent zero and one
pub proof fn th_mv_one<T: Ring + IntoComplex64, A: ClAlgebra>(r: FFTRepr<A>)
    requires tochom::<T>(), r.wf(),
    ensures
        (forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() }) ==> mvrep(r, onev::<T>(N::<A>() as nat)),
        (forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::z()) ==> mvrep(r, zeros::<T>(N::<A>() as nat)),
{
    l_alg::<A>();
    l_tw_one::<T>(N::<A>() as nat, A::simag());
    if forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() } { th_rep_one(r); }
    if forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) ==> #[trigger] r.arr.g(w, i, j) == Complex64::z() { th_rep_zero(r); }
}
// powers: what pow represents is the power of what it is given
pub proof fn th_mv_pow<T: Ring + IntoComplex64, A: ClAlgebra>(v: Seq<T>, n: nat)
    requires A::ok(), A::sdim() <= 62, v.len() == N::<A>(), tochom::<T>(),
    ensures powv(tw(tocv(v), A::simag(), false), n, 0, A::sproj()) == tw(tocv(powv(v, n, A::simag(), A::sproj())), A::simag(), false),
    decreases n,
{
    l_alg::<A>();
    let (d, i, p) = (A::sdim(), A::simag(), A::sproj());
    if n == 0 {
        l_tw_one::<T>(N::<A>() as nat, i);
    } else {
        let m = (n - 1) as nat;
        th_mv_pow::<T, A>(v, m);
        let u = powv(v, m, i, p);
        l_powv_len(v, m, i, p);
        l_toc_prod(u, v, i, p, d);
        th_tw(tocv(u), tocv(v), i, false, i, p, d);
        assert(i ^ i == 0) by (bit_vector);
    }
}
@raw C13 C14
// sums, differences, negation, scaling, grade involution and reversal
pub proof fn th_mv_lin<T: Ring + IntoComplex64, A: ClAlgebra>(r: FFTRepr<A>, x: FFTRepr<A>, y: FFTRepr<A>, u: Seq<T>, v: Seq<T>, s: T)
    requires mvrep(x, u), mvrep(y, v), tochom::<T>(),
    ensures
        padd(r, x, y) ==> mvrep(r, vadd(u, v)),
        psub(r, x, y) ==> mvrep(r, vsub(u, v)),
        pneg(r, x) ==> mvrep(r, vneg(u)),
        pscale(r, x, s.toc()) ==> mvrep(r, scaler(u, s)),
        pflip(r, x) ==> mvrep(r, alv(u)),
        prev(r, x) ==> mvrep(r, revv(u)),
{
    let i = A::simag();
    let (a, b) = (tw(tocv(u), i, false), tw(tocv(v), i, false));
    th_rep_lin(r, x, y, a, b, s.toc());
    let c = s.toc();
    assert forall|k: int|
        #![trigger tw(tocv(vadd(u, v)), i, false)[k]]
        #![trigger tw(tocv(vsub(u, v)), i, false)[k]]
        #![trigger tw(tocv(vneg(u)), i, false)[k]]
        #![trigger tw(tocv(scaler(u, s)), i, false)[k]]
        #![trigger tw(tocv(alv(u)), i, false)[k]]
        #![trigger tw(tocv(revv(u)), i, false)[k]]
        0 <= k < u.len() implies
        tw(tocv(vadd(u, v)), i, false)[k] == vadd(a, b)[k]
        && tw(tocv(vsub(u, v)), i, false)[k] == vsub(a, b)[k]
        && tw(tocv(vneg(u)), i, false)[k] == vneg(a)[k]
        && tw(tocv(scaler(u, s)), i, false)[k] == scaler(a, c)[k]
        && tw(tocv(alv(u)), i, false)[k] == alv(a)[k]
        && tw(tocv(revv(u)), i, false)[k] == revv(a)[k] by {
        let t = ips(false, pc(k as usize & i) as int);
        let (p, q) = (u[k].toc(), v[k].toc());
        Complex64::dist_r(p, q, t);
        Complex64::sub_def(p, q);
        Complex64::dist_r(p, Complex64::n(q), t);
        r_mul_neg(q, t);
        r_mul_neg(p, t);
        Complex64::sub_def(a[k], b[k]);
        Complex64::mul_assoc(p, c, t);
        Complex64::mul_assoc(p, t, c);
        l_ctwo();
        assert(Complex64::m(c, t) == Complex64::m(t, c));
        l_toc_sg(par(k), u[k]);
        l_toc_sg(revs(k as usize), u[k]);
        sg_props(par(k), par(k), p, t);
        sg_props(revs(k as usize), revs(k as usize), p, t);
    }
    assert(tw(tocv(vadd(u, v)), i, false) =~= vadd(a, b));
    assert(tw(tocv(vsub(u, v)), i, false) =~= vsub(a, b));
    assert(tw(tocv(vneg(u)), i, false) =~= vneg(a));
    assert(tw(tocv(scaler(u, s)), i, false) =~= scaler(a, c));
    assert(tw(tocv(alv(u)), i, false) =~= alv(a));
    assert(tw(tocv(revv(u)), i, false) =~= revv(a));
}
@raw C14
// the scalar part and the squared magnitude of the multivector
pub proof fn th_mv_trace<T: Ring + IntoComplex64, A: ClAlgebra>(x: FFTRepr<A>, y: FFTRepr<A>, z: FFTRepr<A>, v: Seq<T>)
    requires mvrep(x, v), tochom::<T>(),
    ensures
        ntr(x) == v[0].toc(),
        prev(y, x) && pmul(z, y, x) ==> ntr(z) == sdot(revv(v), v, A::simag(), A::sproj()).toc(),
{
    l_alg::<A>();
    let i = A::simag();
    let a = tw(tocv(v), i, false);
    th_rep_trace(x, a);
    assert(0usize & i == 0) by (bit_vector);
    l_pc_zero(64);
    l_ips(false, 0, 0);
    Complex64::mul_one(v[0].toc());
    if prev(y, x) && pmul(z, y, x) {
        th_mv_lin(y, x, x, v, v, v[0]);
        th_mv_mul(z, y, x, revv(v), v);
        let q = prod(revv(v), v, i, A::sproj());
        th_rep_trace(z, tw(tocv(q), i, false));
        Complex64::mul_one(q[0].toc());
    }
}
@raw C13
// the matrices of the generators satisfy the Clifford relations
pub proof fn th_ft_clifford(a: usize, b: usize, d: usize, i: int, j: int)
    requires a < d, b < d, d <= 62, 0 <= i < p2(upl(d)), 0 <= j < p2(upl(d)),
    ensures ({
        let n = p2(d as nat);
        let (x, y) = (ftm(blade(n, (1usize << a) as int, Complex64::o())), ftm(blade(n, (1usize << b) as int, Complex64::o())));
        let h = p2(upl(d));
        &&& a != b ==> mm(x, y, h, i, j) == Complex64::n(mm(y, x, h, i, j))
        &&& mm(x, x, h, i, j) == if i == j { Complex64::o() } else { Complex64::z() }
    }),
{
    let n = p2(d as nat);
    l_p2(d as nat);
    let (u, v) = (blade(n, (1usize << a) as int, Complex64::o()), blade(n, (1usize << b) as int, Complex64::o()));
    let e = |i: usize| blade(n, (1usize << i) as int, Complex64::o());
    assert(e(a) == u && e(b) == v);
    th_generators::<Complex64>(a, b, n, 0, 0, d);
    assert(!bit(0, a as nat)) by { assert((0usize >> a) & 1 == 0) by (bit_vector) requires a < 64; }
    th_ft_hom(u, v, d, i, j);
    th_ft_hom(v, u, d, i, j);
    th_ft_hom(u, u, d, i, j);
    let w = prod(v, u, 0, 0);
    th_ft_lin(w, w, Sign::Minus, Complex64::o(), d, i, j);
    let s = prod(u, u, 0, 0);
    th_ft_unit(s, d, i, j);
    if a != b { assert(prod(u, v, 0, 0) =~= sgv(Sign::Minus, w)); }
}
@raw C15
// C15: a result of inv is inverse on both sides
pub proof fn th_inv_one<T: Ring + IntoComplex64, A: ClAlgebra>(y: FFTRepr<A>, x: FFTRepr<A>, r: FFTRepr<A>)
    requires x.wf(), r.wf(), A::sdim() == nn::<A>(), minv(pl(x.f(), 0), pl(r.f(), 0), ms::<A>()), pmul(y, x, r) || pmul(y, r, x), tochom::<T>(),
    ensures reps(y, onev::<Complex64>(N::<A>() as nat)), mvrep(y, onev::<T>(N::<A>() as nat)),
{
    l_fshape::<A>();
    l_p2(0);
    assert forall|w: int, i: int, j: int| vin3(w, i, j, wn::<A>(), ms::<A>(), ms::<A>()) implies #[trigger] y.arr.g(w, i, j) == if w == 0 && i == j { Complex64::o() } else { Complex64::z() } by {
        assert(vin2(i, j, ms::<A>(), ms::<A>()));
        if pmul(y, x, r) {
            assert(y.arr.g(w, i, j) == wm(x.f(), r.f(), 0, ms::<A>(), w, i, j));
        } else {
            assert(y.arr.g(w, i, j) == wm(r.f(), x.f(), 0, ms::<A>(), w, i, j));
        }
        assert(mm(pl(x.f(), 0), pl(r.f(), 0), ms::<A>(), i, j) == dl::<Complex64>(i, j));
        assert(mm(pl(r.f(), 0), pl(x.f(), 0), ms::<A>(), i, j) == dl::<Complex64>(i, j));
    }
    th_rep_one(y);
    th_mv_one::<T, A>(y);
}
// no result: the multivector has no inverse
pub proof fn th_not_inv<T: Ring + IntoComplex64, A: ClAlgebra>(x: FFTRepr<A>, v: Seq<T>, u: Seq<T>)
    requires mvrep(x, v), A::sdim() == nn::<A>(), singular(pl(x.f(), 0), ms::<A>()), u.len() == v.len(), tochom::<T>(),
    ensures prod(u, v, A::simag(), A::sproj()) != onev::<T>(N::<A>() as nat),
{
    let (d, im, p, k, h) = (A::sdim(), A::simag(), A::sproj(), nn::<A>(), ms::<A>());
    let one = onev::<Complex64>(N::<A>() as nat);
    if prod(u, v, im, p) == onev::<T>(N::<A>() as nat) {
        l_fshape::<A>();
        l_alg::<A>();
        l_p2(0);
        let (a, b) = (tw(tocv(u), im, false), tw(tocv(v), im, false));
        l_toc_prod(u, v, im, p, d);
        th_tw(tocv(u), tocv(v), im, false, im, p, d);
        assert(im ^ im == 0) by (bit_vector);
        l_tw_one::<T>(N::<A>() as nat, im);
        assert(prod(a, b, 0, p) == one);
        let (m, q) = (pl(x.f(), 0), pl(rpm(a, k), 0));
        assert forall|i: int, j: int| vin2(i, j, h, h) implies #[trigger] mm(q, m, h, i, j) == dl::<Complex64>(i, j) by {
            assert(vin3(0, i, j, wn::<A>(), h, h));
            th_wm(a, b, p, k, d, 0, i, j);
            assert(one[0] == Complex64::o());
            th_rp_one(one, k, d, 0, i, j);
            assert forall|l: int| 0 <= l < h implies #[trigger] m(l, j) == pl(rpm(b, k), 0)(l, j) by {
                assert(vin3(0, l, j, wn::<A>(), h, h));
                assert(x.f()(0, l, j) == rpm(b, k)(0, l, j));
            }
            l_mm_eq(q, m, q, pl(rpm(b, k), 0), h, i, j);
        }
        let z = choose|z: spec_fn(int) -> Complex64| nullv(m, h, z);
        l_nullv_mm(m, q, h, z);
    }
}
