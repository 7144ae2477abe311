@@ conversion to and from complex coefficients: src/types.rs, src/complexification.rs
@module ctypes types.rs C12 C13 C14
@trait FromComplex
@sub FromComplex =>> FromComplex: Sized
    spec fn fromc(c: Complex64) -> Self;
@fn from_complex
@ensures
    r == Self::fromc(c),
@end
@impl FromComplex for Complex64
    open spec fn fromc(c: Complex64) -> Complex64 { c }
@fn from_complex
@end
@impl FromComplex for f64
@sub for f64 =>> for F64
    open spec fn fromc(c: Complex64) -> F64 { c.re }
@fn from_complex
@end
@trait IntoComplex64
@sub IntoComplex64 =>> IntoComplex64: Sized
    spec fn toc(&self) -> Complex64;
@fn into_complex
@ensures
    r == self.toc(),
@end
@impl IntoComplex64 for f64
@sub for f64 =>> for F64
    open spec fn toc(&self) -> Complex64 { cx(self.v@, 0real) }
@fn into_complex
@end
@impl IntoComplex64 for Complex64
    open spec fn toc(&self) -> Complex64 { *self }
@fn into_complex
@end
@impl FromComplex for f32
@sub for f32 =>> for F32
    open spec fn fromc(c: Complex64) -> F32 { F32 { v: c.re.v } }
@fn from_complex
@end
@impl FromComplex for Complex32
    open spec fn fromc(c: Complex64) -> Complex32 { Complex32 { re: F32 { v: c.re.v }, im: F32 { v: c.im.v } } }
@fn from_complex
@end
@impl IntoComplex64 for f32
@sub for f32 =>> for F32
    open spec fn toc(&self) -> Complex64 { cx(self.v@, 0real) }
@fn into_complex
@end
@impl IntoComplex64 for Complex32
    open spec fn toc(&self) -> Complex64 { cx(self.re.v@, self.im.v@) }
@fn into_complex
@end
@raw
pub open spec fn tocv<T: IntoComplex64>(v: Seq<T>) -> Seq<Complex64> {
    Seq::new(v.len(), |i: int| v[i].toc())
}
pub open spec fn fromcv<T: FromComplex>(v: Seq<Complex64>) -> Seq<T> {
    Seq::new(v.len(), |i: int| T::fromc(v[i]))
}
// the conversions are homomorphisms of rings
pub open spec fn toczero<T: Ring + IntoComplex64>() -> bool {
    T::z().toc() == Complex64::z()
}
pub open spec fn fromzero<T: Ring + FromComplex>() -> bool {
    T::fromc(Complex64::z()) == T::z()
}
pub open spec fn tochom<T: Ring + IntoComplex64>() -> bool {
    &&& T::z().toc() == Complex64::z()
    &&& T::o().toc() == Complex64::o()
    &&& forall|x: T, y: T| #[trigger] T::a(x, y).toc() == Complex64::a(x.toc(), y.toc())
    &&& forall|x: T, y: T| #[trigger] T::s(x, y).toc() == Complex64::s(x.toc(), y.toc())
    &&& forall|x: T, y: T| #[trigger] T::m(x, y).toc() == Complex64::m(x.toc(), y.toc())
    &&& forall|x: T| #[trigger] T::n(x).toc() == Complex64::n(x.toc())
}
pub open spec fn fromto<T: Ring + IntoComplex64 + FromComplex>() -> bool {
    &&& T::fromc(Complex64::z()) == T::z()
    &&& forall|x: T| T::fromc(#[trigger] x.toc()) == x
}
pub proof fn th_conv32(x: F32, y: Complex32)
    ensures F32::fromc(x.toc()) == x, Complex32::fromc(y.toc()) == y,
{
    assert(x == F32 { v: Ghost(x.v@) });
    assert(y.re == F32 { v: Ghost(y.re.v@) } && y.im == F32 { v: Ghost(y.im.v@) });
}
pub proof fn th_conv()
    ensures
        tochom::<F64>(), fromto::<F64>(), fromzero::<F64>(), toczero::<F64>(),
        tochom::<Complex64>(), fromto::<Complex64>(), fromzero::<Complex64>(), toczero::<Complex64>(),
{
    assert forall|x: F64, y: F64| #[trigger] F64::m(x, y).toc() == Complex64::m(x.toc(), y.toc()) by {
        let (a, b) = (x.v@, y.v@);
        assert(0real * 0real == 0real) by (nonlinear_arith);
        assert(a * 0real == 0real) by (nonlinear_arith);
        assert(0real * b == 0real) by (nonlinear_arith);
    }
}
@module complexification complexification.rs C02 C12 C13 C14
@type Complexification
@impl ClAlgebraBase for Complexification
    open spec fn ok() -> bool { A::ok() }
    open spec fn sdim() -> usize { A::sdim() }
    open spec fn sreal() -> usize { A::sreal() | A::simag() }
    open spec fn simag() -> usize { 0 }
    open spec fn sproj() -> usize { A::sproj() }
    open spec fn sname(n: int) -> Seq<char> {
        if bit(A::simag(), n as nat) { "(i*"@ + A::sname(n) + ")"@ } else { A::sname(n) }
    }
    proof fn wf() {
        A::wf();
        let (r, i, p) = (A::sreal(), A::simag(), A::sproj());
        assert((r | i) & 0 == 0 && (r | i) & p == (r & p) | (i & p) && 0 & p == 0 && (r | i) | 0 == r | i && 0usize | 0 == 0) by (bit_vector);
    }
@fn dim
@fn real_mask
@fn imag_mask
@fn proj_mask
@fn axis_name
@props C20
@entry
    proof {
        broadcast use ax_plain;
        A::wf(); l_bit_at(A::simag(), n);
        let m = A::simag();
        assert((1usize << n) & m == m & (1usize << n)) by (bit_vector);
    }
@end
@type Even
@raw
pub open spec fn oddnn<A: ClAlgebraBase>() -> bool { odd(nn::<A>() as nat) }
pub proof fn l_nn<A: ClAlgebraBase>()
    requires A::ok(),
    ensures
        nn::<A>() == pc(A::sreal()) + pc(A::simag()), nn::<A>() <= A::sdim(), nn::<A>() <= 63,
        A::sreal() | A::simag() == sub1(1usize << nn::<A>()), nn::<A>() == pc(A::sreal() | A::simag()),
        forall|x: usize| #[trigger] (x | A::sreal()) | A::simag() == x | (A::sreal() | A::simag()),
        A::sproj() == sub1(1usize << A::sdim()) & !sub1(1usize << nn::<A>()),
        1 <= A::sdim() <= 63,
        pc(A::sproj()) == A::sdim() - nn::<A>(),
{
    A::wf();
    let (r, i, p) = (A::sreal(), A::simag(), A::sproj());
    l_cnt_sum(r, i, 64);
    l_pc_zero(64);
    assert(r & i == 0 ==> r ^ i == r | i) by (bit_vector);
    let (k, d) = (nn::<A>(), A::sdim());
    let (a, b) = (sub1(1usize << k), sub1(1usize << d));
    assert(p == b & !a) by (bit_vector) requires r & p == 0, i & p == 0, r | i | p == b, r | i == a;
    assert forall|x: usize| #[trigger] (x | r) | i == x | (r | i) by { assert((x | r) | i == x | (r | i)) by (bit_vector); }
    l_ones(k, 64);
    l_ones(d, 64);
    l_cnt_sum(r | i, p, 64);
    assert((r | i) & p == 0) by (bit_vector) requires r & p == 0, i & p == 0;
    assert((r | i) & p == 0 ==> (r | i) ^ p == r | i | p) by (bit_vector);
}
pub proof fn l_pc_shl(x: usize)
    requires x < 0x8000_0000_0000_0000,
    ensures pc(x << 1usize) == pc(x),
{
    l_cnt_shl(x, 63);
    assert((x >> 63usize) & 1 == 0) by (bit_vector) requires x < 0x8000_0000_0000_0000;
    assert(cnt(x, 64) == cnt(x, 63) + if bit(x, 63) { 1nat } else { 0nat });
}
pub proof fn l_cnt_shl(x: usize, n: nat)
    requires n <= 63,
    ensures cnt(x << 1usize, n + 1) == cnt(x, n),
    decreases n,
{
    let t = n as usize;
    if n > 0 {
        l_cnt_shl(x, (n - 1) as nat);
        assert((((x << 1usize) >> t) & 1) == ((x >> sub(t, 1)) & 1)) by (bit_vector) requires 0 < t <= 63;
        assert(cnt(x << 1usize, n + 1) == cnt(x << 1usize, n) + if bit(x << 1usize, n) { 1nat } else { 0nat });
        assert(((n - 1) as nat) as usize == sub(t, 1));
    } else {
        assert(((x << 1usize) >> 0usize) & 1 == 0) by (bit_vector);
        assert(cnt(x << 1usize, 1) == cnt(x << 1usize, 0) + if bit(x << 1usize, 0) { 1nat } else { 0nat });
    }
}
@impl Even
@fn base_non_null_dim
@requires
    A::ok(),
@ensures
    r == nn::<A>(), r == pc(A::sreal()) + pc(A::simag()), r <= 63,
@entry
    proof { l_nn::<A>(); }
@end
@impl ClAlgebraBase for Even
    open spec fn ok() -> bool { A::ok() && A::sdim() <= 62 }
    open spec fn sdim() -> usize { if oddnn::<A>() { (A::sdim() + 1) as usize } else { A::sdim() } }
    open spec fn sreal() -> usize { if oddnn::<A>() { A::sreal() | (1usize << nn::<A>()) } else { A::sreal() } }
    open spec fn simag() -> usize { A::simag() }
    open spec fn sproj() -> usize { if oddnn::<A>() { A::sproj() << 1usize } else { A::sproj() } }
    open spec fn sname(n: int) -> Seq<char> {
        if !oddnn::<A>() || n < nn::<A>() { A::sname(n) } else if n == nn::<A>() { "?"@ } else { A::sname(n - 1) }
    }
    proof fn wf() {
        l_nn::<A>();
        A::wf();
        let (r, i, p, k, d) = (A::sreal(), A::simag(), A::sproj(), nn::<A>(), A::sdim());
        let (a, b) = (sub1(1usize << k), sub1(1usize << d));
        assert((1usize << k) > 0 && (1usize << d) > 0) by (bit_vector) requires k <= 62, d <= 62;
        if oddnn::<A>() {
            let (h, q) = (1usize << k, p << 1usize);
            let (k1, d1) = (add(k, 1), add(d, 1));
            assert((1usize << k1) > 0 && (1usize << d1) > 0) by (bit_vector) requires k <= 62, d <= 62, k1 == add(k, 1), d1 == add(d, 1);
            assert(r & !a == 0 && i & !a == 0) by (bit_vector) requires r | i == a;
            assert(h & a == 0 && (a | h) == sub(1usize << k1, 1) && q == sub(1usize << d1, 1) & !sub(1usize << k1, 1)
                && (sub(1usize << d1, 1) & !sub(1usize << k1, 1)) | sub(1usize << k1, 1) == sub(1usize << d1, 1)) by (bit_vector)
                requires k <= d, d <= 62, h == 1usize << k, a == sub(1usize << k, 1), q == p << 1usize, p == sub(1usize << d, 1) & !a,
                    k1 == add(k, 1), d1 == add(d, 1);
            let (a1, b1) = (sub(1usize << k1, 1), sub(1usize << d1, 1));
            assert((r | h) & i == 0 && (r | h) & q == 0 && i & q == 0 && (r | h) | i == a1 && ((r | h) | i) | q == b1) by (bit_vector)
                requires r & i == 0, r & !a == 0, i & !a == 0, h & a == 0, (a | h) == a1, q == b1 & !a1, (b1 & !a1) | a1 == b1, r | i == a;
            l_ones(k1, 64);
        }
    }
@fn dim
@entry
    proof { l_nn::<A>(); }
@fn real_mask
@entry
    proof { l_nn::<A>(); }
@fn imag_mask
@fn proj_mask
@entry
    proof { l_nn::<A>(); }
@fn real_dim
@entry
    proof {
        l_nn::<A>();
        let (r, i, k) = (A::sreal(), A::simag(), nn::<A>());
        let h = 1usize << k;
        l_cnt_sum(r, h, 64);
        assert((1usize << k) > 0) by (bit_vector) requires k <= 62;
        assert(r & h == 0 && r ^ h == r | h) by (bit_vector) requires r | i == sub(1usize << k, 1), h == 1usize << k, k <= 62;
        l_pc_zero(64);
        l_inv_one(k, k, 64);
    }
@fn imag_dim
@fn proj_dim
@entry
    proof {
        l_nn::<A>();
        let (p, d) = (A::sproj(), A::sdim());
        let (b, a) = (sub1(1usize << d), sub1(1usize << nn::<A>()));
        assert((1usize << d) > 0) by (bit_vector) requires d <= 62;
        assert(p < 0x8000_0000_0000_0000) by (bit_vector) requires p == b & !a, b == sub(1usize << d, 1), d <= 62;
        l_pc_shl(p);
    }
@fn axis_name
@props C20
@entry
    proof { A::wf(); l_nn::<A>(); }
@end
@raw
// the coefficients of an algebra inside those of its even extension
pub open spec fn unev(k: usize, n: usize) -> usize {
    (k & sub1(1usize << n)) | ((k & !sub1(1usize << n)) << 1usize)
}
pub open spec fn origv<T>(v: Seq<T>, n: usize, size: nat) -> Seq<T> {
    if odd(n as nat) { Seq::new(size, |k: int| v[unev(k as usize, n) as int]) } else { v }
}
pub open spec fn reev(i: usize, n: usize) -> Option<usize> {
    if (i >> n) & 1 == 1 { None } else { Some((i & sub1(1usize << n)) | ((i >> 1usize) & !sub1(1usize << n))) }
}
// the renumbering is the one the masks give, and undoes unev
pub open spec fn reevs(n: usize, d: usize, a: usize, p: usize) -> bool {
    forall|i: usize| i < (1usize << ((d + 1) as usize)) ==> (#[trigger] reev(i, n)) == if i & !((p << 1usize) | a) != 0 { None } else { Some(((i & (p << 1usize)) >> 1usize) | (i & a)) }
}
pub proof fn l_reev(n: usize, d: usize)
    requires n <= d <= 62,
    ensures
        reevs(n, d, sub1(1usize << n), sub1(1usize << d) & !sub1(1usize << n)),
        forall|i: usize| i < (1usize << ((d + 1) as usize)) && (#[trigger] reev(i, n)) is Some ==> reev(i, n)->0 < (1usize << d) && unev(reev(i, n)->0, n) == i,
        forall|k: usize| k < (1usize << d) ==> (#[trigger] unev(k, n)) < (1usize << ((d + 1) as usize)) && reev(unev(k, n), n) == Some(k),
{
    let e = (d + 1) as usize;
    let a = sub1(1usize << n);
    let b = sub1(1usize << d);
    let p = b & !a;
    assert((1usize << n) > 0 && (1usize << d) > 0) by (bit_vector) requires n <= 62, d <= 62;
    assert forall|i: usize| i < (1usize << e) implies (#[trigger] reev(i, n)) == if i & !((p << 1usize) | a) != 0 { None } else { Some(((i & (p << 1usize)) >> 1usize) | (i & a)) } by {
        assert((i & !((p << 1usize) | a) != 0) == ((i >> n) & 1 == 1)) by (bit_vector)
            requires i < (1usize << e), e == add(d, 1), n <= d, d <= 62, a == sub(1usize << n, 1), p == sub(1usize << d, 1) & !a;
        assert((i >> n) & 1 != 1 ==> ((i & (p << 1usize)) >> 1usize) | (i & a) == (i & a) | ((i >> 1usize) & !a)) by (bit_vector)
            requires i < (1usize << e), e == add(d, 1), n <= d, d <= 62, a == sub(1usize << n, 1), p == sub(1usize << d, 1) & !a;
    }
    assert forall|i: usize| i < (1usize << e) && (#[trigger] reev(i, n)) is Some implies reev(i, n)->0 < (1usize << d) && unev(reev(i, n)->0, n) == i by {
        let k = (i & a) | ((i >> 1usize) & !a);
        assert(k < (1usize << d) && (k & a) | ((k & !a) << 1usize) == i) by (bit_vector)
            requires i < (1usize << e), e == add(d, 1), n <= d, d <= 62, a == sub(1usize << n, 1), k == (i & a) | ((i >> 1usize) & !a), (i >> n) & 1 != 1;
    }
    assert forall|k: usize| k < (1usize << d) implies (#[trigger] unev(k, n)) < (1usize << e) && reev(unev(k, n), n) == Some(k) by {
        let i = (k & a) | ((k & !a) << 1usize);
        assert(i < (1usize << e) && (i >> n) & 1 != 1 && (i & a) | ((i >> 1usize) & !a) == k) by (bit_vector)
            requires k < (1usize << d), e == add(d, 1), n <= d, d <= 62, a == sub(1usize << n, 1), i == (k & a) | ((k & !a) << 1usize);
    }
}
@impl MultivectorBase
@fn complexified_iter
@index
@requires
    self.wf(),
@ensures
    r.pos() == 0, mapped2(r, self.v(), tw(tocv(self.v()), A::simag(), false)),
@entry
    proof { l_ctwo(); Complex64::ops(); }
@closure 0
|p: (usize, &T)| -> (q: (usize, Complex64))
  requires A::ok(), comm::<Complex64>(), I_POWERS@[0] == ip(0), I_POWERS@[1] == ip(-1), I_POWERS@[2] == ip(-2), I_POWERS@[3] == ip(-3),
  ensures q.0 == p.0, q.1 == Complex64::m(p.1.toc(), ips(false, pc(p.0 & A::simag()) as int)),
@fn complexify
@requires
    self.wf(), OutStorage::dim_ok(A::sdim()), toczero::<T>(),
@ensures
    r.wf(), r.v() == tw(tocv(self.v()), A::simag(), false),
@entry
    proof {
        l_alg::<A>();
        let w = tw(tocv(self.v()), A::simag(), false);
        assert forall|i: int| 0 <= i < self.v().len() && #[trigger] self.v()[i] == T::z() implies w[i] == Complex64::z() by {
            r_mul_zero(ips(false, pc(i as usize & A::simag()) as int));
        }
        l_mapped2(self.v(), w, N::<A>() as nat);
    }
@end
@impl MultivectorBase#1
@fn decomplexify
@index
@requires
    self.wf(), OutStorage::dim_ok(A::sdim()), fromzero::<T>(),
@ensures
    r.wf(), r.v() == fromcv::<T>(tw(self.v(), A::simag(), true)),
@entry
    proof {
        l_ctwo();
        Complex64::ops();
        l_alg::<A>();
        let w = fromcv::<T>(tw(self.v(), A::simag(), true));
        assert forall|i: int| 0 <= i < self.v().len() && #[trigger] self.v()[i] == Complex64::z() implies w[i] == T::z() by {
            r_mul_zero(ips(true, pc(i as usize & A::simag()) as int));
        }
        l_mapped2(self.v(), w, N::<A>() as nat);
    }
@closure 0
|p: (usize, &Complex64)| -> (q: (usize, T))
  requires A::ok(), comm::<Complex64>(), I_REV_POWERS@[0] == ip(0), I_REV_POWERS@[1] == ip(1), I_REV_POWERS@[2] == ip(2), I_REV_POWERS@[3] == ip(3),
  ensures q.0 == p.0, q.1 == T::fromc(Complex64::m(*p.1, ips(true, pc(p.0 & A::simag()) as int))),
@end
@impl MultivectorBase#2
@fn into_original
@requires
    self.wf(), Storage::dim_ok(A::sdim()),
@ensures
    r.wf(), r.v() == origv(self.v(), nn::<A>(), N::<A>() as nat),
@entry
    proof {
        l_alg::<A>();
        l_nn::<A>();
        let (n, d) = (nn::<A>(), A::sdim());
        l_reev(n, d);
        if oddnn::<A>() {
            let g = |i: usize| reev(i, n);
            let h = |k: usize| unev(k, n);
            l_renumbered(self.v(), origv(self.v(), n, N::<A>() as nat), g, h);
        }
    }
@hook let effective_full_mask 0
    let ghost g = |i: usize| reev(i, nn::<A>());
@closure 0
|p: (usize, &T)| -> (q: Option<(usize, T)>)
  requires A::ok(), p.0 < N::<Even<A>>(), oddnn::<A>(), effective_proj_mask == A::sproj() << 1usize, effective_full_mask == (A::sproj() << 1usize) | (A::sreal() | A::simag()),
    reevs(nn::<A>(), A::sdim(), A::sreal() | A::simag(), A::sproj()),
  ensures q is Some == reev(p.0, nn::<A>()) is Some, q is Some ==> (q->0).0 == reev(p.0, nn::<A>())->0 && (q->0).1 == *p.1,
@end
