@@ dense multivectors: src/mv_dense.rs
@module dense mv_dense.rs C04 C05
@type Multivector
@impl Multivector
@fn basis
@props C10
@sub A::basis::<T>() =>> basis::<A, DIM, T>()
@requires
    A::ok(), DIM == A::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> (#[trigger] r@[i]).wf() && r@[i].v() == blade(N::<A>() as nat, (1usize << (i as usize)) as int, T::o()),
@fn to_sparse
@props C07
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == self.v(),
@fn coeff_array_view
@props C04 C05 C12 C13 C14
@ensures
    r.v() == self.v(),
@fn fft
@props C12 C13 C14
@requires
    self.wf(), A::sdim() <= 62, toczero::<T>(),
@ensures
    reps(r, tw(tocv(self.v()), A::simag(), false)),
@entry
    let ghost c = tw(tocv(self.v()), A::simag(), false);
    let ghost k = nn::<A>();
    proof { l_fshape::<A>(); l_alg::<A>(); l_p2(k as nat); }
@loop 0
@inv
    complexified_coeffs_view.v() == c, c.len() == N::<A>(), A::ok(), A::sdim() <= 62, k == nn::<A>(), step == p2(k as nat), wcount == wn::<A>(), c.len() == wcount * step, dimlen(c.len(), A::sdim()), k <= A::sdim(),
    ret.np() == wn::<A>(), ret.nr() == ms::<A>(), ret.nc() == ms::<A>(),
    forall|w: int, a: int, b: int| vin3(w, a, b, i as nat, ms::<A>(), ms::<A>()) ==> #[trigger] ret.g(w, a, b) == rp(c, k, w, a, b),
@begin
    proof {
        l_plane(c, k, A::sdim(), i as int);
        l_upl(p2(k as nat), k);
        l_lgn(p2(k as nat), k);
        assert((i + 1) * step == i * step + step) by (nonlinear_arith);
    }
@exit
    assert(reps(r, c));
@fn real_fft
@props C12
@requires
    self.wf(), nn::<A>() % 2 == 0, A::sdim() == nn::<A>(),
@ensures
    r.nr() == p2((A::sdim() / 2) as nat), r.nc() == r.nr(),
    forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == cl(self.v(), (A::sdim() / 2) as nat, i, j),
@entry
    proof { l_alg::<A>(); l_lgn(self.v().len(), A::sdim()); }
@fn filter
@props C09
@requires
    self.wf(),
    forall|i: usize, x: &T| call_requires(f, (i, x)),
@ensures
    r.wf(),
    forall|i: int| #![trigger r.v()[i]] 0 <= i < self.v().len() ==>
        (r.v()[i] == T::z() && (self.v()[i] == T::z() || call_ensures(f, (i as usize, &self.v()[i]), false)))
        || (r.v()[i] == self.v()[i] && call_ensures(f, (i as usize, &self.v()[i]), true)),
@entry
    proof { l_alg::<A>(); l_filtered(self.v()); }
@closure 0
|p: &(usize, &T)| -> (b: bool)
  requires call_requires(f, (p.0, p.1)),
  ensures call_ensures(f, (p.0, p.1), b),
@end
@impl WedgeProduct for Multivector
@sub WedgeProduct for Multivector =>> Multivector
@fn wedge
@props C04
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == wprod(self.v(), rhs.v()),
@entry
    proof { l_alg::<A>(); }
@fn meet
@props C05
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == meetv(self.v(), rhs.v()),
@entry
    proof { l_alg::<A>(); }
@end
@fn wedge_impl
@requires
    ispow(a.v().len()), b.v().len() == a.v().len(), dest.v().len() == a.v().len(),
@ensures
    a.fin() == a.v(),
    dest.fin() == wprod(a.v(), b.v()),
@decreases
    a.v().len()
@index
@entry
    let ghost av = a.v();
    let ghost bv = b.v();
    proof {
        if av.len() != 1 { l_pow_half(av.len()); th_wedge_split(av, bv, lgn(av.len())); }
        else { l_wprod_one(av, bv); }
    }
@loop 0
@inv
    it0.all().len() == lo(av).len(),
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < it0.all().len() ==> it0.all()[j].0 == j && *it0.all()[j].1 == lo(av)[j],
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < it0.pos() ==> *final(it0.all()[j].1) == flipv(lo(av), allnull())[j],
@begin
    proof { l_and_all(idx); l_par(); }
@after
    proof { assert(a0.v() =~= flipv(lo(av), allnull())); }
@loop 1
@before
    let ghost d1 = dest1.v();
    proof { assert(hi(dest.fin()) =~= dest1.fin()); assert(it1.all().len() == lo(av).len()); }
@inv
    it1.all().len() == lo(av).len(), lo(av).len() == hi(av).len(), d1.len() == lo(av).len(),
    a.fin() == a0.fin() + a1.fin(), hi(dest.fin()) == dest1.fin(),
    a0.v().len() == lo(av).len(), dest1.v().len() == lo(av).len(),
    forall|j: int| #![trigger it1.all()[j]] 0 <= j < it1.all().len() ==> it1.all()[j].0 == j && *it1.all()[j].1 == tmp.v()[j],
    forall|j: int| #![trigger a0.v()[j]] 0 <= j < lo(av).len() ==> a0.v()[j] == if j < it1.pos() { lo(av)[j] } else { flipv(lo(av), allnull())[j] },
    forall|j: int| #![trigger dest1.v()[j]] 0 <= j < lo(av).len() ==> dest1.v()[j] == if j < it1.pos() { T::a(d1[j], tmp.v()[j]) } else { d1[j] },
@begin
    proof { l_and_all(idx); l_par(); r_neg(lo(av)[idx as int]); }
@after
    proof {
        assert(a0.v() =~= lo(av));
        assert(dest1.v() =~= vadd(d1, wprod(flipv(lo(av), allnull()), hi(bv))));
    }
@end
