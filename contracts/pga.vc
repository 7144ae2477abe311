@@ projective geometric algebra: src/pga.rs
@module pga pga.rs C18
@raw
// what PGAlgebra<s> promises (see m_impl_pga in declare.vc)
pub open spec fn pgok<A: ClAlgebra>(s: usize) -> bool {
    A::ok() && s <= 62 && A::sdim() == s + 1 && A::simag() == 0 && A::sproj() == (1usize << s)
}
pub proof fn l_sqsum(it: Seq<F64>, c: Seq<F64>)
    requires it.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] it[i] == F64::m(c[i], c[i])
    ensures sumall(it) == sqsum(c)
{
    sum_eq(|i: int| it[i], |i: int| F64::m(c[i], c[i]), c.len());
}
pub proof fn l_mpairs(it: Seq<(usize, F64)>, c: Seq<F64>, s: usize)
    requires
        it.len() == c.len(), c.len() == s, s <= 62,
        forall|i: int| 0 <= i < c.len() ==> (#[trigger] it[i]).0 == pge(i, s) && it[i].1 == dv(c[i], fl(2real)),
    ensures
        it == mpairs(c, s), inrange(it, (1usize << ((s + 1) as usize)) as nat),
{
    assert(it =~= mpairs(c, s));
    assert forall|j: int| 0 <= j < it.len() implies (#[trigger] it[j]).0 < (1usize << ((s + 1) as usize)) as nat by { l_pge(j as usize, s); }
}
@raw C18
// a point's coordinates are read back
pub proof fn th_pga_extract<A: ClAlgebra, S: CoeffStorage<F64>>(p: MultivectorBase<F64, A, S>, c: Seq<F64>, s: usize, j: int)
    requires pgok::<A>(s), c.len() == s, p.v() == pointv(c, N::<A>() as nat), 0 <= j < s
    ensures xcoord(p.v(), s, j) == c[j]
{
    th_extract(c, s, N::<A>() as nat, j);
}
// a plane's wedge with a point vanishes exactly for the points that satisfy the plane's equation
pub proof fn th_pga_incidence<A: ClAlgebra, S: CoeffStorage<F64>>(h: MultivectorBase<F64, A, S>, p: MultivectorBase<F64, A, S>, ec: Seq<F64>, c: Seq<F64>, s: usize)
    requires
        pgok::<A>(s), c.len() == s, ec.len() == s + 1,
        exists|i: int| 0 <= i < ec.len() && #[trigger] ec[i] != F64::z(),
        p.v() == pointv(c, N::<A>() as nat), h.v() == planev(ec, N::<A>() as nat),
    ensures
        magn(ec).v@ > 0real, h.v() == divv(vecv(ec, ec.len() as int, N::<A>() as nat), magn(ec)),
        wprod(h.v(), p.v()) == zeros::<F64>(N::<A>() as nat) <==> incid(ec, c) == F64::z(),
{
    th_incidence(ec, c, s, N::<A>() as nat);
}
// a translation motor's sandwich moves the point by the motor's direction
pub proof fn th_pga_translate<A: ClAlgebra, S: CoeffStorage<F64>>(m: MultivectorBase<F64, A, S>, p: MultivectorBase<F64, A, S>, v: Seq<F64>, c: Seq<F64>, s: usize, j: int)
    requires
        pgok::<A>(s), c.len() == s, v.len() == s, 0 <= j < s,
        p.v() == pointv(c, N::<A>() as nat), m.v() == motv(v, s, N::<A>() as nat),
    ensures
        xcoord(prod(prod(revv(m.v()), p.v(), A::simag(), A::sproj()), m.v(), A::simag(), A::sproj()), s, j) == F64::a(c[j], v[j]),
{
    th_translate(c, v, s, N::<A>() as nat, j);
}
@end
@impl PGAMV for MultivectorBase
@sub , const SPC_DIM: usize> PGAMV<SPC_DIM> for MultivectorBase =>> > MultivectorBase
@sub + PGAlgebra<SPC_DIM> =>>
@sub f64 =>> F64
@fn pga_point
@props C18
@requires
    Self::cfg(), coords.pos() == 0,
@ensures
    r is Ok == (coords.all().len() + 1 == A::sdim()),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == pointv(coords.all(), N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@sub .iter() =>> .v_iter()
@sub from_vector(coords) =>> from_vector(coords.v_into_iter())
@opcalls
@closure 0
|p: &F64| -> (q: F64)
  ensures q == F64::m(*p, *p),
@entry
    let ghost h = hom(coords.all());
    proof {
        l_alg::<A>();
        assert forall|w: Seq<F64>| w.len() == h.len() && (forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i] == F64::m(h[i], h[i]))
            implies #[trigger] sumall(w) == sqsum(h) by { l_sqsum(w, h); }
    }
@fn pga_hyperplane
@props C18
@requires
    Self::cfg(), equation_coeffs.pos() == 0,
@ensures
    r is Ok == (equation_coeffs.all().len() == A::sdim()),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == planev(equation_coeffs.all(), N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@sub .iter() =>> .v_iter()
@sub from_vector(ec) =>> from_vector(ec.v_into_iter())
@opcalls
@closure 0
|p: &F64| -> (q: F64)
  ensures q == F64::m(*p, *p),
@entry
    let ghost h = equation_coeffs.all();
    proof {
        assert forall|w: Seq<F64>| w.len() == h.len() && (forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i] == F64::m(h[i], h[i]))
            implies #[trigger] sumall(w) == sqsum(h) by { l_sqsum(w, h); }
    }
@fn pga_translation
@props C18
@sub fn pga_translation( =>> fn pga_translation<const SPC_DIM: usize>(
@requires
    Self::cfg(), pgok::<A>(SPC_DIM), direction.pos() == 0,
@ensures
    r is Ok == (direction.all().len() == SPC_DIM),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == motv(direction.all(), SPC_DIM, N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@sub .into_iter().enumerate() =>> .v_into_iter().enumerate()
@closure 0
|p: (usize, F64)| -> (q: (usize, F64))
  requires p.0 < 64,
  ensures q.0 == (e_idx | (1usize << p.0)), q.1 == dv(p.1, fl(2real)),
@entry
    let ghost h = direction.all();
    proof {
        l_alg::<A>();
        assert forall|w: Seq<(usize, F64)>| h.len() == SPC_DIM && w.len() == h.len() && (forall|i: int| #![trigger w[i]] 0 <= i < w.len() ==> w[i].0 == pge(i, SPC_DIM) && w[i].1 == dv(h[i], fl(2real)))
            implies #[trigger] inrange(w, N::<A>() as nat) && w == mpairs(h, SPC_DIM) by { l_mpairs(w, h, SPC_DIM); }
    }
@fn pga_extract_point
@props C18
@sub fn pga_extract_point( =>> fn pga_extract_point<const SPC_DIM: usize>(
@requires
    self.wf(), pgok::<A>(SPC_DIM),
@ensures
    forall|j: int| 0 <= j < SPC_DIM ==> #[trigger] r@[j] == xcoord(self.v(), SPC_DIM, j),
@closure 0
|p: usize| -> (q: F64)
  requires p < SPC_DIM, SPC_DIM <= 62,
  ensures q == dv(if (1usize << p) < sd.v().len() { sd.v()[(1usize << p) as int] } else { F64::z() }, scale),
@entry
    proof { l_alg::<A>(); l_shl_lt(); }
