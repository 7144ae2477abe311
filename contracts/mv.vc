@@ multivectors: src/lib.rs
@module mv lib.rs C03 C04 C05 C06 C07 C08 C09 C10 C11 C16
@type ClError
#[derive(Debug)]
@type MultivectorBase
@raw
impl<T: Ring, A: ClAlgebra, Storage: CoeffStorage<T>> MultivectorBase<T, A, Storage> {
    // the algebra is one declare_algebra! can produce and the storage accepts its dimension
    pub open spec fn cfg() -> bool { A::ok() && Storage::dim_ok(A::sdim()) }
    pub open spec fn v(&self) -> Seq<T> { self.coeffs.v() }
    pub open spec fn wf(&self) -> bool { Self::cfg() && self.coeffs.wf() && self.coeffs.v().len() == N::<A>() }
}
pub proof fn l_alg<A: ClAlgebra>()
    requires A::ok()
    ensures 1 <= A::sdim() <= 63, dimlen(N::<A>() as nat, A::sdim()), N::<A>() >= 1
{
    A::wf();
    let d = A::sdim();
    assert((1usize << d) >= 1) by (bit_vector) requires d <= 63;
}
@raw
// the norm of the difference of one coefficient
pub open spec fn nrmd<T: Norm>(x: Seq<T>, y: Seq<T>, i: int) -> real { T::s(x[i], y[i]).nrm() }
@impl Default for MultivectorBase
@sub Default for MultivectorBase =>> MultivectorBase
@fn default
@addprops C17 C18
@requires
    Self::cfg(),
@ensures
    r.wf(), r.v() == zeros::<T>(N::<A>() as nat),
@entry
    proof { l_alg::<A>(); }
@end
@impl Zero for MultivectorBase
@sub Zero for MultivectorBase =>> MultivectorBase
@fn zero
@addprops C17 C18
@requires
    Self::cfg(),
@ensures
    r.wf(), r.v() == zeros::<T>(N::<A>() as nat),
@fn is_zero
@props C08
@requires
    self.wf(),
@ensures
    r == (self.v() == zeros::<T>(N::<A>() as nat)),
@closure 0
|p: (usize, &T)| -> (b: bool)
  ensures b == (*p.1 == T::z()),
@exit
    proof { if r { assert(self.v() =~= zeros::<T>(N::<A>() as nat)); } }
@end
@impl One for MultivectorBase
@sub One for MultivectorBase =>> MultivectorBase
@fn one
@props C03 C10 C16
@requires
    Self::cfg(),
@ensures
    r.wf(), r.v() == onev::<T>(N::<A>() as nat),
@end
@impl Clone for MultivectorBase
@sub Clone for MultivectorBase =>> MultivectorBase
@fn clone
@props C04 C07 C16
@sub fn clone =>> fn v_clone
@ensures
    r.coeffs == self.coeffs,
@end
@impl PartialEq for MultivectorBase
@sub T: Ring, =>> T: Ring + Clone,
    open spec fn eq_req(&self, o: &Self) -> bool { self.wf() && o.wf() }
    open spec fn eqs(&self, o: &Self) -> bool { self.v() == o.v() }
@fn eq
@props C07
@sub self.coeffs == other.coeffs =>> self.coeffs.eq(&other.coeffs)
@entry
    proof { self.coeffs.eq_law(&other.coeffs); }
@end
@impl MultivectorBase
@fn from_scalar
@props C10 C03 C16
@requires
    Self::cfg(),
@ensures
    r.wf(), r.v() == zeros::<T>(N::<A>() as nat).update(0, scalar),
@entry
    proof { l_alg::<A>(); }
@fn from_vector
@props C10 C18
@requires
    Self::cfg(), vec_coeffs.pos() == 0,
@ensures
    r is Ok == (vec_coeffs.all().len() == A::sdim()),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == vecv(vec_coeffs.all(), vec_coeffs.all().len() as int, N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@loop 0
@inv
    Self::cfg(), A::sdim() <= 63, ret.wf(), n == it0.pos(), n <= A::sdim(), it0.all() == vec_coeffs.all(),
    ret.v() == vecv(it0.all(), n as int, N::<A>() as nat),
@begin
    proof { let d = A::sdim(); if n < d { assert((1usize << n) < (1usize << d)) by (bit_vector) requires n < d, d <= 63; } }
@entry
    proof { l_alg::<A>(); }
@fn from_vector_ref
@props C10
@requires
    Self::cfg(), vec_coeffs.pos() == 0,
@ensures
    r is Ok == (vec_coeffs.all().len() == A::sdim()),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == vecv(drf(vec_coeffs.all()), vec_coeffs.all().len() as int, N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::InvalidShape,
@entry
    proof {
        assert forall|it: CIter<T>| it.all().len() == vec_coeffs.all().len() && (forall|j: int| #![trigger it.all()[j]] 0 <= j < it.all().len() ==> it.all()[j] == *vec_coeffs.all()[j])
            implies #[trigger] vecv(it.all(), it.all().len() as int, N::<A>() as nat) == vecv(drf(vec_coeffs.all()), vec_coeffs.all().len() as int, N::<A>() as nat) by {
            assert(it.all() =~= drf(vec_coeffs.all()));
        }
    }
@fn from_indexed_iter
@props C10 C06 C08 C09 C11 C18
@requires
    Self::cfg(), iter.pos() == 0,
@ensures
    r is Ok == inrange(iter.all(), N::<A>() as nat),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == place(iter.all(), iter.all().len() as int, N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::IndexOutOfBounds,
@entry
    proof { l_alg::<A>(); }
@hook return 0
    proof { assert(!inrange(iter.all(), N::<A>() as nat)) by { let j = it0.pos() - 1; assert(it0.all()[j].0 >= N::<A>()); } }
@loop 0
@inv
    Self::cfg(), A::sdim() <= 63, ret.wf(), it0.all() == iter.all(),
    forall|j: int| 0 <= j < it0.pos() ==> (#[trigger] it0.all()[j]).0 < N::<A>(),
    ret.v() == place(it0.all(), it0.pos(), N::<A>() as nat),
@fn from_indexed_iter_ref
@props C10 C09
@requires
    Self::cfg(), iter.pos() == 0,
@ensures
    r is Ok == inrange(iter.all(), N::<A>() as nat),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.v() == place(pdrf(iter.all()), iter.all().len() as int, N::<A>() as nat),
    r is Err ==> r->Err_0 == ClError::IndexOutOfBounds,
@entry
    proof {
        assert forall|it: CIter<(usize, T)>| it.all().len() == iter.all().len() && (forall|j: int| #![trigger it.all()[j]] 0 <= j < it.all().len() ==> it.all()[j].0 == iter.all()[j].0 && it.all()[j].1 == *iter.all()[j].1)
            implies #[trigger] inrange(it.all(), N::<A>() as nat) == inrange(iter.all(), N::<A>() as nat)
            && it.all() == pdrf(iter.all()) by {
            assert(it.all() =~= pdrf(iter.all()));
            if inrange(it.all(), N::<A>() as nat) {
                assert forall|j: int| 0 <= j < iter.all().len() implies (#[trigger] iter.all()[j]).0 < N::<A>() by { assert(it.all()[j].0 < N::<A>()); }
            }
            if inrange(iter.all(), N::<A>() as nat) {
                assert forall|j: int| 0 <= j < it.all().len() implies (#[trigger] it.all()[j]).0 < N::<A>() by { assert(iter.all()[j].0 < N::<A>()); }
            }
        }
    }
@closure 0
|p: (usize, &'a T)| -> (q: (usize, T))
  ensures q.0 == p.0, q.1 == *p.1,
@fn coeff_enumerate
@requires
    self.wf(),
@ensures
    r.pos() == 0, enums(r.all(), self.v()),
@fn grade_enumerate
@props C09
@requires
    self.wf(),
@ensures
    r.pos() == 0, genums(r.all(), self.v(), grade as nat),
@fn grade_extract
@props C09
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == gpart(self.v(), grade as nat),
@fn extract_vector
@props C10 C18
@index
@requires
    self.wf(),
@ensures
    r.v().len() == A::sdim(),
    forall|i: int| 0 <= i < A::sdim() ==> #[trigger] r.v()[i] == self.v()[(1usize << (i as usize)) as int],
@entry
    proof { l_alg::<A>(); }
@loop 0
@inv
    self.wf(), A::sdim() <= 63, ret.v().len() == A::sdim(),
    forall|j: int| 0 <= j < i ==> #[trigger] ret.v()[j] == self.v()[(1usize << (j as usize)) as int],
@begin
    proof { let d = A::sdim(); assert((1usize << i) < (1usize << d)) by (bit_vector) requires i < d, d <= 63; }
@fn grade_extract_as
@props C09
@sub grade.into() =>> grade
@requires
    self.wf(), OutStorageType::dim_ok(A::sdim()),
@ensures
    r.wf(), r.v() == gpart(self.v(), grade as nat),
@loop 0
@inv
    self.wf(), ret.wf(), genums(it0.all(), self.v(), grade as nat),
    ret.v() == msk(it0.all(), it0.pos(), gpart(self.v(), grade as nat)),
@before
    proof { l_msk_start(it0.all(), gpart(self.v(), grade as nat)); }
@begin
    proof { l_mstep(it0.all(), it0.pos() - 1, gpart(self.v(), grade as nat)); }
@after
    proof { l_gend(it0.all(), self.v(), grade as nat); }
@fn to_storage_type
@props C07
@requires
    self.wf(), OutS::dim_ok(A::sdim()),
@ensures
    r.wf(), r.v() == self.v(),
@loop 0
@inv
    self.wf(), ret.wf(), enums(it0.all(), self.v()),
    ret.v() == msk(it0.all(), it0.pos(), self.v()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof {
        l_msk_step(it0.all(), it0.pos() - 1, self.v());
        if *c == T::z() { assert(msk(it0.all(), it0.pos(), self.v()) =~= msk(it0.all(), it0.pos() - 1, self.v())); }
    }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@fn add_impl
@props C08
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == vadd(self.v(), rhs.v()),
@fn sub_impl
@props C08
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == vsub(self.v(), rhs.v()),
@fn neg_impl
@props C08
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == vneg(self.v()),
@entry
    proof { r_neg(T::z()); l_mapped(self.v(), vneg(self.v()), N::<A>() as nat); }
@closure 0
|p: (usize, &T)| -> (q: (usize, T))
  ensures q.0 == p.0, q.1 == T::n(*p.1),
@fn naive_wedge_impl
@props C04
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == wprod(self.v(), rhs.v()),
@entry
    proof { l_alg::<A>(); T::ops(); l_prod_zero(N::<A>() as nat, rhs.v(), 0, allnull()); }
@loop 0
@inv
    self.wf(), rhs.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it0.all(), self.v()),
    ret.v() == wprod(msk(it0.all(), it0.pos(), self.v()), rhs.v()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    let ghost base = ret.v();
    let ghost am = msk(it0.all(), it0.pos() - 1, self.v());
    proof { l_msk_step(it0.all(), it0.pos() - 1, self.v()); l_inner_start(base, self_idx as int, *self_c, N::<A>() as nat, A::sdim(), 0, allnull()); }
@endbody
    proof { l_inner_end(ret.v(), am, rhs.v(), self_idx as int, *self_c, 0, allnull()); }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@loop 1
@inv
    self.wf(), rhs.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it1.all(), rhs.v()), self_idx < N::<A>(),
    inner_ok(ret.v(), base, self_idx as int, *self_c, msk(it1.all(), it1.pos(), rhs.v()), 0, allnull()),
@before
    proof { l_msk_start(it1.all(), rhs.v()); }
@begin
    let ghost r0 = ret.v();
    let ghost bm = msk(it1.all(), it1.pos() - 1, rhs.v());
    proof { T::ops(); l_msk_step(it1.all(), it1.pos() - 1, rhs.v()); l_xr(self_idx as int, rhs_idx as int, N::<A>() as nat, A::sdim()); l_wedges(self_idx, rhs_idx); }
@endbody
    proof { l_inner_step(r0, ret.v(), base, self_idx as int, *self_c, bm, rhs_idx as int, *rhs_c, A::sdim(), 0, allnull()); }
@after
    proof { l_msk_end(it1.all(), rhs.v()); }
@fn naive_mul_impl
@props C03
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == prod(self.v(), rhs.v(), A::simag(), A::sproj()),
@entry
    proof { l_alg::<A>(); T::ops(); l_prod_zero(N::<A>() as nat, rhs.v(), A::simag(), A::sproj()); }
@loop 0
@inv
    self.wf(), rhs.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it0.all(), self.v()),
    ret.v() == prod(msk(it0.all(), it0.pos(), self.v()), rhs.v(), A::simag(), A::sproj()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    let ghost base = ret.v();
    let ghost am = msk(it0.all(), it0.pos() - 1, self.v());
    proof { l_msk_step(it0.all(), it0.pos() - 1, self.v()); l_inner_start(base, self_idx as int, *self_c, N::<A>() as nat, A::sdim(), A::simag(), A::sproj()); }
@endbody
    proof { l_inner_end(ret.v(), am, rhs.v(), self_idx as int, *self_c, A::simag(), A::sproj()); }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@loop 1
@inv
    self.wf(), rhs.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it1.all(), rhs.v()), self_idx < N::<A>(),
    inner_ok(ret.v(), base, self_idx as int, *self_c, msk(it1.all(), it1.pos(), rhs.v()), A::simag(), A::sproj()),
@before
    proof { l_msk_start(it1.all(), rhs.v()); }
@begin
    let ghost r0 = ret.v();
    let ghost bm = msk(it1.all(), it1.pos() - 1, rhs.v());
    proof { T::ops(); l_msk_step(it1.all(), it1.pos() - 1, rhs.v()); l_xr(self_idx as int, rhs_idx as int, N::<A>() as nat, A::sdim()); }
@endbody
    proof { l_inner_step(r0, ret.v(), base, self_idx as int, *self_c, bm, rhs_idx as int, *rhs_c, A::sdim(), A::simag(), A::sproj()); }
@after
    proof { l_msk_end(it1.all(), rhs.v()); }
@fn set_by_idx
@addprops C17 C18
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == if idx < self.v().len() { self.v().update(idx as int, value) } else { self.v() },
@fn get_by_idx
@addprops C17 C18
@requires
    self.wf(),
@ensures
    r == if idx < self.v().len() { self.v()[idx as int] } else { T::z() },
@fn scalar_part
@props C11 C07
@requires
    self.wf(),
@ensures
    r == self.v()[0],
@entry
    proof { l_alg::<A>(); }
@fn flip
@props C06 C17
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == flipv(self.v(), allnull()),
@loop 0
@inv
    self.wf(), ret.wf(), enums(it0.all(), self.v()),
    ret.v() == msk(it0.all(), it0.pos(), flipv(self.v(), allnull())),
@before
    proof { l_msk_start(it0.all(), flipv(self.v(), allnull())); }
@begin
    proof { l_mstep(it0.all(), it0.pos() - 1, flipv(self.v(), allnull())); l_and_all(idx); }
@after
    proof { r_neg(T::z()); l_mend(it0.all(), self.v(), flipv(self.v(), allnull())); }
@fn flip_subspace
@props C06
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == flipv(self.v(), mask),
@loop 0
@inv
    self.wf(), ret.wf(), enums(it0.all(), self.v()),
    ret.v() == msk(it0.all(), it0.pos(), flipv(self.v(), mask)),
@before
    proof { l_msk_start(it0.all(), flipv(self.v(), mask)); }
@begin
    proof { l_mstep(it0.all(), it0.pos() - 1, flipv(self.v(), mask)); }
@after
    proof { r_neg(T::z()); l_mend(it0.all(), self.v(), flipv(self.v(), mask)); }
@fn rev_c
@props C06 C11 C17
@ensures
    r == sg(revs(idx), *coeff),
@fn rev
@props C06 C11 C17
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == revv(self.v()),
@loop 0
@inv
    self.wf(), ret.wf(), enums(it0.all(), self.v()),
    ret.v() == msk(it0.all(), it0.pos(), revv(self.v())),
@before
    proof { l_msk_start(it0.all(), revv(self.v())); }
@begin
    proof { l_mstep(it0.all(), it0.pos() - 1, revv(self.v())); }
@after
    proof { r_neg(T::z()); l_mend(it0.all(), self.v(), revv(self.v())); }
@fn naive_meet_impl
@props C05
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == meetv(self.v(), rhs.v()),
@entry
    proof { l_alg::<A>(); A::wf(); T::ops(); l_prod_zero(N::<A>() as nat, dualv(rhs.v()), 0, allnull()); l_dual_zero::<T>(N::<A>() as nat, A::sdim()); }
@hook let mask 0
    proof {
        let (x, y, w) = (A::sreal(), A::simag(), A::sproj());
        assert(w | y | x == x | y | w && x | y | w == (x | y) | w) by (bit_vector);
    }
@loop 0
@inv
    self.wf(), rhs.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it0.all(), self.v()), mask == N::<A>() - 1,
    dualv(ret.v()) == wprod(dualv(msk(it0.all(), it0.pos(), self.v())), dualv(rhs.v())),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    let ghost base = dualv(ret.v());
    let ghost am = msk(it0.all(), it0.pos() - 1, self.v());
    let ghost ci = cpl(self_idx as int, N::<A>() as nat);
    let ghost sx = sg(wedges(ci as usize, self_idx), *self_c);
    proof {
        l_msk_step(it0.all(), it0.pos() - 1, self.v());
        l_cpl(self_idx as int, N::<A>() as nat, A::sdim());
        l_inner_start(base, ci, sx, N::<A>() as nat, A::sdim(), 0, allnull());
        l_dual_zero::<T>(N::<A>() as nat, A::sdim());
        l_dual_upd(am, self_idx as int, *self_c, A::sdim());
        sg_props(wedges(ci as usize, self_idx), Sign::Plus, T::z(), T::z());
        sg_props(wedges(ci as usize, cpl(ci, N::<A>() as nat) as usize), Sign::Plus, T::z(), T::z());
        assert(dualv(am)[ci] == T::z());
    }
@endbody
    proof { l_inner_end(dualv(ret.v()), dualv(am), dualv(rhs.v()), ci, sx, 0, allnull()); }
@after
    proof { l_msk_end(it0.all(), self.v()); th_dual(ret.v(), A::sdim()); }
@loop 1
@inv
    self.wf(), rhs.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it1.all(), rhs.v()), mask == N::<A>() - 1,
    self_idx < N::<A>(), ci == cpl(self_idx as int, N::<A>() as nat), 0 <= ci < N::<A>(), sx == sg(wedges(ci as usize, self_idx), *self_c),
    inner_ok(dualv(ret.v()), base, ci, sx, dualv(msk(it1.all(), it1.pos(), rhs.v())), 0, allnull()),
@before
    proof { l_msk_start(it1.all(), rhs.v()); }
@begin
    let ghost r0 = ret.v();
    let ghost bm = msk(it1.all(), it1.pos() - 1, rhs.v());
    let ghost cj = cpl(rhs_idx as int, N::<A>() as nat);
    let ghost sy = sg(wedges(cj as usize, rhs_idx), *rhs_c);
    proof {
        T::ops();
        let n = N::<A>() as nat;
        l_msk_step(it1.all(), it1.pos() - 1, rhs.v());
        l_xr(self_idx as int, rhs_idx as int, n, A::sdim());
        l_cpl(self_idx as int, n, A::sdim());
        l_cpl(rhs_idx as int, n, A::sdim());
        l_cpl(xr(self_idx as int, rhs_idx as int), n, A::sdim());
        l_dual_upd(bm, rhs_idx as int, *rhs_c, A::sdim());
        sg_props(wedges(cj as usize, cpl(cj, n) as usize), Sign::Plus, T::z(), T::z());
        assert(dualv(bm)[cj] == T::z());
    }
@hook let sign 0
    let ghost sgn = sign;
@endbody
    proof {
        l_meet_step(r0, ret.v(), self_idx as int, *self_c, rhs_idx as int, *rhs_c, sgn, A::sdim());
        l_inner_step(dualv(r0), dualv(ret.v()), base, ci, sx, dualv(bm), cj, sy, A::sdim(), 0, allnull());
    }
@after
    proof { l_msk_end(it1.all(), rhs.v()); }
@fn dual
@props C05 C18
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == dualv(self.v()),
@entry
    proof { l_alg::<A>(); A::wf(); l_dual_zero::<T>(N::<A>() as nat, A::sdim()); }
@hook let mask 0
    proof {
        let (x, y, w) = (A::sreal(), A::simag(), A::sproj());
        assert(w | y | x == x | y | w && x | y | w == (x | y) | w) by (bit_vector);
    }
@loop 0
@inv
    self.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it0.all(), self.v()), mask == N::<A>() - 1,
    ret.v() == dualv(msk(it0.all(), it0.pos(), self.v())),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof {
        l_msk_step(it0.all(), it0.pos() - 1, self.v());
        l_cpl(idx as int, N::<A>() as nat, A::sdim());
        l_dual_upd(msk(it0.all(), it0.pos() - 1, self.v()), idx as int, *c, A::sdim());
    }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@fn undual
@props C05 C18
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == undualv(self.v()),
@entry
    proof { l_alg::<A>(); A::wf(); l_dual_zero::<T>(N::<A>() as nat, A::sdim()); }
@hook let mask 0
    proof {
        let (x, y, w) = (A::sreal(), A::simag(), A::sproj());
        assert(w | y | x == x | y | w && x | y | w == (x | y) | w) by (bit_vector);
    }
@loop 0
@inv
    self.wf(), ret.wf(), dimlen(N::<A>() as nat, A::sdim()), enums(it0.all(), self.v()), mask == N::<A>() - 1,
    ret.v() == undualv(msk(it0.all(), it0.pos(), self.v())),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof {
        l_msk_step(it0.all(), it0.pos() - 1, self.v());
        l_cpl(idx as int, N::<A>() as nat, A::sdim());
        l_dual_upd(msk(it0.all(), it0.pos() - 1, self.v()), idx as int, *c, A::sdim());
    }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@fn vsdot
@props C11
@requires
    self.wf(), rhs.wf(),
@ensures
    r == dots(self.v(), rhs.v()),
@entry
    proof { T::ops(); l_dots_zero(N::<A>() as nat, rhs.v()); }
@loop 0
@inv
    self.wf(), rhs.wf(), enums(it0.all(), self.v()),
    ret == dots(msk(it0.all(), it0.pos(), self.v()), rhs.v()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof {
        T::ops();
        l_msk_step(it0.all(), it0.pos() - 1, self.v());
        l_dots_upd(msk(it0.all(), it0.pos() - 1, self.v()), rhs.v(), idx as int, *c);
    }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@fn vdot
@props C11
@requires
    self.wf(), rhs.wf(),
@ensures
    r == sdot(self.v(), rhs.v(), A::simag(), A::sproj()),
@entry
    proof { l_alg::<A>(); T::ops(); l_prod_zero(N::<A>() as nat, rhs.v(), A::simag(), A::sproj()); assert(prod(zeros::<T>(N::<A>() as nat), rhs.v(), A::simag(), A::sproj())[0] == T::z()); }
@loop 0
@inv
    self.wf(), rhs.wf(), enums(it0.all(), self.v()),
    ret == sdot(msk(it0.all(), it0.pos(), self.v()), rhs.v(), A::simag(), A::sproj()),
@before
    proof { l_msk_start(it0.all(), self.v()); }
@begin
    proof {
        T::ops();
        l_msk_step(it0.all(), it0.pos() - 1, self.v());
        l_sdot_upd(msk(it0.all(), it0.pos() - 1, self.v()), rhs.v(), A::simag(), A::sproj(), idx as int, *c);
    }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@fn mag2
@props C11
@requires
    self.wf(),
@ensures
    r == sdot(revv(self.v()), self.v(), A::simag(), A::sproj()),
@entry
    proof { l_alg::<A>(); T::ops(); l_prod_zero(N::<A>() as nat, self.v(), A::simag(), A::sproj()); assert(prod(zeros::<T>(N::<A>() as nat), self.v(), A::simag(), A::sproj())[0] == T::z()); }
@loop 0
@inv
    self.wf(), enums(it0.all(), self.v()),
    ret == sdot(msk(it0.all(), it0.pos(), revv(self.v())), self.v(), A::simag(), A::sproj()),
@before
    proof { l_msk_start(it0.all(), revv(self.v())); }
@begin
    proof {
        T::ops();
        l_mstep(it0.all(), it0.pos() - 1, revv(self.v()));
        l_sdot_upd(msk(it0.all(), it0.pos() - 1, revv(self.v())), self.v(), A::simag(), A::sproj(), idx as int, revv(self.v())[idx as int]);
    }
@after
    proof { r_neg(T::z()); l_mend(it0.all(), self.v(), revv(self.v())); }
@fn cmag2
@props C11
@requires
    self.wf(),
@ensures
    r == sdot(revv(cjv(self.v())), self.v(), A::simag(), A::sproj()),
@entry
    proof { T::cj_zero(); r_neg(T::z()); l_mapped(self.v(), revv(cjv(self.v())), N::<A>() as nat); }
@closure 0
|p: (usize, &T)| -> (q: (usize, T))
  ensures q.0 == p.0, q.1 == sg(revs(p.0), T::cj(*p.1)),
@fn revc
@props C11
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == revv(cjv(self.v())),
@entry
    proof { T::cj_zero(); r_neg(T::z()); l_mapped(self.v(), revv(cjv(self.v())), N::<A>() as nat); }
@closure 0
|p: (usize, &T)| -> (q: (usize, T))
  ensures q.0 == p.0, q.1 == sg(revs(p.0), T::cj(*p.1)),
@fn revm
@props C11
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == divv(revv(self.v()), sdot(revv(self.v()), self.v(), A::simag(), A::sproj())),
@fn revcm
@props C11
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == divv(revv(cjv(self.v())), sdot(revv(cjv(self.v())), self.v(), A::simag(), A::sproj())),
@fn pow
@props C16
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == powv(self.v(), n as nat, A::simag(), A::sproj()),
@decreases n
@entry
    proof {
        l_alg::<A>();
        assert(n >> 1 == n / 2) by (bit_vector);
        assert(n & 1 == n % 2) by (bit_vector);
        th_pow_add_all(self.v(), A::simag(), A::sproj(), A::sdim());
    }
@fn approx_eq
@props C07
@requires
    self.wf(), rhs.wf(), precision.v@ > 0real,
@ensures
    r == (forall|i: int| 0 <= i < N::<A>() ==> #[trigger] nrmd(self.v(), rhs.v(), i) < precision.v@),
@closure 0
|p: (usize, &T)| -> (b: bool)
  requires p.0 < z.len(), *p.1 == z[p.0 as int], z == vsub(x, y),
  ensures b == (nrmd(x, y, p.0 as int) < precision.v@),
@hook let diff 0
    let ghost (x, y, z, e) = (self.v(), rhs.v(), diff.v(), precision.v@);
@exit
    proof {
        let n = N::<A>() as int;
        if r {
            assert forall|i: int| 0 <= i < n implies #[trigger] nrmd(x, y, i) < e by {
                T::norm_law(T::z());
                if z[i] != T::z() {
                    let _ = z[i];
                }
            }
        }
    }
@fn exp
@props C19
@sub From<f64> =>> VFromF64
@sub T::from( =>> T::v_from(
@sub ?f64::EPSILON =>> v_eps()
@sub ?let mut i = 1; =>> let mut i: i32 = 1;
@sub max_c as usize =>> v_to_usize(max_c)
@requires
    self.wf(), nsum(self.v(), N::<A>() as int) <= (usize::MAX - 1) as int as real,
@ensures
    r.wf(), expof(r.v(), self.v(), nsum(self.v(), N::<A>() as int), frf::<T>(), A::simag(), A::sproj()),
@entry
    let ghost n = N::<A>() as int;
    let ghost (im, pr) = (A::simag(), A::sproj());
    proof { l_alg::<A>(); }
@loop 0
@inv
    self.wf(), n == N::<A>(), enums(it0.all(), self.v()), max_c == fl(nsum(msk(it0.all(), it0.pos(), self.v()), n)),
@before
    proof { l_msk_start(it0.all(), self.v()); l_nsum_zero(zeros::<T>(n as nat), n); }
@begin
    proof { l_msk_step(it0.all(), it0.pos() - 1, self.v()); l_nsum_upd(msk(it0.all(), it0.pos() - 1, self.v()), it0.all()[it0.pos() - 1].0 as int, *ci, n); }
@after
    proof { l_msk_end(it0.all(), self.v()); }
@hook let int_pow 0
    proof {
        let mx = fl(if nsum(self.v(), n) >= 1real { nsum(self.v(), n) } else { 1real });
        let m = choose|m: int| max_c == #[trigger] fl(m as real) && m as real - 1real < mx.v@ <= m as real;
        assert(1 <= m <= usize::MAX && int_pow == m);
    }
@hook let inv_max_c 0
    proof { assert(1real * rinv(max_c.v@) == rinv(max_c.v@)); }
@loop 1
@inv
    int_pow >= 1, nsum(self.v(), n) <= int_pow as int as real, normalized_mv.v() == scaler(self.v(), T::fr(rinv(int_pow as int as real))), n == N::<A>(), im == A::simag(), pr == A::sproj(),
    self.wf(), normalized_mv.wf(), p.wf(), res.wf(), 1 <= i <= 60, coeff == fl(ifct((i - 1) as nat)),
    p.v() == powv(normalized_mv.v(), i as nat, A::simag(), A::sproj()), res.v() == ser(normalized_mv.v(), (i - 1) as nat, frf::<T>(), A::simag(), A::sproj()),
@dec
    60 - i
@before
    proof { l_pow_one(normalized_mv.v(), A::simag(), A::sproj(), A::sdim()); }
@begin
    proof { l_cut((i - 1) as nat); }
@after
    proof { assert(expat(powv(res.v(), int_pow as nat, im, pr), self.v(), nsum(self.v(), n), frf::<T>(), im, pr, int_pow as nat, (i - 1) as nat)); }
@end

@@ operators on multivectors: src/ops.rs
@module refops types.rs C17
@impl RefMul for T
@sub impl<T> RefMul for T =>> impl<T: Ring + Clone, A: ClAlgebra, S: CoeffStorage<T>> MultivectorBase<T, A, S>
@sub where for<'a> &'a T: Mul<Output = T>, =>>
@fn ref_mul
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == prod(self.v(), rhs.v(), A::simag(), A::sproj()),
@end
@impl RefAdd for T
@sub impl<T> RefAdd for T =>> impl<T: Ring + Clone, A: ClAlgebra, S: CoeffStorage<T>> MultivectorBase<T, A, S>
@sub where for<'a> &'a T: Add<Output = T>, =>>
@fn ref_add
@props C08
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == vadd(self.v(), rhs.v()),
@end
@impl RefSub for T
@sub impl<T> RefSub for T =>> impl<T: Ring + Clone, A: ClAlgebra, S: CoeffStorage<T>> MultivectorBase<T, A, S>
@sub where for<'a> &'a T: Sub<Output = T>, =>>
@fn ref_sub
@props C08
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == vsub(self.v(), rhs.v()),
@end
@impl RefNeg for T
@sub impl<T> RefNeg for T =>> impl<T: Ring + Clone, A: ClAlgebra, S: CoeffStorage<T>> MultivectorBase<T, A, S>
@sub where for<'a> &'a T: Neg<Output = T>, =>>
@fn ref_neg
@props C08
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == vneg(self.v()),
@end
@impl RefDiv for T
@sub impl<T> RefDiv for T =>> impl<T: DivRing + Clone, A: ClAlgebra + DivisionAlgebra, S: CoeffStorage<T>> MultivectorBase<T, A, S>
@sub where for<'a> &'a T: Div<Output = T>, =>>
@fn ref_div
@props C17
@requires
    self.wf(), rhs.wf(), isdiv(A::sdim(), A::simag(), A::sproj()),
@ensures
    r.wf(), r.v() == quotv(self.v(), rhs.v(), A::simag()),
@end
@module ops ops.rs C08
@opfn Div 0
@props C17
@requires
    $self.wf(),
    $rhs.wf(),
    isdiv(A::sdim(), A::simag(), A::sproj()),
@ensures
    r.wf(), r.v() == quotv($self.v(), $rhs.v(), A::simag()),
@hook let rhs_norm 0
    let ghost v0 = rhs_conj.v();
    proof { l_alg::<A>(); l_cc_comm($rhs.v()); }
@loop 0
@inv
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < it0.pos() ==> *final(it0.all()[j].1) == dv(v0[it0.all()[j].0 as int], rhs_norm),
    forall|j: int| #![trigger it0.all()[j]] 0 <= j < it0.all().len() ==> it0.all()[j].0 < v0.len() && *it0.all()[j].1 == v0[it0.all()[j].0 as int],
@after
    proof {
        r_mul_zero(T::iv(rhs_norm));
        let w = rhs_conj.v();
        assert forall|i: int| 0 <= i < v0.len() implies w[i] == dv(v0[i], rhs_norm) by {
            if done(vall_it0, vall_it0.len() as int, i) {
                let j = choose|j: int| 0 <= j < vall_it0.len() && (#[trigger] vall_it0[j]).0 == i;
                assert(it0.all()[j].0 == i);
            }
        }
        assert(w =~= divv(ccv($rhs.v()), rhs_norm));
    }
@opfn Add 0
@requires
    $self.wf(),
    $rhs.wf(),
@ensures
    r.wf(), r.v() == vadd($self.v(), $rhs.v()),
@opfn Sub 0
@requires
    $self.wf(),
    $rhs.wf(),
@ensures
    r.wf(), r.v() == vsub($self.v(), $rhs.v()),
@opfn Mul 0
@props C03 C16
@requires
    $self.wf(),
    $rhs.wf(),
@ensures
    r.wf(), r.v() == prod($self.v(), $rhs.v(), A::simag(), A::sproj()),
@opfn Mul 1
@requires
    $self.wf(),
@ensures
    r.wf(), r.v() == scaler($self.v(), $rhs),
@loop 0
@inv
    $self.wf(), ret.wf(), enums(it0.all(), $self.v()),
    ret.v() == msk(it0.all(), it0.pos(), scaler($self.v(), $rhs)),
@before
    proof { l_msk_start(it0.all(), scaler($self.v(), $rhs)); }
@begin
    proof { l_mstep(it0.all(), it0.pos() - 1, scaler($self.v(), $rhs)); }
@after
    proof { r_mul_zero($rhs); l_mend(it0.all(), $self.v(), scaler($self.v(), $rhs)); }
@opfn Div 1
@addprops C11 C18
@requires
    $self.wf(),
@ensures
    r.wf(), r.v() == divv($self.v(), $rhs),
@loop 0
@inv
    $self.wf(), ret.wf(), enums(it0.all(), $self.v()),
    ret.v() == msk(it0.all(), it0.pos(), divv($self.v(), $rhs)),
@before
    proof { l_msk_start(it0.all(), divv($self.v(), $rhs)); }
@begin
    proof { l_mstep(it0.all(), it0.pos() - 1, divv($self.v(), $rhs)); }
@after
    proof { r_mul_zero(T::iv($rhs)); l_mend(it0.all(), $self.v(), divv($self.v(), $rhs)); }
@opfn Neg 0
@requires
    $self.wf(),
@ensures
    r.wf(), r.v() == vneg($self.v()),
