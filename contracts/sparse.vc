@@ sparse multivectors: src/mv_sparse.rs
@module sparse mv_sparse.rs C07
@type SparseMultivector
@impl SparseMultivector
@fn basis
@props C10
@sub A::basis_sparse::<T>() =>> basis_sparse::<A, DIM, T>()
@requires
    A::ok(), DIM == A::sdim(),
@ensures
    forall|i: int| 0 <= i < DIM ==> (#[trigger] r@[i]).wf() && r@[i].v() == blade(N::<A>() as nat, (1usize << (i as usize)) as int, T::o()),
@fn to_dense
@props C07
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == self.v(),
@fn grades_extract
@props C09
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == gsel(self.v(), grades@),
@entry
    proof { l_alg::<A>(); l_filtered(self.v()); }
@closure 0
|p: &(usize, &T)| -> (b: bool)
  ensures b == grades@.contains(pc(p.0) as usize),
@exit
    proof { assert(r.v() =~= gsel(self.v(), grades@)); }
@fn filter_inplace
@props C09
@sub F: FnMut(&IndexType, &mut T) -> bool =>> F: Fn(&IndexType, &T) -> bool
@requires
    old(self).wf(),
    forall|i: &usize, x: &T| call_requires(f, (i, x)),
@ensures
    final(self).wf(),
    forall|i: int| #![trigger final(self).v()[i]] 0 <= i < old(self).v().len() ==>
        (final(self).v()[i] == T::z() && (old(self).v()[i] == T::z() || call_ensures(f, (&(i as usize), &old(self).v()[i]), false)))
        || (final(self).v()[i] == old(self).v()[i] && call_ensures(f, (&(i as usize), &old(self).v()[i]), true)),
@fn filtered
@props C09
@sub F: FnMut(&IndexType, &mut T) -> bool =>> F: Fn(&IndexType, &T) -> bool
@requires
    self.wf(),
    forall|i: &usize, x: &T| call_requires(f, (i, x)),
@ensures
    r.wf(),
    forall|i: int| #![trigger r.v()[i]] 0 <= i < self.v().len() ==>
        (r.v()[i] == T::z() && (self.v()[i] == T::z() || call_ensures(f, (&(i as usize), &self.v()[i]), false)))
        || (r.v()[i] == self.v()[i] && call_ensures(f, (&(i as usize), &self.v()[i]), true)),
@fn retain_grades
@props C09
@requires
    old(self).wf(),
@ensures
    final(self).wf(), final(self).v() == gsel(old(self).v(), grades@),
@closure 0
|p0: &usize, p1: &T| -> (b: bool)
  ensures b == grades@.contains(pc(*p0) as usize),
@exit
    proof { assert(final(self).v() =~= gsel(old(self).v(), grades@)); }
@fn coeff_count
@props C09
@ensures
    r == self.coeffs.coeffs.m().dom().len(),
@end
@impl WedgeProduct for SparseMultivector
@sub WedgeProduct for SparseMultivector =>> SparseMultivector
@fn wedge
@props C04
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == wprod(self.v(), rhs.v()),
@fn meet
@props C05
@requires
    self.wf(), rhs.wf(),
@ensures
    r.wf(), r.v() == meetv(self.v(), rhs.v()),
@end
