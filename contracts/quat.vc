@@ quaternions: src/quaternion.rs
@module quat quaternion.rs C17
@type QStorage
@derive_clone QStorage
@derive_eq QStorage
    open spec fn eq_req(&self, o: &Self) -> bool { true }
    open spec fn eqs(&self, o: &Self) -> bool { self.coeff@ == o.coeff@ }
@impl CoeffStorage for QStorage
    open spec fn v(&self) -> Seq<T> { self.coeff@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn dim_ok(dim: usize) -> bool { dim == 2 }
    proof fn eq_law(&self, o: &Self) { }
@fn new
@props C07 C17
@exit
    proof { assert((1usize << 2) == 4) by (bit_vector); assert(r.v() =~= zeros::<T>(dpow(dim))); }
@fn get_by_idx
@props C07 C17
@fn set_by_idx
@props C07 C17
@exit
    proof { assert(final(self).v() =~= if idx < old(self).v().len() { old(self).v().update(idx as int, value) } else { old(self).v() }); }
@fn coeff_enumerate
@props C07 C17
@sub .iter() =>> .v_iter()
@exit
    proof { l_arr_enum(r.all(), self.v()); }
@fn coeff_enumerate_mut
@props C07 C17
@sub .iter_mut() =>> .v_iter_mut()
@exit
    proof { l_arr_menum(r.all(), old(self).v()); }
@fn grade_enumerate
@props C09
@sub .iter() =>> .v_iter()
@closure 0
|p: &(usize, &'a T)| -> (b: bool)
  ensures b == (pc(p.0) == grade),
@exit
    proof { l_arr_enum(isrc(r), self.v()); l_enum_grade(isrc(r), r.fl(), self.v(), grade as nat); }
@fn add
@props C08
@entry
    proof { T::ops(); }
@exit
    proof { assert(r.v() =~= vadd(self.v(), rhs.v())); }
@fn sub
@props C08
@entry
    proof { T::ops(); }
@exit
    proof { assert(r.v() =~= vsub(self.v(), rhs.v())); }
@end
@declare QuaternionAlgebra C20
    open spec fn ok() -> bool { true }
    open spec fn sdim() -> usize { decl_dim(QuaternionAlgebra_sig()) }
    open spec fn sreal() -> usize { decl_real_mask(QuaternionAlgebra_sig()) }
    open spec fn simag() -> usize { decl_imag_mask(QuaternionAlgebra_sig()) }
    open spec fn sproj() -> usize { decl_proj_mask(QuaternionAlgebra_sig()) }
    open spec fn sname(n: int) -> Seq<char> { QuaternionAlgebra_names()[n] }
    proof fn wf() {
        l_qalg();
        assert((1usize << 2) == 4 && 0usize & 3usize == 0 && 0usize & 0usize == 0 && 3usize & 0usize == 0 && 0usize | 3usize == 3 && 3usize | 0usize == 3) by (bit_vector);
        l_ones(2, 64);
    }
@entry
    proof { l_qalg(); }
@raw
pub proof fn l_qalg()
    ensures
        decl_dim(QuaternionAlgebra_sig()) == 2,
        decl_real_mask(QuaternionAlgebra_sig()) == 0,
        decl_imag_mask(QuaternionAlgebra_sig()) == 3,
        decl_proj_mask(QuaternionAlgebra_sig()) == 0,
        (0usize << 0usize) | (0usize << 1usize) == 0,
        (1usize << 0usize) | (1usize << 1usize) == 3,
{
    assert(decl_dim(QuaternionAlgebra_sig()) == 2) by (compute);
    assert(decl_real_mask(QuaternionAlgebra_sig()) == 0) by (compute);
    assert(decl_imag_mask(QuaternionAlgebra_sig()) == 3) by (compute);
    assert(decl_proj_mask(QuaternionAlgebra_sig()) == 0) by (compute);
    assert((0usize << 0usize) | (0usize << 1usize) == 0) by (compute);
    assert((1usize << 0usize) | (1usize << 1usize) == 3) by (compute);
}
@end
@type Quaternion
@impl Quaternion
@fn i
@ensures
    r.wf(), r.v() == blade::<T>(4, 1, T::o()),
@entry
    proof { l_qalg(); assert((1usize << 2) == 4) by (bit_vector); }
@exit
    proof { assert(r.v() =~= blade::<T>(4, 1, T::o())); }
@fn j
@ensures
    r.wf(), r.v() == blade::<T>(4, 2, T::o()),
@entry
    proof { l_qalg(); assert((1usize << 2) == 4) by (bit_vector); }
@exit
    proof { assert(r.v() =~= blade::<T>(4, 2, T::o())); }
@fn k
@ensures
    r.wf(), r.v() == blade::<T>(4, 3, T::n(T::o())),
@entry
    proof { l_qalg(); T::ops(); assert((1usize << 2) == 4) by (bit_vector); }
@exit
    proof { assert(r.v() =~= blade::<T>(4, 3, T::n(T::o()))); }
@fn conj
@requires
    self.wf(),
@ensures
    r.wf(), r.v() == conj4(self.v()),
@entry
    proof { l_qalg(); T::ops(); assert((1usize << 2) == 4) by (bit_vector); }
@exit
    proof { assert(r.v() =~= conj4(self.v())); }
@end
@impl Norm for Quaternion
@sub Norm for Quaternion =>> Quaternion
@fn norm
@props C17
@sub ?s += =>> s = s +
@requires
    self.wf(),
@ensures
    r == fl(rsqrt(nrm2s(self.v(), 4))),
@entry
    proof { l_qalg(); assert((1usize << 2) == 4) by (bit_vector); }
@loop 0
@inv
    self.wf(), self.v().len() == 4, s == fl(nrm2s(self.v(), i as int)),
@end
@raw
// the sum of the squared norms of the first n coefficients
pub open spec fn nrm2s<T: Norm>(v: Seq<T>, n: int) -> real
    decreases n,
{
    if n <= 0 { 0real } else { nrm2s(v, n - 1) + v[n - 1].nrm() * v[n - 1].nrm() }
}
