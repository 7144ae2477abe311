@@ elimination: src/fftrepr/matrix.rs
@module matrix fftrepr/matrix.rs C15
@fn matrix_inv
@index
@sub &ArrayBase<impl ndarray::Data<Elem = T>, ndarray::Ix2> =>> &ArrayView2<T>
@sub w[(j, m)] != w[(j, m)] =>> !w[(j, m)].eq(&w[(j, m)])
@ensures
    r is Some ==> mat.nr() == mat.nc() && r->0.nr() == mat.nr() && r->0.nc() == mat.nr() && minv(mat.f(), r->0.f(), mat.nr()),
    r is None ==> mat.nr() != mat.nc() || singular(mat.f(), mat.nr()),
@hook let n 0
    let ghost mf = mat.f();
    proof {
        assert(n * n <= isize::MAX);
        assert(n < 0x1_0000_0000) by (nonlinear_arith) requires n * n <= 0x7fff_ffff_ffff_ffff;
    }
@loop 0
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n,
    forall|a: int, c: int| vin2(a, c, n as nat, 2 * n as nat) ==> #[trigger] w.g(a, c) == if c < n { mat.g(a, c) } else if c - n == a && a < i { T::o() } else { T::z() },
@after
    proof { l_augmented(w.f(), mf, n as nat); }
@loop 1
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, mf == mat.f(), mat.nr() == n, mat.nc() == n,
    equiv(w.f(), mf, n as nat), upper(w.f(), n as nat, i as int),
@begin
    let ghost w0 = w.f();
@endbody
    proof { l_upper_next(w.f(), n as nat, i as int); }
@hook let max_idx 0
    proof { T::norm_law(w.g(i as int, i as int)); }
@loop 2
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, w0 == w.f(), i <= max_idx < n, max_k == fl(w0(max_idx as int, i as int).nrm()),
    forall|a: int| i <= a < j ==> (#[trigger] w0(a, i as int)).nrm() <= max_k.v@,
@hook return 1
    proof { l_no_pivot(w0, mf, n as nat, i as int); }
@loop 3
@before
    proof { T::norm_law(w0(max_idx as int, i as int)); }
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, i <= max_idx < n,
    forall|a: int, c: int| vin2(a, c, n as nat, 2 * n as nat) ==> #[trigger] w.g(a, c) == if c < m { w0(sw(i as int, max_idx as int, a), c) } else { w0(a, c) },
@after
    proof { l_step_swap(w0, w.f(), mf, n as nat, i as int, max_idx as int); }
@hook let k 0
    let ghost w1 = w.f();
@loop 4
@before
    proof { l_row_left(w1, n as nat, i as int, i as int, i as int, T::m(T::o(), T::iv(k))); }
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, i < n, k == w1(i as int, i as int),
    forall|a: int, c: int| vin2(a, c, n as nat, 2 * n as nat) ==> #[trigger] w.g(a, c) == if a == i && c < m { T::m(T::m(T::o(), T::iv(k)), w1(i as int, c)) } else { w1(a, c) },
@after
    proof { l_step_scale(w1, w.f(), mf, n as nat, i as int, k); }
@loop 5
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, i < n,
    equiv(w.f(), mf, n as nat), upper(w.f(), n as nat, i as int), below(w.f(), i as int, j as int),
@begin
    let ghost w2 = w.f();
@endbody
    proof { l_step_elim(w2, w.f(), mf, n as nat, i as int, j as int); }
@loop 6
@before
    proof { l_row_left(w2, n as nat, i as int, i as int, j as int, coeff); }
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, i < j < n, coeff == w2(j as int, i as int),
    forall|a: int, c: int| vin2(a, c, n as nat, 2 * n as nat) ==> #[trigger] w.g(a, c) == if a == j && c < m { T::s(w2(j as int, c), T::m(coeff, w2(i as int, c))) } else { w2(a, c) },
@loop 7
@before
    proof { assert(diag(w.f(), n as nat, n as int)); T::norm_law(T::z()); }
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, T::z() != T::o(),
    it7.all() == vall_it7, it7.all().len() == n, forall|p: int| 0 <= p < n ==> #[trigger] vall_it7[p] == n - 1 - p,
    equiv(w.f(), mf, n as nat), upper(w.f(), n as nat, n as int), diag(w.f(), n as nat, n - it7.pos()),
@begin
    proof { assert(i == n - it7.pos()); }
@endbody
    proof { l_diag_next(w.f(), n as nat, i as int); }
@loop 8
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, T::z() != T::o(), i < n,
    it8.all() == vall_it8, it8.all().len() == i, forall|p: int| 0 <= p < i ==> #[trigger] vall_it8[p] == i - 1 - p,
    equiv(w.f(), mf, n as nat), upper(w.f(), n as nat, n as int), diag(w.f(), n as nat, i + 1), above(w.f(), i as int, i - it8.pos()),
@begin
    let ghost w3 = w.f();
    proof { assert(j == i - it8.pos()); }
@endbody
    proof { l_step_back(w3, w.f(), mf, n as nat, i as int, j as int, coeff); }
@loop 9
@before
    proof { l_row_left(w3, n as nat, n as int, i as int, j as int, coeff); }
@inv
    n < 0x1_0000_0000, w.nr() == n, w.nc() == 2 * n, j < i < n,
    forall|a: int, c: int| vin2(a, c, n as nat, 2 * n as nat) ==> #[trigger] w.g(a, c) == if a == j && c < m { T::s(w3(j as int, c), T::m(coeff, w3(i as int, c))) } else { w3(a, c) },
@exit
    proof { l_solved(w.f(), mf, r->0.f(), n as nat); }
