// ---- stand-ins for three-dimensional ndarray arrays and views
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array3<T> {
    v: Vec<T>,
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VData3<T> {
    v: Vec<T>,
}

impl<T> VData3<T> {
    pub uninterp spec fn g(&self, w: int, i: int, j: int) -> T;

    pub uninterp spec fn np(&self) -> nat;

    pub uninterp spec fn nr(&self) -> nat;

    pub uninterp spec fn nc(&self) -> nat;
}

pub struct ArrayView3<'a, T> {
    pub r: &'a VData3<T>,
}

impl<'a, T> ::core::clone::Clone for ArrayView3<'a, T> {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

impl<'a, T> ::core::marker::Copy for ArrayView3<'a, T> {

}

pub struct ArrayViewMut3<'a, T> {
    pub r: &'a mut VData3<T>,
}

impl<T> Clone for Array3<T> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Self) {
        unimplemented!()
    }
}

// place of an entry in the order of an iterator
pub uninterp spec fn rmi3(w: int, i: int, j: int, nr: nat, nc: nat) -> int;

// shapes
pub trait VShape3: Sized {
    spec fn s0(&self) -> nat;

    spec fn s1(&self) -> nat;

    spec fn s2(&self) -> nat;
}

impl VShape3 for [usize; 3] {
    open spec fn s0(&self) -> nat {
        self@[0] as nat
    }

    open spec fn s1(&self) -> nat {
        self@[1] as nat
    }

    open spec fn s2(&self) -> nat {
        self@[2] as nat
    }
}

impl VShape3 for (usize, usize, usize) {
    open spec fn s0(&self) -> nat {
        self.0 as nat
    }

    open spec fn s1(&self) -> nat {
        self.1 as nat
    }

    open spec fn s2(&self) -> nat {
        self.2 as nat
    }
}

// anything two-dimensional that can be read
pub trait VMat<T> {
    spec fn mr(&self) -> nat;

    spec fn mc(&self) -> nat;

    spec fn mg(&self, i: int, j: int) -> T;

    spec fn mf(&self) -> spec_fn(int, int) -> T;
}

impl<T> VMat<T> for Array2<T> {
    open spec fn mr(&self) -> nat {
        self.nr()
    }

    open spec fn mc(&self) -> nat {
        self.nc()
    }

    open spec fn mg(&self, i: int, j: int) -> T {
        self.g(i, j)
    }

    open spec fn mf(&self) -> spec_fn(int, int) -> T {
        self.f()
    }
}

impl<'a, T> VMat<T> for ArrayView2<'a, T> {
    open spec fn mr(&self) -> nat {
        self.nr()
    }

    open spec fn mc(&self) -> nat {
        self.nc()
    }

    open spec fn mg(&self, i: int, j: int) -> T {
        self.g(i, j)
    }

    open spec fn mf(&self) -> spec_fn(int, int) -> T {
        self.f()
    }
}

impl<T> Array3<T> {
    pub uninterp spec fn g(&self, w: int, i: int, j: int) -> T;

    pub uninterp spec fn np(&self) -> nat;

    pub uninterp spec fn nr(&self) -> nat;

    pub uninterp spec fn nc(&self) -> nat;

    pub open spec fn f(&self) -> spec_fn(int, int, int) -> T {
        |w: int, i: int, j: int| self.g(w, i, j)
    }

    #[verifier::external_body]
    pub fn dim(&self) -> (r: (usize, usize, usize))
        ensures
            r.0 == self.np(),
            r.1 == self.nr(),
            r.2 == self.nc(),
            self.np() * self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: (usize, usize, usize)) -> (r: &T)
        requires
            vin3(i.0 as int, i.1 as int, i.2 as int, self.np(), self.nr(), self.nc()),
        ensures
            *r == self.g(i.0 as int, i.1 as int, i.2 as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_set(&mut self, i: (usize, usize, usize), x: T)
        requires
            vin3(i.0 as int, i.1 as int, i.2 as int, old(self).np(), old(self).nr(), old(self).nc()),
        ensures
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|w: int, k: int, l: int| vin3(w, k, l, old(self).np(), old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(w, k, l) == if w == i.0 && k == i.1 && l == i.2 { x } else { old(self).g(w, k, l) },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view<'a>(&'a self) -> (r: ArrayView3<'a, T>)
        ensures
            r.np() == self.np(),
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            r.f() == self.f(),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> #[trigger] r.g(w, i, j) == self.g(w, i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view_mut<'b>(&'b mut self) -> (r: ArrayViewMut3<'b, T>)
        ensures
            r.np() == old(self).np(),
            r.nr() == old(self).nr(),
            r.nc() == old(self).nc(),
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            r.f() == old(self).f(),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.np(), r.nr(), r.nc()) ==> #[trigger] r.g(w, i, j) == old(self).g(w, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.np(), r.nr(), r.nc()) ==> #[trigger] final(self).g(w, i, j) == r.fing(w, i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn index_axis<'b>(&'b self, ax: Axis, n: usize) -> (r: ArrayView2<'b, T>)
        requires
            ax.0 == 0,
            n < self.np(),
        ensures
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(n as int, i, j),
            r.f() == pl(self.f(), n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn index_axis_mut<'b>(&'b mut self, ax: Axis, n: usize) -> (r: ArrayViewMut2<'b, T>)
        requires
            ax.0 == 0,
            n < old(self).np(),
        ensures
            r.nr() == old(self).nr(),
            r.nc() == old(self).nc(),
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == old(self).g(n as int, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, old(self).np(), old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(w, i, j) == if w == n { r.fing(i, j) } else { old(self).g(w, i, j) },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn axis_iter<'b>(&'b self, ax: Axis) -> (r: CIter<ArrayView2<'b, T>>)
        requires
            ax.0 <= 1,
        ensures
            r.pos() == 0,
            ax.0 == 0 ==> r.all().len() == self.np(),
            ax.0 == 0 ==> forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> r.all()[k].nr() == self.nr() && r.all()[k].nc() == self.nc(),
            ax.0 == 0 ==> forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> r.all()[k].f() == pl(self.f(), k),
            ax.0 == 0 ==> forall|k: int, i: int, j: int| 0 <= k < r.all().len() && vin2(i, j, self.nr(), self.nc()) ==> #[trigger] r.all()[k].g(i, j) == self.g(k, i, j),
            ax.0 == 1 ==> r.all().len() == self.nr(),
            ax.0 == 1 ==> forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> r.all()[k].nr() == self.np() && r.all()[k].nc() == self.nc(),
            ax.0 == 1 ==> forall|k: int, w: int, j: int| 0 <= k < r.all().len() && vin2(w, j, self.np(), self.nc()) ==> #[trigger] r.all()[k].g(w, j) == self.g(w, k, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter_mut<'b>(&'b mut self) -> (r: CIter<((usize, usize, usize), &'b mut T)>)
        ensures
            r.pos() == 0,
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> vin3(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int, old(self).np(), old(self).nr(), old(self).nc()) && *r.all()[k].1 == old(self).g(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int) && *final(r.all()[k].1) == final(self).g(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int) && k == rmi3(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int, old(self).nr(), old(self).nc()),
            forall|w: int, i: int, j: int| vin3(w, i, j, old(self).np(), old(self).nr(), old(self).nc()) ==> 0 <= #[trigger] rmi3(w, i, j, old(self).nr(), old(self).nc()) < r.all().len() && r.all()[rmi3(w, i, j, old(self).nr(), old(self).nc())].0.0 == w && r.all()[rmi3(w, i, j, old(self).nr(), old(self).nc())].0.1 == i && r.all()[rmi3(w, i, j, old(self).nr(), old(self).nc())].0.2 == j,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter<'b>(&'b self) -> (r: CIter<&'b T>)
        ensures
            r.pos() == 0,
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> exists|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) && k == rmi3(w, i, j, self.nr(), self.nc()) && *r.all()[k] == #[trigger] self.g(w, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> 0 <= #[trigger] rmi3(w, i, j, self.nr(), self.nc()) < r.all().len() && *r.all()[rmi3(w, i, j, self.nr(), self.nc())] == self.g(w, i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn map<U, F: Fn(&T) -> U>(&self, f: F) -> (r: Array3<U>)
        requires
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> call_requires(f, (&#[trigger] self.g(w, i, j),)),
        ensures
            r.np() == self.np(),
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|w: int, i: int, j: int| #![trigger r.g(w, i, j)] vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> call_ensures(f, (&self.g(w, i, j),), r.g(w, i, j)),
    {
        unimplemented!()
    }

}

impl<T: Ring> Array3<T> {
    #[verifier::external_body]
    pub fn zeros<S: VShape3>(n: S) -> (r: Self)
        ensures
            r.np() == n.s0(),
            r.nr() == n.s1(),
            r.nc() == n.s2(),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.np(), r.nr(), r.nc()) ==> #[trigger] r.g(w, i, j) == T::z(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn eq(&self, o: &Self) -> (b: bool)
        ensures
            b == (self.np() == o.np() && self.nr() == o.nr() && self.nc() == o.nc() && same_g(self, o)),
    {
        unimplemented!()
    }

}

pub open spec fn same_g<T>(x: &Array3<T>, y: &Array3<T>) -> bool {
    forall|w: int, i: int, j: int| vin3(w, i, j, x.np(), x.nr(), x.nc()) ==> #[trigger] x.g(w, i, j) == y.g(w, i, j)
}

impl<'a, 'b, T: Ring> Add<&'b Array3<T>> for &'a Array3<T> {
    type Output = Array3<T>;

    #[verifier::external_body]
    fn add(self, rhs: &'b Array3<T>) -> (r: Array3<T>)
        ensures
            r.np() == self.np(),
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> #[trigger] r.g(w, i, j) == T::a(self.g(w, i, j), rhs.g(w, i, j)),
    {
        unimplemented!()
    }
}

impl<'a, 'b, T: Ring> AddSpecImpl<&'b Array3<T>> for &'a Array3<T> {
    open spec fn obeys_add_spec() -> bool {
        false
    }

    open spec fn add_req(self, rhs: &'b Array3<T>) -> bool {
        self.np() == rhs.np() && self.nr() == rhs.nr() && self.nc() == rhs.nc()
    }

    open spec fn add_spec(self, rhs: &'b Array3<T>) -> Array3<T> {
        arbitrary()
    }
}

impl<'a, 'b, T: Ring> Sub<&'b Array3<T>> for &'a Array3<T> {
    type Output = Array3<T>;

    #[verifier::external_body]
    fn sub(self, rhs: &'b Array3<T>) -> (r: Array3<T>)
        ensures
            r.np() == self.np(),
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> #[trigger] r.g(w, i, j) == T::s(self.g(w, i, j), rhs.g(w, i, j)),
    {
        unimplemented!()
    }
}

impl<'a, 'b, T: Ring> SubSpecImpl<&'b Array3<T>> for &'a Array3<T> {
    open spec fn obeys_sub_spec() -> bool {
        false
    }

    open spec fn sub_req(self, rhs: &'b Array3<T>) -> bool {
        self.np() == rhs.np() && self.nr() == rhs.nr() && self.nc() == rhs.nc()
    }

    open spec fn sub_spec(self, rhs: &'b Array3<T>) -> Array3<T> {
        arbitrary()
    }
}

impl<'a, T: Ring> Neg for &'a Array3<T> {
    type Output = Array3<T>;

    #[verifier::external_body]
    fn neg(self) -> (r: Array3<T>)
        ensures
            r.np() == self.np(),
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> #[trigger] r.g(w, i, j) == T::n(self.g(w, i, j)),
    {
        unimplemented!()
    }
}

impl<'a, T: Ring> NegSpecImpl for &'a Array3<T> {
    open spec fn obeys_neg_spec() -> bool {
        false
    }

    open spec fn neg_req(self) -> bool {
        true
    }

    open spec fn neg_spec(self) -> Array3<T> {
        arbitrary()
    }
}

impl<'a, T> ArrayView3<'a, T> {
    #[verifier::inline]
    pub open spec fn g(&self, w: int, i: int, j: int) -> T {
        (*self.r).g(w, i, j)
    }

    #[verifier::inline]
    pub open spec fn np(&self) -> nat {
        (*self.r).np()
    }

    #[verifier::inline]
    pub open spec fn nr(&self) -> nat {
        (*self.r).nr()
    }

    #[verifier::inline]
    pub open spec fn nc(&self) -> nat {
        (*self.r).nc()
    }

    pub open spec fn f(&self) -> spec_fn(int, int, int) -> T {
        |w: int, i: int, j: int| self.g(w, i, j)
    }

    #[verifier::external_body]
    pub fn dim(&self) -> (r: (usize, usize, usize))
        ensures
            r.0 == self.np(),
            r.1 == self.nr(),
            r.2 == self.nc(),
            self.np() * self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: (usize, usize, usize)) -> (r: &T)
        requires
            vin3(i.0 as int, i.1 as int, i.2 as int, self.np(), self.nr(), self.nc()),
        ensures
            *r == self.g(i.0 as int, i.1 as int, i.2 as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_at(self, ax: Axis, n: usize) -> (r: (ArrayView3<'a, T>, ArrayView3<'a, T>))
        requires
            ax.0 == 0,
            n <= self.np(),
        ensures
            r.0.np() == n,
            r.1.np() == self.np() - n,
            r.0.nr() == self.nr(),
            r.0.nc() == self.nc(),
            r.1.nr() == self.nr(),
            r.1.nc() == self.nc(),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.0.np(), r.0.nr(), r.0.nc()) ==> #[trigger] r.0.g(w, i, j) == self.g(w, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.1.np(), r.1.nr(), r.1.nc()) ==> #[trigger] r.1.g(w, i, j) == self.g(w + n, i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn index_axis(&self, ax: Axis, n: usize) -> (r: ArrayView2<'a, T>)
        requires
            ax.0 == 0,
            n < self.np(),
        ensures
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(n as int, i, j),
            r.f() == pl(self.f(), n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn axis_iter<'b>(&'b self, ax: Axis) -> (r: CIter<ArrayView2<'b, T>>)
        requires
            ax.0 == 0,
        ensures
            r.pos() == 0,
            r.all().len() == self.np(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> r.all()[k].nr() == self.nr() && r.all()[k].nc() == self.nc(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> r.all()[k].f() == pl(self.f(), k),
            forall|k: int, i: int, j: int| 0 <= k < r.all().len() && vin2(i, j, self.nr(), self.nc()) ==> #[trigger] r.all()[k].g(i, j) == self.g(k, i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Array3<T>)
        ensures
            r.np() == self.np(),
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            r.f() == self.f(),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> #[trigger] r.g(w, i, j) == self.g(w, i, j),
    {
        unimplemented!()
    }

}

impl<'a, T> ArrayViewMut3<'a, T> {
    #[verifier::inline]
    pub open spec fn g(&self, w: int, i: int, j: int) -> T {
        (*self.r).g(w, i, j)
    }

    #[verifier::inline]
    pub open spec fn np(&self) -> nat {
        (*self.r).np()
    }

    #[verifier::inline]
    pub open spec fn nr(&self) -> nat {
        (*self.r).nr()
    }

    #[verifier::inline]
    pub open spec fn nc(&self) -> nat {
        (*self.r).nc()
    }

    pub open spec fn f(&self) -> spec_fn(int, int, int) -> T {
        |w: int, i: int, j: int| self.g(w, i, j)
    }

    #[verifier::inline]
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> VData3<T> {
        *final(self.r)
    }

    #[verifier::inline]
    #[verifier::prophetic]
    pub open spec fn fing(&self, w: int, i: int, j: int) -> T {
        (*final(self.r)).g(w, i, j)
    }

    #[verifier::external_body]
    pub fn dim(&self) -> (r: (usize, usize, usize))
        ensures
            r.0 == self.np(),
            r.1 == self.nr(),
            r.2 == self.nc(),
            self.np() * self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: (usize, usize, usize)) -> (r: &T)
        requires
            vin3(i.0 as int, i.1 as int, i.2 as int, self.np(), self.nr(), self.nc()),
        ensures
            *r == self.g(i.0 as int, i.1 as int, i.2 as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_set(&mut self, i: (usize, usize, usize), x: T)
        requires
            vin3(i.0 as int, i.1 as int, i.2 as int, old(self).np(), old(self).nr(), old(self).nc()),
        ensures
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|w: int, k: int, l: int| vin3(w, k, l, old(self).np(), old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(w, k, l) == if w == i.0 && k == i.1 && l == i.2 { x } else { old(self).g(w, k, l) },
            final(self).fin() == old(self).fin(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view_mut<'b>(&'b mut self) -> (r: ArrayViewMut3<'b, T>)
        ensures
            r.np() == old(self).np(),
            r.nr() == old(self).nr(),
            r.nc() == old(self).nc(),
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            r.f() == old(self).f(),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.np(), r.nr(), r.nc()) ==> #[trigger] r.g(w, i, j) == old(self).g(w, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.np(), r.nr(), r.nc()) ==> #[trigger] final(self).g(w, i, j) == r.fing(w, i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_at(self, ax: Axis, n: usize) -> (r: (ArrayViewMut3<'a, T>, ArrayViewMut3<'a, T>))
        requires
            ax.0 == 0,
            n <= self.np(),
        ensures
            r.0.np() == n,
            r.1.np() == self.np() - n,
            r.0.nr() == self.nr(),
            r.0.nc() == self.nc(),
            r.1.nr() == self.nr(),
            r.1.nc() == self.nc(),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.0.np(), r.0.nr(), r.0.nc()) ==> #[trigger] r.0.g(w, i, j) == self.g(w, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, r.1.np(), r.1.nr(), r.1.nc()) ==> #[trigger] r.1.g(w, i, j) == self.g(w + n, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, self.np(), self.nr(), self.nc()) ==> #[trigger] self.fing(w, i, j) == if w < n { r.0.fing(w, i, j) } else { r.1.fing(w - n, i, j) },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn index_axis<'b>(&'b self, ax: Axis, n: usize) -> (r: ArrayView2<'b, T>)
        requires
            ax.0 == 0,
            n < self.np(),
        ensures
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(n as int, i, j),
            r.f() == pl(self.f(), n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn index_axis_mut<'b>(&'b mut self, ax: Axis, n: usize) -> (r: ArrayViewMut2<'b, T>)
        requires
            ax.0 == 0,
            n < old(self).np(),
        ensures
            r.nr() == old(self).nr(),
            r.nc() == old(self).nc(),
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == old(self).g(n as int, i, j),
            forall|w: int, i: int, j: int| vin3(w, i, j, old(self).np(), old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(w, i, j) == if w == n { r.fing(i, j) } else { old(self).g(w, i, j) },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter_mut<'b>(&'b mut self) -> (r: CIter<((usize, usize, usize), &'b mut T)>)
        ensures
            r.pos() == 0,
            final(self).np() == old(self).np(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> vin3(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int, old(self).np(), old(self).nr(), old(self).nc()) && *r.all()[k].1 == old(self).g(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int) && *final(r.all()[k].1) == final(self).g(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int) && k == rmi3(r.all()[k].0.0 as int, r.all()[k].0.1 as int, r.all()[k].0.2 as int, old(self).nr(), old(self).nc()),
            forall|w: int, i: int, j: int| vin3(w, i, j, old(self).np(), old(self).nr(), old(self).nc()) ==> 0 <= #[trigger] rmi3(w, i, j, old(self).nr(), old(self).nc()) < r.all().len() && r.all()[rmi3(w, i, j, old(self).nr(), old(self).nc())].0.0 == w && r.all()[rmi3(w, i, j, old(self).nr(), old(self).nc())].0.1 == i && r.all()[rmi3(w, i, j, old(self).nr(), old(self).nc())].0.2 == j,
    {
        unimplemented!()
    }

}

impl<'a, T: Ring> ArrayView2<'a, T> {
    #[verifier::external_body]
    pub fn dot<M: VMat<T>>(&self, o: &M) -> (r: Array2<T>)
        requires
            self.nc() == o.mr(),
        ensures
            r.nr() == self.nr(),
            r.nc() == o.mc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == mm(self.f(), o.mf(), self.nc(), i, j),
    {
        unimplemented!()
    }

}

impl<'a, T> ArrayView2<'a, T> {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: Array2<T>)
        ensures
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(i, j),
    {
        unimplemented!()
    }

}

#[derive(Debug)]
pub struct VShapeError {}

impl<T> Array2<T> {
    #[verifier::external_body]
    pub fn into_shape_clone<S: VShape3>(self, n: S) -> (r: Result<Array3<T>, VShapeError>)
        ensures
            r is Ok == (n.s0() * n.s1() * n.s2() == self.nr() * self.nc()),
            r is Ok ==> r->Ok_0.np() == n.s0() && r->Ok_0.nr() == n.s1() && r->Ok_0.nc() == n.s2(),
            r is Ok && n.s0() == 1 && n.s1() == self.nr() && n.s2() == self.nc() ==> forall|i: int, j: int| vin2(i, j, self.nr(), self.nc()) ==> #[trigger] r->Ok_0.g(0, i, j) == self.g(i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn shape(&self) -> (r: VSides)
        ensures
            r.a == self.nr(),
            r.b == self.nc(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn axis_iter<'b>(&'b self, ax: Axis) -> (r: CIter<ArrayView1<'b, T>>)
        requires
            ax.0 == 0,
        ensures
            r.pos() == 0,
            r.all().len() == self.nr(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> r.all()[k].v() == Seq::new(self.nc(), |j: int| self.g(k, j)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn append(&mut self, ax: Axis, o: ArrayView2<T>) -> (r: Result<(), VShapeError>)
        requires
            ax.0 == 0,
        ensures
            r is Ok == (o.nc() == old(self).nc()),
            r is Ok ==> final(self).nr() == old(self).nr() + o.nr() && final(self).nc() == old(self).nc(),
            r is Ok ==> forall|i: int, j: int| vin2(i, j, final(self).nr(), final(self).nc()) ==> #[trigger] final(self).g(i, j) == if i < old(self).nr() { old(self).g(i, j) } else { o.g(i - old(self).nr(), j) },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn swap(&mut self, x: (usize, usize), y: (usize, usize))
        requires
            vin2(x.0 as int, x.1 as int, old(self).nr(), old(self).nc()),
            vin2(y.0 as int, y.1 as int, old(self).nr(), old(self).nc()),
        ensures
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|i: int, j: int| vin2(i, j, old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(i, j) == if i == x.0 && j == x.1 { old(self).g(y.0 as int, y.1 as int) } else if i == y.0 && j == y.1 { old(self).g(x.0 as int, x.1 as int) } else { old(self).g(i, j) },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn slice<'b>(&'b self, s: ((usize, usize), (usize, usize))) -> (r: ArrayView2<'b, T>)
        requires
            s.0.0 <= s.0.1 <= self.nr(),
            s.1.0 <= s.1.1 <= self.nc(),
        ensures
            r.nr() == s.0.1 - s.0.0,
            r.nc() == s.1.1 - s.1.0,
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(i + s.0.0, j + s.1.0),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn slice_mut<'b>(&'b mut self, s: ((usize, usize), (usize, usize))) -> (r: ArrayViewMut2<'b, T>)
        requires
            s.0.0 <= s.0.1 <= old(self).nr(),
            s.1.0 <= s.1.1 <= old(self).nc(),
        ensures
            r.nr() == s.0.1 - s.0.0,
            r.nc() == s.1.1 - s.1.0,
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == old(self).g(i + s.0.0, j + s.1.0),
            forall|i: int, j: int| vin2(i, j, old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(i, j) == if s.0.0 <= i < s.0.1 && s.1.0 <= j < s.1.1 { r.fing(i - s.0.0, j - s.1.0) } else { old(self).g(i, j) },
    {
        unimplemented!()
    }

}

impl<T: Ring> Array2<T> {
    #[verifier::external_body]
    pub fn default(n: (usize, usize)) -> (r: Self)
        ensures
            r.nr() == n.0,
            r.nc() == n.1,
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == T::z(),
    {
        unimplemented!()
    }

}

impl<'a, T> ArrayViewMut2<'a, T> {
    #[verifier::external_body]
    pub fn assign<M: VMat<T>>(&mut self, m: &M)
        requires
            m.mr() == old(self).nr(),
            m.mc() == old(self).nc(),
        ensures
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|i: int, j: int| vin2(i, j, old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(i, j) == m.mg(i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter_mut<'b>(&'b mut self) -> (r: CIter<((usize, usize), &'b mut T)>)
        ensures
            r.pos() == 0,
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|k: int| #![trigger r.all()[k]] 0 <= k < r.all().len() ==> vin2(r.all()[k].0.0 as int, r.all()[k].0.1 as int, old(self).nr(), old(self).nc()) && *r.all()[k].1 == old(self).g(r.all()[k].0.0 as int, r.all()[k].0.1 as int) && *final(r.all()[k].1) == final(self).g(r.all()[k].0.0 as int, r.all()[k].0.1 as int) && k == rmi(r.all()[k].0.0 as int, r.all()[k].0.1 as int, old(self).nc()),
            forall|i: int, j: int| vin2(i, j, old(self).nr(), old(self).nc()) ==> 0 <= #[trigger] rmi(i, j, old(self).nc()) < r.all().len() && r.all()[rmi(i, j, old(self).nc())].0.0 == i && r.all()[rmi(i, j, old(self).nc())].0.1 == j,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter_mut<'b>(&'b mut self) -> (r: CIter<&'b mut T>)
        ensures
            r.pos() == 0,
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|i: int, j: int| #![trigger rmi(i, j, old(self).nc())] #![trigger final(self).g(i, j)] vin2(i, j, old(self).nr(), old(self).nc()) ==> 0 <= rmi(i, j, old(self).nc()) < r.all().len() && *r.all()[rmi(i, j, old(self).nc())] == old(self).g(i, j) && *final(r.all()[rmi(i, j, old(self).nc())]) == final(self).g(i, j),
    {
        unimplemented!()
    }

}

impl<'a, T> ArrayView1<'a, T> {
    #[verifier::external_body]
    pub fn slice(&self, s: (usize, usize)) -> (r: ArrayView1<'a, T>)
        requires
            s.0 <= s.1 <= self.v().len(),
        ensures
            r.v() == self.v().subrange(s.0 as int, s.1 as int),
    {
        unimplemented!()
    }

}

impl<'a, T> ArrayViewMut1<'a, T> {
    #[verifier::external_body]
    pub fn slice_mut<'b>(&'b mut self, s: (usize, usize)) -> (r: ArrayViewMut1<'b, T>)
        requires
            s.0 <= s.1 <= old(self).v().len(),
        ensures
            r.v() == old(self).v().subrange(s.0 as int, s.1 as int),
            r.fin().len() == r.v().len(),
            final(self).fin() == old(self).fin(),
            final(self).v() == old(self).v().subrange(0, s.0 as int) + r.fin() + old(self).v().subrange(s.1 as int, old(self).v().len() as int),
    {
        unimplemented!()
    }

}

pub fn v_eq3(a: (usize, usize, usize), b: (usize, usize, usize)) -> (r: bool)
    ensures
        r == (a.0 == b.0 && a.1 == b.1 && a.2 == b.2),
{
    a.0 == b.0 && a.1 == b.1 && a.2 == b.2
}

pub fn v_ne3(a: (usize, usize, usize), b: (usize, usize, usize)) -> (r: bool)
    ensures
        r == !(a.0 == b.0 && a.1 == b.1 && a.2 == b.2),
{
    !v_eq3(a, b)
}

pub trait VRes<X, E>: Sized {
    spec fn okv(self) -> Option<X>;

    fn v_ok(self) -> (r: Option<X>)
        ensures
            r == self.okv(),
    ;

    fn v_or<F>(self, o: Result<X, F>) -> (r: Result<X, F>)
        ensures
            r == match self.okv() {
                Some(x) => Ok(x),
                None => o,
            },
    ;
}

impl<X, E> VRes<X, E> for Result<X, E> {
    open spec fn okv(self) -> Option<X> {
        match self {
            Ok(x) => Some(x),
            Err(_) => None,
        }
    }

    fn v_ok(self) -> (r: Option<X>) {
        assert(self.okv() == self.okv());
        match self {
            Ok(x) => Some(x),
            Err(_) => None,
        }
    }

    fn v_or<F>(self, o: Result<X, F>) -> (r: Result<X, F>) {
        assert(self.okv() == self.okv());
        match self {
            Ok(x) => Ok(x),
            Err(_) => o,
        }
    }
}

pub struct VSides {
    pub a: usize,
    pub b: usize,
}

impl VSides {
    pub fn v_at(&self, i: usize) -> (r: &usize)
        requires
            i < 2,
        ensures
            *r == if i == 0 {
                self.a
            } else {
                self.b
            },
    {
        if i == 0 {
            &self.a
        } else {
            &self.b
        }
    }
}
