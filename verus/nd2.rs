// ---- stand-ins for two-dimensional ndarray arrays and views
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Array2<T> {
    v: Vec<T>,
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VData2<T> {
    v: Vec<T>,
}

impl<T> VData2<T> {
    pub uninterp spec fn g(&self, i: int, j: int) -> T;

    pub uninterp spec fn nr(&self) -> nat;

    pub uninterp spec fn nc(&self) -> nat;
}

pub struct ArrayView2<'a, T> {
    pub r: &'a VData2<T>,
}

impl<'a, T> ::core::clone::Clone for ArrayView2<'a, T> {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

impl<'a, T> ::core::marker::Copy for ArrayView2<'a, T> {

}

impl<'a, T> Clone for ArrayView2<'a, T> {
    fn v_clone(&self) -> (r: Self) {
        *self
    }
}

pub struct ArrayViewMut2<'a, T> {
    pub r: &'a mut VData2<T>,
}

// place of an entry in the order of an iterator
pub uninterp spec fn rmi(i: int, j: int, nc: nat) -> int;

pub open spec fn vin2(i: int, j: int, r: nat, c: nat) -> bool {
    0 <= i < r && 0 <= j < c
}

impl<T> Array2<T> {
    pub uninterp spec fn g(&self, i: int, j: int) -> T;

    pub uninterp spec fn nr(&self) -> nat;

    pub uninterp spec fn nc(&self) -> nat;

    pub open spec fn f(&self) -> spec_fn(int, int) -> T {
        |i: int, j: int| self.g(i, j)
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.nr() * self.nc(),
            r <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn dim(&self) -> (r: (usize, usize))
        ensures
            r.0 == self.nr(),
            r.1 == self.nc(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: (usize, usize)) -> (r: &T)
        requires
            vin2(i.0 as int, i.1 as int, self.nr(), self.nc()),
        ensures
            *r == self.g(i.0 as int, i.1 as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_set(&mut self, i: (usize, usize), x: T)
        requires
            vin2(i.0 as int, i.1 as int, old(self).nr(), old(self).nc()),
        ensures
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|k: int, l: int|
                vin2(k, l, old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(k, l) == if k == i.0 && l == i.1 {
                    x
                } else {
                    old(self).g(k, l)
                },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view<'a>(&'a self) -> (r: ArrayView2<'a, T>)
        ensures
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|i: int, j: int| vin2(i, j, self.nr(), self.nc()) ==> #[trigger] r.g(i, j) == self.g(i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view_mut<'a>(&'a mut self) -> (r: ArrayViewMut2<'a, T>)
        ensures
            r.nr() == old(self).nr(),
            r.nc() == old(self).nc(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == old(self).g(i, j),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] final(self).g(i, j) == r.fing(i, j),
    {
        unimplemented!()
    }
}

impl<T: Ring> Array2<T> {
    #[verifier::external_body]
    pub fn zeros(n: (usize, usize)) -> (r: Self)
        ensures
            r.nr() == n.0,
            r.nc() == n.1,
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == T::z(),
    {
        unimplemented!()
    }
}

impl<'a, T> ArrayView2<'a, T> {
    #[verifier::inline]
    pub open spec fn g(&self, i: int, j: int) -> T {
        self.r.g(i, j)
    }

    #[verifier::inline]
    pub open spec fn nr(&self) -> nat {
        self.r.nr()
    }

    #[verifier::inline]
    pub open spec fn nc(&self) -> nat {
        self.r.nc()
    }

    pub open spec fn f(&self) -> spec_fn(int, int) -> T {
        |i: int, j: int| self.g(i, j)
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.nr() * self.nc(),
            r <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize)
        ensures
            r == self.nr(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize)
        ensures
            r == self.nc(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn dim(&self) -> (r: (usize, usize))
        ensures
            r.0 == self.nr(),
            r.1 == self.nc(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: (usize, usize)) -> (r: &T)
        requires
            vin2(i.0 as int, i.1 as int, self.nr(), self.nc()),
        ensures
            *r == self.g(i.0 as int, i.1 as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_at(self, ax: Axis, n: usize) -> (r: (ArrayView2<'a, T>, ArrayView2<'a, T>))
        requires
            ax.0 == 0 || ax.0 == 1,
            n <= if ax.0 == 0 {
                self.nr()
            } else {
                self.nc()
            },
        ensures
            ax.0 == 0 ==> r.0.nr() == n && r.1.nr() == self.nr() - n && r.0.nc() == self.nc() && r.1.nc()
                == self.nc(),
            ax.0 == 1 ==> r.0.nc() == n && r.1.nc() == self.nc() - n && r.0.nr() == self.nr() && r.1.nr()
                == self.nr(),
            forall|i: int, j: int| vin2(i, j, r.0.nr(), r.0.nc()) ==> #[trigger] r.0.g(i, j) == self.g(i, j),
            forall|i: int, j: int|
                vin2(i, j, r.1.nr(), r.1.nc()) ==> #[trigger] r.1.g(i, j) == if ax.0 == 0 {
                    self.g(i + n, j)
                } else {
                    self.g(i, j + n)
                },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn t(&self) -> (r: ArrayView2<'a, T>)
        ensures
            r.nr() == self.nc(),
            r.nc() == self.nr(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(j, i),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn to_owned(self) -> (r: Array2<T>)
        ensures
            r.nr() == self.nr(),
            r.nc() == self.nc(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == self.g(i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn iter(&self) -> (r: CIter<&'a T>)
        ensures
            r.pos() == 0,
            r.all().len() == self.nr() * self.nc(),
            forall|k: int|
                #![trigger r.all()[k]]
                0 <= k < r.all().len() ==> *r.all()[k] == self.g(k / (self.nc() as int), k % (self.nc() as int)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn indexed_iter(&self) -> (r: CIter<((usize, usize), &'a T)>)
        ensures
            r.pos() == 0,
            r.all().len() == self.nr() * self.nc(),
            forall|k: int|
                #![trigger r.all()[k]]
                0 <= k < r.all().len() ==> vin2(
                    r.all()[k].0.0 as int,
                    r.all()[k].0.1 as int,
                    self.nr(),
                    self.nc(),
                ) && *r.all()[k].1 == self.g(r.all()[k].0.0 as int, r.all()[k].0.1 as int) && k == rmi(
                    r.all()[k].0.0 as int,
                    r.all()[k].0.1 as int,
                    self.nc(),
                ),
            forall|i: int, j: int|
                vin2(i, j, self.nr(), self.nc()) ==> 0 <= #[trigger] rmi(i, j, self.nc()) < r.all().len() && r.all()[rmi(
                    i,
                    j,
                    self.nc(),
                )].0.0 == i && r.all()[rmi(i, j, self.nc())].0.1 == j,
    {
        unimplemented!()
    }
}

impl<'a, T> ArrayViewMut2<'a, T> {
    #[verifier::inline]
    pub open spec fn g(&self, i: int, j: int) -> T {
        (*self.r).g(i, j)
    }

    #[verifier::inline]
    pub open spec fn nr(&self) -> nat {
        (*self.r).nr()
    }

    #[verifier::inline]
    pub open spec fn nc(&self) -> nat {
        (*self.r).nc()
    }

    pub open spec fn f(&self) -> spec_fn(int, int) -> T {
        |i: int, j: int| self.g(i, j)
    }

    #[verifier::inline]
    #[verifier::prophetic]
    pub open spec fn fin(&self) -> VData2<T> {
        *final(self.r)
    }

    #[verifier::inline]
    #[verifier::prophetic]
    pub open spec fn fing(&self, i: int, j: int) -> T {
        (*final(self.r)).g(i, j)
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self.nr() * self.nc(),
            r <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn nrows(&self) -> (r: usize)
        ensures
            r == self.nr(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn ncols(&self) -> (r: usize)
        ensures
            r == self.nc(),
            self.nr() * self.nc() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_at(&self, i: (usize, usize)) -> (r: &T)
        requires
            vin2(i.0 as int, i.1 as int, self.nr(), self.nc()),
        ensures
            *r == self.g(i.0 as int, i.1 as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_set(&mut self, i: (usize, usize), x: T)
        requires
            vin2(i.0 as int, i.1 as int, old(self).nr(), old(self).nc()),
        ensures
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|k: int, l: int|
                vin2(k, l, old(self).nr(), old(self).nc()) ==> #[trigger] final(self).g(k, l) == if k == i.0 && l == i.1 {
                    x
                } else {
                    old(self).g(k, l)
                },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn view_mut<'b>(&'b mut self) -> (r: ArrayViewMut2<'b, T>)
        ensures
            r.nr() == old(self).nr(),
            r.nc() == old(self).nc(),
            final(self).nr() == old(self).nr(),
            final(self).nc() == old(self).nc(),
            final(self).fin() == old(self).fin(),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] r.g(i, j) == old(self).g(i, j),
            forall|i: int, j: int| vin2(i, j, r.nr(), r.nc()) ==> #[trigger] final(self).g(i, j) == r.fing(i, j),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_at(self, ax: Axis, n: usize) -> (r: (ArrayViewMut2<'a, T>, ArrayViewMut2<'a, T>))
        requires
            ax.0 == 0 || ax.0 == 1,
            n <= if ax.0 == 0 {
                self.nr()
            } else {
                self.nc()
            },
        ensures
            ax.0 == 0 ==> r.0.nr() == n && r.1.nr() == self.nr() - n && r.0.nc() == self.nc() && r.1.nc()
                == self.nc(),
            ax.0 == 1 ==> r.0.nc() == n && r.1.nc() == self.nc() - n && r.0.nr() == self.nr() && r.1.nr()
                == self.nr(),
            forall|i: int, j: int| vin2(i, j, r.0.nr(), r.0.nc()) ==> #[trigger] r.0.g(i, j) == self.g(i, j),
            forall|i: int, j: int|
                vin2(i, j, r.1.nr(), r.1.nc()) ==> #[trigger] r.1.g(i, j) == if ax.0 == 0 {
                    self.g(i + n, j)
                } else {
                    self.g(i, j + n)
                },
            forall|i: int, j: int|
                vin2(i, j, self.nr(), self.nc()) ==> #[trigger] self.fing(i, j) == if ax.0 == 0 {
                    if i < n {
                        r.0.fing(i, j)
                    } else {
                        r.1.fing(i - n, j)
                    }
                } else {
                    if j < n {
                        r.0.fing(i, j)
                    } else {
                        r.1.fing(i, j - n)
                    }
                },
    {
        unimplemented!()
    }
}
