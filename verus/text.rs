// text: strings, the formatter, and what is shown of a multivector
use core::ops::Add;
use vstd::std_specs::ops::AddSpecImpl;

// ---- std::string::String
#[verifier::external_body]
pub struct String {
    s: std::string::String,
}

impl String {
    pub uninterp spec fn s(&self) -> Seq<char>;

    #[verifier::external_body]
    pub fn from(x: &str) -> (r: String)
        ensures
            r.s() == x@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures
            r@ == self.s(),
    {
        unimplemented!()
    }

    // the length in bytes is zero for the empty text only
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            (r == 0) == (self.s().len() == 0),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self.s().len() == 0),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn v_contains(&self, c: [char; 2]) -> (r: bool)
        ensures
            r == hasc(self.s(), c@[0], c@[1]),
    {
        unimplemented!()
    }
}

impl<'a> Add<&'a String> for String {
    type Output = String;

    #[verifier::external_body]
    fn add(self, o: &'a String) -> String {
        unimplemented!()
    }
}

pub uninterp spec fn mkstring(s: Seq<char>) -> String;

pub broadcast axiom fn ax_mkstring(s: Seq<char>)
    ensures
        (#[trigger] mkstring(s)).s() == s,
;

impl<'a> AddSpecImpl<&'a String> for String {
    open spec fn obeys_add_spec() -> bool {
        true
    }

    open spec fn add_req(self, o: &'a String) -> bool {
        true
    }

    open spec fn add_spec(self, o: &'a String) -> String {
        mkstring(self.s() + o.s())
    }
}

// one of two characters occurs
pub open spec fn hasc(t: Seq<char>, a: char, b: char) -> bool {
    exists|i: int| 0 <= i < t.len() && (#[trigger] t[i] == a || t[i] == b)
}

// decimal digits
pub open spec fn dig(d: nat) -> char {
    (48 + d) as u8 as char
}

pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 {
        seq![dig(n)]
    } else {
        dec(n / 10).push(dig(n % 10))
    }
}

pub trait VToString {
    spec fn txt(&self) -> Seq<char>;

    fn v_to_string(&self) -> (r: String)
        ensures
            r.s() == self.txt(),
    ;
}

impl VToString for usize {
    open spec fn txt(&self) -> Seq<char> {
        dec(*self as nat)
    }

    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

impl VToString for str {
    open spec fn txt(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn v_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

// texts joined by a separator
pub open spec fn joined(q: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases q.len(),
{
    if q.len() == 0 {
        Seq::empty()
    } else if q.len() == 1 {
        q[0]
    } else {
        joined(q.drop_last(), sep) + sep + q.last()
    }
}

pub open spec fn texts(q: Seq<String>) -> Seq<Seq<char>> {
    Seq::new(q.len(), |i: int| q[i].s())
}

// ghost provenance of a joined text
pub uninterp spec fn jsrc(r: String) -> CIter<String>;

impl CIter<String> {
    #[verifier::external_body]
    pub fn join(self, sep: &str) -> (r: String)
        requires
            self.pos() == 0,
        ensures
            r.s() == joined(texts(self.all()), sep@),
            jsrc(r) == self,
    {
        unimplemented!()
    }
}

// ---- core::fmt
// the formatting parameters a formatter carries (fill, width, precision, flags)
#[verifier::external_body]
pub struct Params {
    p: usize,
}

pub uninterp spec fn fp_plain() -> Params;

pub uninterp spec fn fp_alt(p: Params) -> bool;

pub uninterp spec fn fp_plus(p: Params) -> bool;

#[verifier::external_body]
pub struct Formatter<'a> {
    p: core::marker::PhantomData<&'a usize>,
}

#[verifier::external_body]
pub struct FmtError {
    p: usize,
}

pub type FmtResult = Result<(), FmtError>;

// after a successful write of t
pub open spec fn wrote(f0: Formatter, f1: Formatter, r: FmtResult, t: Seq<char>) -> bool {
    &&& f1.params() == f0.params()
    &&& r is Ok ==> f1.out() == f0.out() + t
}

impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<char>;

    pub uninterp spec fn params(&self) -> Params;

    #[verifier::external_body]
    pub fn write_str(&mut self, x: &str) -> (r: FmtResult)
        ensures
            wrote(*old(self), *final(self), r, x@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn write_char(&mut self, x: char) -> (r: FmtResult)
        ensures
            wrote(*old(self), *final(self), r, seq![x]),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn alternate(&self) -> (r: bool)
        ensures
            r == fp_alt(self.params()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn sign_plus(&self) -> (r: bool)
        ensures
            r == fp_plus(self.params()),
    {
        unimplemented!()
    }
}

// the text of a coefficient is a function of its value and of the parameters
pub trait Display {
    spec fn dtext(&self, p: Params) -> Seq<char>;

    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult)
        ensures
            wrote(*old(f), *final(f), r, self.dtext(old(f).params())),
    ;
}

pub trait LowerExp {
    spec fn etext(&self, p: Params) -> Seq<char>;

    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult)
        ensures
            wrote(*old(f), *final(f), r, self.etext(old(f).params())),
    ;
}

pub trait UpperExp {
    spec fn utext(&self, p: Params) -> Seq<char>;

    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult)
        ensures
            wrote(*old(f), *final(f), r, self.utext(old(f).params())),
    ;
}

impl Display for String {
    // padding and truncation of a string are not used
    uninterp spec fn dtext(&self, p: Params) -> Seq<char>;

    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) {
        unimplemented!()
    }
}

pub broadcast axiom fn ax_plain(x: String)
    ensures
        (#[trigger] x.dtext(fp_plain())) == x.s(),
;

#[verifier::external_body]
pub fn v_fmt_d<X: Display>(x: &X) -> (r: String)
    ensures
        r.s() == x.dtext(fp_plain()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn v_fmt_e<X: LowerExp>(x: &X) -> (r: String)
    ensures
        r.s() == x.etext(fp_plain()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn v_fmt_u<X: UpperExp>(x: &X) -> (r: String)
    ensures
        r.s() == x.utext(fp_plain()),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn v_wrap(a: &str, x: String, b: &str) -> (r: String)
    ensures
        r.s() == a@ + x.s() + b@,
{
    unimplemented!()
}

// ---- what is shown
// names of the set bits below k, in descending and in ascending order
pub open spec fn nmdesc(idx: usize, nm: spec_fn(int) -> Seq<char>, k: nat) -> Seq<Seq<char>>
    decreases k,
{
    if k == 0 {
        Seq::empty()
    } else if bit(idx, (k - 1) as nat) {
        seq![nm(k - 1)] + nmdesc(idx, nm, (k - 1) as nat)
    } else {
        nmdesc(idx, nm, (k - 1) as nat)
    }
}

pub open spec fn nmasc(idx: usize, nm: spec_fn(int) -> Seq<char>, k: nat) -> Seq<Seq<char>>
    decreases k,
{
    if k == 0 {
        Seq::empty()
    } else if bit(idx, (k - 1) as nat) {
        nmasc(idx, nm, (k - 1) as nat).push(nm(k - 1))
    } else {
        nmasc(idx, nm, (k - 1) as nat)
    }
}

// the ascending names are the descending ones in reversed order
pub proof fn th_label_rev(idx: usize, nm: spec_fn(int) -> Seq<char>, k: nat)
    ensures
        nmasc(idx, nm, k) == nmdesc(idx, nm, k).reverse(),
    decreases k,
{
    if k > 0 {
        th_label_rev(idx, nm, (k - 1) as nat);
        let d = nmdesc(idx, nm, (k - 1) as nat);
        if bit(idx, (k - 1) as nat) {
            assert(d.reverse().push(nm(k - 1)) =~= (seq![nm(k - 1)] + d).reverse());
        }
    } else {
        assert(Seq::<Seq<char>>::empty() =~= Seq::<Seq<char>>::empty().reverse());
    }
}

// a filter of 0..k by the bits of idx, mapped by the names
pub proof fn l_asc(idx: usize, nm: spec_fn(int) -> Seq<char>, s: Seq<usize>, fl: Seq<bool>, t: Seq<Seq<char>>)
    requires
        s.len() == fl.len() <= 64,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == i,
        forall|i: int| 0 <= i < fl.len() ==> #[trigger] fl[i] == bit(idx, i as nat),
        t.len() == sel(s, fl).len(),
        forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] == nm(sel(s, fl)[j] as int),
    ensures
        t == nmasc(idx, nm, s.len()),
    decreases s.len(),
{
    l_selidx(fl);
    if s.len() > 0 {
        let (s1, f1) = (s.drop_last(), fl.drop_last());
        l_selidx(f1);
        let n1 = sel(s1, f1).len();
        let t1 = t.take(n1 as int);
        assert forall|j: int| 0 <= j < n1 implies #[trigger] t1[j] == nm(sel(s1, f1)[j] as int) by {
            assert(selidx(fl)[j] == selidx(f1)[j]);
            assert(sel(s, fl)[j] == sel(s1, f1)[j]);
        }
        l_asc(idx, nm, s1, f1, t1);
        if fl.last() {
            assert(sel(s, fl)[n1 as int] == s[s.len() - 1]);
            assert(t =~= t1.push(nm(s.len() - 1)));
        } else {
            assert(t =~= t1);
        }
    } else {
        assert(t =~= Seq::<Seq<char>>::empty());
    }
}

// a filter of (0..k).rev() by the bits of idx: stated for the part from d down to k
pub open spec fn nmfrom(idx: usize, nm: spec_fn(int) -> Seq<char>, d: nat, k: nat) -> Seq<Seq<char>>
    decreases d - k,
{
    if k >= d {
        Seq::empty()
    } else if bit(idx, k) {
        nmfrom(idx, nm, d, k + 1).push(nm(k as int))
    } else {
        nmfrom(idx, nm, d, k + 1)
    }
}

pub proof fn l_from(idx: usize, nm: spec_fn(int) -> Seq<char>, d: nat, k: nat)
    requires
        k <= d,
    ensures
        nmfrom(idx, nm, d, k) + nmdesc(idx, nm, k) == nmdesc(idx, nm, d),
    decreases d - k,
{
    if k < d {
        l_from(idx, nm, d, k + 1);
        let (a, b) = (nmfrom(idx, nm, d, k + 1), nmdesc(idx, nm, k));
        if bit(idx, k) {
            assert(a.push(nm(k as int)) + b =~= a + (seq![nm(k as int)] + b));
        }
    } else {
        assert(Seq::<Seq<char>>::empty() + nmdesc(idx, nm, k) =~= nmdesc(idx, nm, k));
    }
}

pub proof fn l_desc(idx: usize, nm: spec_fn(int) -> Seq<char>, d: nat, s: Seq<usize>, fl: Seq<bool>, t: Seq<Seq<char>>)
    requires
        s.len() == fl.len() <= d <= 64,
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == d - 1 - i,
        forall|i: int| 0 <= i < fl.len() ==> #[trigger] fl[i] == bit(idx, (d - 1 - i) as nat),
        t.len() == sel(s, fl).len(),
        forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] == nm(sel(s, fl)[j] as int),
    ensures
        t == nmfrom(idx, nm, d, (d - s.len()) as nat),
    decreases s.len(),
{
    l_selidx(fl);
    if s.len() > 0 {
        let (s1, f1) = (s.drop_last(), fl.drop_last());
        l_selidx(f1);
        let n1 = sel(s1, f1).len();
        let t1 = t.take(n1 as int);
        assert forall|j: int| 0 <= j < n1 implies #[trigger] t1[j] == nm(sel(s1, f1)[j] as int) by {
            assert(selidx(fl)[j] == selidx(f1)[j]);
            assert(sel(s, fl)[j] == sel(s1, f1)[j]);
        }
        l_desc(idx, nm, d, s1, f1, t1);
        if fl.last() {
            assert(sel(s, fl)[n1 as int] == s[s.len() - 1]);
            assert(t =~= t1.push(nm(d - s.len())));
        } else {
            assert(t =~= t1);
        }
    } else {
        assert(t =~= Seq::<Seq<char>>::empty());
    }
}

// one term: the coefficient, in parentheses when asked for signs or when it shows one, then the label
pub open spec fn term(body: Seq<char>, paren: bool, lbl: Seq<char>) -> Seq<char> {
    (if paren {
        seq!['('] + body + seq![')']
    } else {
        body
    }) + (if lbl.len() > 0 {
        seq![' '] + lbl
    } else {
        Seq::empty()
    })
}

pub open spec fn joined_push(q: Seq<Seq<char>>, sep: Seq<char>, t: Seq<char>) -> Seq<char> {
    joined(q, sep) + (if q.len() > 0 {
        sep + t
    } else {
        t
    })
}

pub proof fn l_joined_push(q: Seq<Seq<char>>, sep: Seq<char>, t: Seq<char>)
    ensures
        joined(q.push(t), sep) == joined_push(q, sep, t),
{
    assert(q.push(t).drop_last() =~= q);
    if q.len() > 0 {
        assert(joined(q, sep) + sep + t =~= joined(q, sep) + (sep + t));
    } else {
        assert(q.push(t)[0] == t);
        assert(Seq::<char>::empty() + t =~= t);
    }
}

// the non-zero pairs of an enumeration
pub open spec fn nz<T: Ring>(s: Seq<(usize, &T)>, k: int) -> Seq<(usize, &T)>
    decreases k,
{
    if k <= 0 {
        Seq::empty()
    } else if *s[k - 1].1 == T::z() {
        nz(s, k - 1)
    } else {
        nz(s, k - 1).push(s[k - 1])
    }
}

pub proof fn l_nz<T: Ring>(s: Seq<(usize, &T)>, k: int)
    requires
        0 <= k <= s.len(),
        distinct(s),
    ensures
        distinct(nz(s, k)),
        forall|j: int| 0 <= j < nz(s, k).len() ==> *(#[trigger] nz(s, k)[j]).1 != T::z(),
        forall|j: int| 0 <= j < nz(s, k).len() ==> exists|i: int| 0 <= i < k && s[i] == #[trigger] nz(s, k)[j],
        forall|i: int| 0 <= i < k && *(#[trigger] s[i]).1 != T::z() ==> nz(s, k).contains(s[i]),
    decreases k,
{
    if k > 0 {
        l_nz(s, k - 1);
        let (a, b) = (nz(s, k - 1), nz(s, k));
        assert forall|j: int| 0 <= j < b.len() implies exists|i: int| 0 <= i < k && s[i] == #[trigger] b[j] by {
            if j < a.len() {
                assert(b[j] == a[j]);
                let i = choose|i: int| 0 <= i < k - 1 && s[i] == a[j];
                assert(s[i] == b[j]);
            } else {
                assert(s[k - 1] == b[j]);
            }
        }
        assert forall|j: int, m: int| 0 <= j < m < b.len() implies (#[trigger] b[j]).0 != (#[trigger] b[m]).0 by {
            assert(b[j] == a[j]);
            if m < a.len() {
                assert(b[m] == a[m]);
            } else {
                let i = choose|i: int| 0 <= i < k - 1 && s[i] == a[j];
                assert(s[i].0 != s[k - 1].0);
            }
        }
        assert forall|i: int| 0 <= i < k && *(#[trigger] s[i]).1 != T::z() implies b.contains(s[i]) by {
            if i < k - 1 {
                let j = choose|j: int| 0 <= j < a.len() && a[j] == s[i];
                assert(b[j] == s[i]);
            } else {
                assert(b[b.len() - 1] == s[i]);
            }
        }
    }
}

// the pairs shown are the non-zero coefficients, each once
pub proof fn th_terms<T: Ring>(s: Seq<(usize, &T)>, v: Seq<T>)
    requires
        enums(s, v),
    ensures
        distinct(nz(s, s.len() as int)),
        forall|j: int|
            0 <= j < nz(s, s.len() as int).len() ==> {
                let p = #[trigger] nz(s, s.len() as int)[j];
                p.0 < v.len() && *p.1 == v[p.0 as int] && *p.1 != T::z()
            },
        forall|i: int|
            0 <= i < v.len() && #[trigger] v[i] != T::z() ==> done(nz(s, s.len() as int), nz(s, s.len() as int).len() as int, i),
        nz(s, s.len() as int).len() == 0 ==> v == zeros::<T>(v.len()),
        v == zeros::<T>(v.len()) ==> nz(s, s.len() as int).len() == 0,
{
    let n = s.len() as int;
    l_nz(s, n);
    let b = nz(s, n);
    assert forall|j: int| 0 <= j < b.len() implies {
        let p = #[trigger] b[j];
        p.0 < v.len() && *p.1 == v[p.0 as int] && *p.1 != T::z()
    } by {
        let i = choose|i: int| 0 <= i < n && s[i] == b[j];
        assert(s[i].0 < v.len());
    }
    assert forall|i: int| 0 <= i < v.len() && #[trigger] v[i] != T::z() implies done(b, b.len() as int, i) by {
        assert(done(s, n, i));
        let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0 == i;
        assert(b.contains(s[j]));
        let m = choose|m: int| 0 <= m < b.len() && b[m] == s[j];
        assert(b[m].0 == i);
    }
    if b.len() == 0 {
        assert forall|i: int| 0 <= i < v.len() implies v[i] == zeros::<T>(v.len())[i] by {
            if v[i] != T::z() {
                assert(done(b, b.len() as int, i));
            }
        }
        assert(v =~= zeros::<T>(v.len()));
    }
    if v == zeros::<T>(v.len()) && b.len() > 0 {
        let p = b[0];
        assert(*p.1 == v[p.0 as int]);
    }
}

pub proof fn l_bit_at(x: usize, k: usize)
    requires
        k < 64,
    ensures
        (x & (1usize << k) != 0) == bit(x, k as nat),
{
    assert((x & (1usize << k) != 0) == ((x >> k) & 1 == 1)) by (bit_vector)
        requires
            k < 64,
    ;
}

// what a filter keeps is among what it was given
pub broadcast proof fn b_sel<X>(s: Seq<X>, fl: Seq<bool>, j: int)
    requires
        0 <= j < sel(s, fl).len(),
    ensures
        #![trigger sel(s, fl)[j]]
        0 <= selidx(fl)[j] < fl.len(),
        sel(s, fl)[j] == s[selidx(fl)[j]],
{
    l_selidx(fl);
}

// the pieces written for one term, one after the other
pub open spec fn piece(o: Seq<char>, on: bool, t: Seq<char>) -> Seq<char> {
    if on {
        o + t
    } else {
        o
    }
}

pub proof fn l_written(o0: Seq<char>, j: Seq<char>, more: bool, sep: Seq<char>, body: Seq<char>, paren: bool, lbl: Seq<char>, o: Seq<char>)
    requires
        ({
            let a = piece(o0 + j, more, sep);
            let b = piece(piece(a, paren, seq!['(']) + body, paren, seq![')']);
            o == piece(piece(b, lbl.len() > 0, seq![' ']), lbl.len() > 0, lbl)
        }),
    ensures
        o == o0 + (j + (if more {
            sep + term(body, paren, lbl)
        } else {
            term(body, paren, lbl)
        })),
{
    let a = piece(o0 + j, more, sep);
    let b = piece(piece(a, paren, seq!['(']) + body, paren, seq![')']);
    let w = if paren {
        seq!['('] + body + seq![')']
    } else {
        body
    };
    assert(b =~= a + w);
    let e = if lbl.len() > 0 {
        seq![' '] + lbl
    } else {
        Seq::<char>::empty()
    };
    assert(o =~= b + e);
    let t = term(body, paren, lbl);
    assert(t == w + e);
    assert(o =~= a + t);
    if more {
        assert(o =~= o0 + (j + (sep + t)));
    } else {
        assert(o =~= o0 + (j + t));
    }
}
