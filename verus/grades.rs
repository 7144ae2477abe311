// ---- indices of a given weight below 2^len, in the order the grade iterator produces them
pub open spec fn gall(len: int, w: nat) -> Seq<usize>
    decreases len,
{
    if len < w || len < 0 {
        Seq::empty()
    } else if w == 0 {
        seq![0usize]
    } else {
        gtop(gall(len - 1, (w - 1) as nat), len - 1) + gall(len - 1, w)
    }
}

pub open spec fn gtop(s: Seq<usize>, pos: int) -> Seq<usize> {
    Seq::new(s.len(), |i: int| (1usize << (pos as usize)) | s[i])
}

pub proof fn l_bit_top(p: usize, x: usize, i: usize)
    requires
        p < 64,
        i < 64,
        x < (1usize << p),
    ensures
        bit((1usize << p) | x, i as nat) == (i == p || bit(x, i as nat)),
        !bit(x, p as nat),
        (1usize << p) <= (1usize << p) | x,
        p < 63 ==> (1usize << p) | x < (1usize << ((p + 1) as usize)),
{
    assert(((((1usize << p) | x) >> i) & 1 == 1) == (i == p || (x >> i) & 1 == 1)) by (bit_vector)
        requires
            p < 64,
            i < 64,
            x < (1usize << p),
    ;
    assert((x >> p) & 1 != 1) by (bit_vector)
        requires
            p < 64,
            x < (1usize << p),
    ;
    assert((1usize << p) <= (1usize << p) | x) by (bit_vector);
    if p < 63 {
        let q = (p + 1) as usize;
        assert((1usize << p) | x < (1usize << q)) by (bit_vector)
            requires
                p < 63,
                q == p + 1,
                x < (1usize << p),
        ;
    }
}

pub proof fn l_pc_top(p: usize, x: usize, n: nat)
    requires
        p < 64,
        n <= 64,
        x < (1usize << p),
    ensures
        cnt((1usize << p) | x, n) == cnt(x, n) + (if p < n { 1int } else { 0int }),
    decreases n,
{
    if n > 0 {
        l_pc_top(p, x, (n - 1) as nat);
        l_bit_top(p, x, (n - 1) as usize);
    }
}

pub proof fn l_pc_zero(n: nat)
    ensures
        cnt(0, n) == 0,
    decreases n,
{
    if n > 0 {
        l_pc_zero((n - 1) as nat);
        let i = (n - 1) as usize;
        if i < 64 {
            assert((0usize >> i) & 1 != 1) by (bit_vector);
        }
    }
}

pub proof fn l_pc_eq_zero(x: usize, n: nat, i: nat)
    requires
        cnt(x, n) == 0,
        i < n,
    ensures
        !bit(x, i),
    decreases n,
{
    if i < n - 1 {
        l_pc_eq_zero(x, (n - 1) as nat, i);
    }
}

pub proof fn l_zero_bits(x: usize)
    requires
        forall|i: nat| i < 64 ==> !#[trigger] bit(x, i),
    ensures
        x == 0,
{
    if x != 0 {
        l_low(x, 64);
    }
}

// a non-zero word has a set bit below n when it is below 2^n
pub proof fn l_low(x: usize, n: nat)
    requires
        n <= 64,
        forall|i: nat| i < 64 ==> !#[trigger] bit(x, i),
        n < 64 ==> x < (1usize << (n as usize)),
    ensures
        x == 0,
    decreases n,
{
    if n == 0 {
        assert(x < (1usize << 0usize));
        assert((1usize << 0usize) == 1) by (bit_vector);
    } else {
        let m = (n - 1) as usize;
        assert(!bit(x, m as nat));
        if n == 64 {
            assert(x < (1usize << m)) by (bit_vector)
                requires
                    m == 63,
                    (x >> m) & 1 != 1,
            ;
        } else {
            let k = n as usize;
            assert(x < (1usize << m)) by (bit_vector)
                requires
                    k < 64,
                    k >= 1,
                    m == k - 1,
                    x < (1usize << k),
                    (x >> m) & 1 != 1,
            ;
        }
        l_low(x, m as nat);
    }
}

pub proof fn l_gall(len: int, w: nat)
    requires
        len <= 63,
    ensures
        forall|j: int|
            #![trigger gall(len, w)[j]]
            0 <= j < gall(len, w).len() ==> len >= 0 && gall(len, w)[j] < (1usize << (len as usize)) && pc(gall(len, w)[j]) == w,
        forall|j: int, k: int|
            0 <= j < k < gall(len, w).len() ==> #[trigger] gall(len, w)[j] > #[trigger] gall(len, w)[k],
        forall|x: usize|
            len >= 0 && x < (1usize << (len as usize)) && #[trigger] pc(x) == w ==> gall(len, w).contains(x),
    decreases len,
{
    let g = gall(len, w);
    if len < 0 {
    } else if len < w {
        assert forall|x: usize| x < (1usize << (len as usize)) implies #[trigger] pc(x) != w by {
            l_cnt_hi(x, len as nat, 64);
            l_cnt_le(x, len as nat);
        }
    } else if w == 0 {
        l_pc_zero(64);
        let l = len as usize;
        assert(0 < (1usize << l)) by (bit_vector)
            requires
                l < 64,
        ;
        assert forall|x: usize| #[trigger] pc(x) == w implies g.contains(x) by {
            assert forall|i: nat| i < 64 implies !#[trigger] bit(x, i) by {
                l_pc_eq_zero(x, 64, i);
            }
            l_zero_bits(x);
            assert(g[0] == x);
        }
    } else {
        let p = (len - 1) as usize;
        let l = len as usize;
        let t = gall(len - 1, (w - 1) as nat);
        let u = gall(len - 1, w);
        l_gall(len - 1, (w - 1) as nat);
        l_gall(len - 1, w);
        assert((1usize << p) < (1usize << l)) by (bit_vector)
            requires
                l < 64,
                l >= 1,
                p == l - 1,
        ;
        assert forall|j: int| #![trigger g[j]] 0 <= j < g.len() implies g[j] < (1usize << l) && pc(g[j]) == w && (j
            < t.len() ==> g[j] >= (1usize << p)) && (j >= t.len() ==> g[j] < (1usize << p)) by {
            if j < t.len() {
                assert(t[j] < (1usize << p));
                assert(g[j] == (1usize << p) | t[j]);
                l_pc_top(p, t[j], 64);
                l_bit_top(p, t[j], 0);
            } else {
                assert(g[j] == u[j - t.len()]);
            }
        }
        assert forall|j: int, k: int| 0 <= j < k < g.len() implies #[trigger] g[j] > #[trigger] g[k] by {
            if k < t.len() {
                let (x, y) = (t[j], t[k]);
                assert(x > y);
                assert((1usize << p) | x > (1usize << p) | y) by (bit_vector)
                    requires
                        x > y,
                        x < (1usize << p),
                        y < (1usize << p),
                        p < 64,
                ;
            } else if j >= t.len() {
                assert(u[j - t.len()] > u[k - t.len()]);
            }
        }
        assert forall|x: usize| x < (1usize << l) && #[trigger] pc(x) == w implies g.contains(x) by {
            if x < (1usize << p) {
                assert(u.contains(x));
                let i = choose|i: int| 0 <= i < u.len() && u[i] == x;
                assert(g[t.len() + i] == x);
            } else {
                let y = x & sub1(1usize << p);
                let m = sub1(1usize << p);
                assert(1usize << p > 0) by (bit_vector)
                    requires
                        p < 64,
                ;
                assert(y < (1usize << p) && (1usize << p) | y == x) by (bit_vector)
                    requires
                        l < 64,
                        l >= 1,
                        p == l - 1,
                        x < (1usize << l),
                        x >= (1usize << p),
                        m == (1usize << p) - 1,
                        y == x & m,
                ;
                l_pc_top(p, y, 64);
                assert(pc(y) == w - 1);
                assert(t.contains(y));
                let i = choose|i: int| 0 <= i < t.len() && t[i] == y;
                assert(g[i] == x);
            }
        }
    }
}

// ---- the iterator's state
pub open spec fn ginv(g: GradeIter) -> bool
    decreases g,
{
    &&& -1000 <= g.pos < 63
    &&& match g.subiter {
        None => true,
        Some(s) => g.weight <= 64 && g.weight >= 1 && s.weight == g.weight - 1 && s.pos < g.pos && ginv(*s),
    }
}

pub open spec fn grest(g: GradeIter) -> Seq<usize>
    decreases g,
{
    if g.pos + 1 < 0 || g.pos + 1 < g.weight {
        Seq::empty()
    } else if g.weight == 0 {
        seq![0usize]
    } else {
        match g.subiter {
            None => gall(g.pos + 1, g.weight as nat),
            Some(s) => gtop(grest(*s), g.pos as int) + gall(g.pos as int, g.weight as nat),
        }
    }
}
