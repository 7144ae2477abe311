// ---- bits, counts
pub open spec fn bit(x: usize, i: nat) -> bool { i < 64 && (x >> (i as usize)) & 1 == 1 }
pub open spec fn cnt(x: usize, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { cnt(x, (n - 1) as nat) + if bit(x, (n - 1) as nat) { 1nat } else { 0nat } }
}
pub open spec fn pc(x: usize) -> nat { cnt(x, 64) }
pub open spec fn odd(n: nat) -> bool { n % 2 == 1 }
// parity of the number of pairs (p, q), p in a, q in b, p < q < n
pub open spec fn inv(a: usize, b: usize, n: nat) -> bool decreases n {
    if n == 0 { false } else {
        inv(a, b, (n - 1) as nat) != (bit(b, (n - 1) as nat) && odd(cnt(a, (n - 1) as nat)))
    }
}
pub proof fn l_cnt_le(x: usize, n: nat) ensures cnt(x, n) <= n decreases n { if n > 0 { l_cnt_le(x, (n-1) as nat); } }
pub proof fn l_cnt_bits(x: usize, y: usize, n: nat)
    requires forall|i: nat| i < n ==> bit(x, i) == bit(y, i)
    ensures cnt(x, n) == cnt(y, n) decreases n
{ if n > 0 { l_cnt_bits(x, y, (n-1) as nat); } }

// shifted overlap
pub open spec fn ov(a: usize, b: usize, s: nat, n: nat) -> nat decreases n {
    if n == 0 { 0 } else {
        ov(a, b, s, (n-1) as nat) + if n - 1 >= s && bit(a, (n - 1 - s) as nat) && bit(b, (n-1) as nat) { 1nat } else { 0 }
    }
}
pub open spec fn ovsum(a: usize, b: usize, lo: nat, hi: nat, n: nat) -> nat decreases hi {
    if hi <= lo { 0 } else { ovsum(a, b, lo, (hi-1) as nat, n) + ov(a, b, (hi-1) as nat, n) }
}
pub proof fn l_shl_bit(a: usize, b: usize, s: usize, i: usize)
    requires s < 64, i < 64
    ensures bit((a << s) & b, i as nat) == (i >= s && bit(a, (i - s) as nat) && bit(b, i as nat))
{
    if i >= s {
        let j = (i - s) as usize;
        assert((((a << s) & b) >> i) & 1 == 1 <==> ((a >> j) & 1 == 1 && (b >> i) & 1 == 1)) by (bit_vector) requires s < 64, i < 64, i >= s, j == i - s;
    } else {
        assert((((a << s) & b) >> i) & 1 == 0) by (bit_vector) requires s < 64, i < 64, i < s;
    }
}
pub proof fn l_ov_cnt(a: usize, b: usize, s: usize, n: nat)
    requires s < 64, n <= 64
    ensures cnt((a << s) & b, n) == ov(a, b, s as nat, n)
    decreases n
{
    if n > 0 { l_ov_cnt(a, b, s, (n-1) as nat); l_shl_bit(a, b, s, (n-1) as usize); }
}
pub open spec fn hits(a: usize, lo: nat, hi: nat, q: nat) -> nat decreases hi {
    // number of s in [lo,hi) with s <= q and bit(a, q-s)
    if hi <= lo { 0 } else { hits(a, lo, (hi-1) as nat, q) + if q >= hi - 1 && bit(a, (q - (hi - 1)) as nat) { 1nat } else { 0 } }
}
pub proof fn l_ovsum_step(a: usize, b: usize, lo: nat, hi: nat, n: nat)
    ensures ovsum(a, b, lo, hi, n + 1) == ovsum(a, b, lo, hi, n) + if bit(b, n) { hits(a, lo, hi, n) } else { 0 }
    decreases hi
{ if hi > lo { l_ovsum_step(a, b, lo, (hi-1) as nat, n); } }
pub proof fn l_hits(a: usize, hi: nat, q: nat)
    requires hi >= 1
    // s in [1,hi): q-s ranges over [q-hi+1, q-1]
    ensures q >= hi - 1 ==> hits(a, 1, hi, q) == cnt(a, q) - cnt(a, (q - (hi-1)) as nat),
            q < hi - 1 ==> hits(a, 1, hi, q) == cnt(a, q),
    decreases hi
{ if hi > 1 { l_hits(a, (hi-1) as nat, q); } }
pub proof fn l_ovsum_inv(a: usize, b: usize, d: nat, n: nat)
    requires n <= d, d >= 1
    ensures odd(ovsum(a, b, 1, d, n)) == inv(a, b, n)
    decreases n
{
    if n > 0 {
        l_ovsum_inv(a, b, d, (n-1) as nat);
        l_ovsum_step(a, b, 1, d, (n-1) as nat);
        l_hits(a, d, (n-1) as nat);
    } else { l_ovsum_zero(a, b, d); }
}
pub proof fn l_ovsum_zero(a: usize, b: usize, d: nat) ensures ovsum(a, b, 1, d, 0) == 0 decreases d { if d > 1 { l_ovsum_zero(a,b,(d-1) as nat); } }
pub proof fn l_hi(x: usize, d: nat, i: nat)
    requires d <= 63, (x as int) < (1usize << (d as usize)), i >= d
    ensures !bit(x, i)
{
    if i < 64 {
    let dd = d as usize; let ii = i as usize;
    assert((x >> ii) & 1 == 0) by (bit_vector) requires x < (1usize << dd), ii >= dd, ii < 64, dd < 64;
    }
}
pub proof fn l_inv_hi(a: usize, b: usize, d: nat, n: nat)
    requires d <= 63, b < (1usize << (d as usize)), n >= d
    ensures inv(a, b, n) == inv(a, b, d)
    decreases n
{ if n > d { l_inv_hi(a, b, d, (n-1) as nat); l_hi(b, d, (n-1) as nat); } }


pub proof fn l_cnt_hi(x: usize, d: nat, n: nat)
    requires d <= 63, x < (1usize << (d as usize)), n >= d
    ensures cnt(x, n) == cnt(x, d)
    decreases n
{ if n > d { l_cnt_hi(x, d, (n-1) as nat); l_hi(x, d, (n-1) as nat); } }

// upper ends of a shift-count loop running downwards: shifts hi..d-1 are done
pub open spec fn ovdown(a: usize, b: usize, lo: nat, d: nat, n: nat) -> nat
    decreases d - lo
{ if lo >= d { 0 } else { ov(a, b, lo, n) + ovdown(a, b, lo + 1, d, n) } }
pub proof fn l_ovdown_sum(a: usize, b: usize, lo: nat, d: nat, n: nat)
    requires lo <= d
    ensures ovdown(a, b, lo, d, n) + ovsum(a, b, 1, lo, n) == ovsum(a, b, 1, d, n) || lo < 1
    decreases d - lo
{ if lo < d && lo >= 1 { l_ovdown_sum(a, b, lo + 1, d, n); } }
// final step of the counting loop
pub proof fn l_count_sign(a: usize, b: usize, d: nat)
    requires 1 <= d <= 63, a < (1usize << (d as usize)), b < (1usize << (d as usize))
    ensures odd(ovsum(a, b, 1, d, 64)) == inv(a, b, 64)
{
    l_ovsum_inv(a, b, d, d);
    l_ovsum_hi(a, b, d, d, 64);
    l_inv_hi(a, b, d, 64);
}
pub proof fn l_ov_hi(a: usize, b: usize, s: nat, d: nat, n: nat)
    requires d <= 63, b < (1usize << (d as usize)), n >= d
    ensures ov(a, b, s, n) == ov(a, b, s, d)
    decreases n
{ if n > d { l_ov_hi(a, b, s, d, (n-1) as nat); l_hi(b, d, (n-1) as nat); } }
pub proof fn l_ovsum_hi(a: usize, b: usize, hi: nat, d: nat, n: nat)
    requires d <= 63, b < (1usize << (d as usize)), n >= d
    ensures ovsum(a, b, 1, hi, n) == ovsum(a, b, 1, hi, d)
    decreases hi
{ if hi > 1 { l_ovsum_hi(a, b, (hi-1) as nat, d, n); l_ov_hi(a, b, (hi-1) as nat, d, n); } }

// the sign of a product of two blades
pub open spec fn pm(neg: bool) -> Sign { if neg { Sign::Minus } else { Sign::Plus } }
pub open spec fn acs(a: usize, b: usize) -> Sign { pm(inv(a, b, 64)) }
pub open spec fn geos(a: usize, b: usize, imag: usize, proj: usize) -> Sign {
    if a & b & proj != 0 { Sign::Null } else { pm(inv(a, b, 64) != odd(pc(a & b & imag))) }
}
pub open spec fn wedges(a: usize, b: usize) -> Sign { if a & b != 0 { Sign::Null } else { acs(a, b) } }
pub open spec fn sub1(x: usize) -> usize { if x > 0 { (x - 1) as usize } else { 0 } }

// numbers with the same bits are equal
pub proof fn l_bit_ext_step(x: usize, y: usize, n: usize)
    requires
        1 <= n <= 64,
        forall|i: nat| i < n ==> bit(x, i) == bit(y, i),
    ensures
        x << ((64 - n) as usize) == y << ((64 - n) as usize),
    decreases n,
{
    let k = (n - 1) as usize;
    assert(bit(x, k as nat) == bit(y, k as nat));
    if n == 1 {
        assert(x << 63usize == y << 63usize) by (bit_vector)
            requires
                ((x >> 0usize) & 1 == 1) == ((y >> 0usize) & 1 == 1),
        ;
    } else {
        l_bit_ext_step(x, y, k);
        let s = (64 - n) as usize;
        let s1 = (64 - k) as usize;
        assert(x << s == y << s) by (bit_vector)
            requires
                s < 63,
                s1 == s + 1,
                k == 63 - s,
                x << s1 == y << s1,
                ((x >> k) & 1 == 1) == ((y >> k) & 1 == 1),
        ;
    }
}

pub proof fn l_bit_ext(x: usize, y: usize)
    requires
        forall|i: nat| i < 64 ==> #[trigger] bit(x, i) == bit(y, i),
    ensures
        x == y,
{
    l_bit_ext_step(x, y, 64);
    assert(x << 0usize == x && y << 0usize == y) by (bit_vector);
}

pub proof fn l_bit_or(x: usize, y: usize, i: nat)
    ensures
        bit(x | y, i) == (bit(x, i) || bit(y, i)),
        bit(x & y, i) == (bit(x, i) && bit(y, i)),
{
    if i < 64 {
        let k = i as usize;
        assert((((x | y) >> k) & 1 == 1) == (((x >> k) & 1 == 1) || ((y >> k) & 1 == 1))) by (bit_vector)
            requires
                k < 64,
        ;
        assert((((x & y) >> k) & 1 == 1) == (((x >> k) & 1 == 1) && ((y >> k) & 1 == 1))) by (bit_vector)
            requires
                k < 64,
        ;
    }
}

pub proof fn l_bit_const(s: usize, i: nat)
    requires
        s < 64,
    ensures
        bit(1usize << s, i) == (i == s),
        !bit(0usize << s, i),
        !bit(0usize, i),
        bit(sub1(1usize << s), i) == (i < s),
{
    assert((1usize << s) > 0) by (bit_vector)
        requires
            s < 64,
    ;
    if i < 64 {
        let k = i as usize;
        assert((((1usize << s) >> k) & 1 == 1) == (k == s)) by (bit_vector)
            requires
                k < 64,
                s < 64,
        ;
        assert((((0usize << s) >> k) & 1 == 1) == false) by (bit_vector)
            requires
                k < 64,
                s < 64,
        ;
        assert(((0usize >> k) & 1 == 1) == false) by (bit_vector)
            requires
                k < 64,
        ;
        let m = sub1(1usize << s);
        assert(((m >> k) & 1 == 1) == (k < s)) by (bit_vector)
            requires
                k < 64,
                s < 64,
                m == sub(1usize << s, 1),
                (1usize << s) > 0,
        ;
    }
}
