// equal ways of writing the same bit operation, available in every verified function
pub broadcast proof fn b_and1_32(x: u32)
    ensures
        #[trigger] (x & 1) == x % 2,
{
    assert(x & 1 == x % 2) by (bit_vector);
}

pub broadcast proof fn b_and1(x: usize)
    ensures
        #[trigger] (x & 1) == x % 2,
{
    assert(x & 1 == x % 2) by (bit_vector);
}

pub broadcast proof fn b_shr1(x: usize)
    ensures
        #[trigger] (x >> 1usize) == x / 2,
{
    assert(x >> 1usize == x / 2) by (bit_vector);
}

pub broadcast proof fn b_and_comm(x: usize, y: usize)
    ensures
        #[trigger] (x & y) == y & x,
{
    assert(x & y == y & x) by (bit_vector);
}

pub broadcast proof fn b_or_comm(x: usize, y: usize)
    ensures
        #[trigger] (x | y) == y | x,
{
    assert(x | y == y | x) by (bit_vector);
}

pub broadcast proof fn b_xor_comm(x: usize, y: usize)
    ensures
        #[trigger] (x ^ y) == y ^ x,
{
    assert(x ^ y == y ^ x) by (bit_vector);
}

pub broadcast proof fn b_bit_at(x: usize, k: usize)
    requires
        k < 64,
    ensures
        #[trigger] ((x >> k) & 1) == (if x & (1usize << k) != 0 { 1usize } else { 0 }),
{
    assert((x >> k) & 1 == (if x & (1usize << k) != 0 { 1usize } else { 0 })) by (bit_vector)
        requires
            k < 64,
    ;
}

pub broadcast group gbits {
    b_and1_32,
    b_and1,
    b_shr1,
    b_and_comm,
    b_or_comm,
    b_xor_comm,
    b_bit_at,
}
