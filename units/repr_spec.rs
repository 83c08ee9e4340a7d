//@item file=annealers/src/repr.rs name=BITVALUES
//@item file=annealers/src/repr.rs name=BYTESIZE
//@item file=annealers/src/repr.rs name=BinaryRepr
//@item file=annealers/src/repr.rs name=BinaryReprIter

// ---- the packed state as a sequence of booleans: bit i is in byte i / 8
pub open spec fn mask(k: int) -> u8 {
    if k == 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 }
    else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 } else { 128 }
}
pub open spec fn sbit(s: Seq<u8>, i: int) -> bool { s[i / 8] & mask(i % 8) != 0 }
pub closed spec fn bits(s: Seq<u8>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| sbit(s, i)) }
impl BinaryRepr {
    pub open spec fn view(&self) -> Seq<bool> { bits(self.state@, self.len as int) }
    pub open spec fn wf(&self) -> bool { self.len <= self.state@.len() * 8 }
}
pub broadcast proof fn bits_len(s: Seq<u8>, n: int)
    requires n >= 0,
    ensures (#[trigger] bits(s, n)).len() == n,
{}
pub proof fn bits_at(s: Seq<u8>, n: int, i: int)
    requires 0 <= i < n,
    ensures bits(s, n)[i] == sbit(s, i),
{}
pub proof fn bv(k: int)
    requires 0 <= k < 8,
    ensures BITVALUES[k] == mask(k),
{}
pub proof fn byte_ops(b: u8)
    ensures
        forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 ==> ((b | #[trigger] mask(j)) & #[trigger] mask(k) != 0) == (j == k || b & mask(k) != 0),
        forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 ==> ((b & !#[trigger] mask(j)) & #[trigger] mask(k) != 0) == (j != k && b & mask(k) != 0),
        forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 ==> ((b ^ #[trigger] mask(j)) & #[trigger] mask(k) != 0) == ((j == k) != (b & mask(k) != 0)),
{
    assert(forall|m: u8, n: u8| (b | m) & n == (b & n) | (m & n)) by (bit_vector);
    assert forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 implies ((b | #[trigger] mask(j)) & #[trigger] mask(k) != 0) == (j == k || b & mask(k) != 0) by {
        let (m, n) = (mask(j), mask(k)); pow(j, m); pow(k, n); one(b, m, n);
    }
    assert forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 implies ((b & !#[trigger] mask(j)) & #[trigger] mask(k) != 0) == (j != k && b & mask(k) != 0) by {
        let (m, n) = (mask(j), mask(k)); pow(j, m); pow(k, n); one(b, m, n);
    }
    assert forall|j: int, k: int| 0 <= j < 8 && 0 <= k < 8 implies ((b ^ #[trigger] mask(j)) & #[trigger] mask(k) != 0) == ((j == k) != (b & mask(k) != 0)) by {
        let (m, n) = (mask(j), mask(k)); pow(j, m); pow(k, n); one(b, m, n);
    }
}
pub open spec fn is_pow(m: u8) -> bool { m == 1 || m == 2 || m == 4 || m == 8 || m == 16 || m == 32 || m == 64 || m == 128 }
proof fn pow(k: int, m: u8)
    requires m == mask(k),
    ensures is_pow(m),
{}
proof fn one(b: u8, m: u8, n: u8)
    requires is_pow(m), is_pow(n),
    ensures ((b | m) & n != 0) == (m == n || b & n != 0),
        ((b & !m) & n != 0) == (m != n && b & n != 0),
        ((b ^ m) & n != 0) == ((m == n) != (b & n != 0)),
{
    assert(((b | m) & n != 0) == (m == n || b & n != 0)) by (bit_vector)
        requires m == 1 || m == 2 || m == 4 || m == 8 || m == 16 || m == 32 || m == 64 || m == 128, n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128;
    assert(((b & !m) & n != 0) == (m != n && b & n != 0)) by (bit_vector)
        requires m == 1 || m == 2 || m == 4 || m == 8 || m == 16 || m == 32 || m == 64 || m == 128, n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128;
    assert(((b ^ m) & n != 0) == ((m == n) != (b & n != 0))) by (bit_vector)
        requires m == 1 || m == 2 || m == 4 || m == 8 || m == 16 || m == 32 || m == 64 || m == 128, n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128;
}
/// one byte changed in one bit
pub proof fn poke(s: Seq<u8>, t: Seq<u8>, n: int, loc: int, v: bool)
    requires 0 <= loc < n <= s.len() * 8, t.len() == s.len(),
        forall|i: int| 0 <= i < s.len() && i != loc / 8 ==> t[i] == s[i],
        forall|k: int| 0 <= k < 8 ==> (t[loc / 8] & #[trigger] mask(k) != 0) == (if k == loc % 8 { v } else { s[loc / 8] & mask(k) != 0 }),
    ensures bits(t, n) == bits(s, n).update(loc, v),
{
    assert forall|i: int| 0 <= i < n implies sbit(t, i) == (if i == loc { v } else { sbit(s, i) }) by {
        assert(0 <= i % 8 < 8);
        if i / 8 == loc / 8 { assert(mask(i % 8) == mask(i % 8)); }
    }
    assert(bits(t, n) =~= bits(s, n).update(loc, v));
}
pub struct Rng { p: u8 }
impl Rng {
    #[verifier::external_body]
    pub fn fill_bytes(&mut self, v: &mut Vec<u8>)
        ensures final(v)@.len() == old(v)@.len(),
    { unimplemented!() }
}
