// ---- std::collections::BTreeSet<usize> and sorting
#[verifier::external_body]
pub struct BSet { p: u8 }
pub open spec fn sorted(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
// s lists the elements of t
pub open spec fn lists(s: Seq<usize>, t: Set<usize>) -> bool {
    &&& ascending(s)
    &&& s.len() == t.len()
    &&& forall|x: usize| #![trigger t.contains(x)] #![trigger s.contains(x)] t.contains(x) <==> s.contains(x)
}
impl BSet {
    pub uninterp spec fn view(&self) -> Set<usize>;
    #[verifier::external_body]
    pub fn new() -> (r: BSet) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &usize) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<usize>) ensures r.pos() == 0, lists(r.all(), self@) { unimplemented!() }
}
impl Clone for BSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: BSet) ensures r == *self { unimplemented!() }
}
impl FromIt<usize> for BSet { open spec fn is_from(s: Seq<usize>, c: Self) -> bool { forall|x: usize| #[trigger] c@.contains(x) <==> s.contains(x) } }
pub trait SortX { spec fn stq(&self) -> Seq<usize>;
    fn vx_sort(&mut self)
        ensures sorted(final(self).stq()), final(self).stq().to_multiset() == old(self).stq().to_multiset();
}
impl SortX for Vec<usize> {
    open spec fn stq(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
}
