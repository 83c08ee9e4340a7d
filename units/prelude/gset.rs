// ---- std::collections::BTreeSet: elements and whole sets compare as values
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct GSet<T> { p: std::marker::PhantomData<T> }
pub open spec fn lists_set<T>(s: Seq<T>, t: Set<T>) -> bool {
    &&& s.no_duplicates()
    &&& s.len() == t.len()
    &&& forall|x: T| #![trigger t.contains(x)] #![trigger s.contains(x)] t.contains(x) <==> s.contains(x)
}
impl<T> GSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: GSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_superset(&self, o: &GSet<T>) -> (r: bool) ensures r == o@.subset_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, o: &GSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: KeyOf<T>>(&mut self, x: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(x.key()), r == old(self)@.contains(x.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<T>) ensures r.pos() == 0, lists_set(r.all(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<&T>) ensures r.pos() == 0, r.all().len() == self@.len(), lists_set(derefs(r.all()), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_union(&self, o: &GSet<T>) -> (r: It<&T>) ensures r.pos() == 0, lists_set(derefs(r.all()), self@.union(o@)) { unimplemented!() }
}
// sets with the same elements are the same key
#[verifier::external_body]
pub broadcast proof fn gset_ext<T>(a: GSet<T>, b: GSet<T>)
    requires #[trigger] a.view() == #[trigger] b.view(),
    ensures a == b,
{ }
impl<T> Clone for GSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: GSet<T>) ensures r == *self { unimplemented!() }
}
impl<T> FromIt<T> for GSet<T> { open spec fn is_from(s: Seq<T>, c: Self) -> bool { forall|x: T| #[trigger] c@.contains(x) <==> s.contains(x) } }
// every finite set of values is a set (finite: Set of this verifier always is)
#[verifier::external_body]
pub proof fn gset_exists<T>(s: Set<T>)
    ensures exists|c: GSet<T>| #[trigger] c@ == s,
{ }
pub open spec fn gset<T>(s: Set<T>) -> GSet<T> { choose|c: GSet<T>| #[trigger] c@ == s }
pub broadcast proof fn gset_view<T>(s: Set<T>)
    ensures #[trigger] gset(s)@ == s,
{ gset_exists(s); }
pub proof fn gunion_exists<T>(a: GSet<T>, b: GSet<T>)
    ensures exists|c: GSet<T>| #[trigger] c@ == a@.union(b@),
{ gset_exists(a@.union(b@)); }
pub open spec fn gunion<T>(a: GSet<T>, b: GSet<T>) -> GSet<T> { choose|c: GSet<T>| #[trigger] c@ == a@.union(b@) }
