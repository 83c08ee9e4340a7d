// ---- std::collections::HashMap: keys compare as values
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { p: std::marker::PhantomData<(K, V)> }
// what can look up a key: the key itself, or what it borrows from
pub trait KeyOf<K> { spec fn key(&self) -> K; }
impl<K> KeyOf<K> for K { open spec fn key(&self) -> K { *self } }
impl<'a, K> KeyOf<&'a K> for K { open spec fn key(&self) -> &'a K { self } }
// s lists the entries of m, in no particular order
pub open spec fn entries<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub open spec fn lists_keys<K, V>(s: Seq<K>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& s.no_duplicates()
    &&& forall|k: K| #![trigger m.contains_key(k)] #![trigger s.contains(k)] m.contains_key(k) <==> s.contains(k)
}
pub open spec fn deref_pairs<K, V>(s: Seq<(&K, &V)>) -> Seq<(K, V)> { s.map_values(|e: (&K, &V)| (*e.0, *e.1)) }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: KeyOf<K>>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: KeyOf<K>>(&self, k: &Q) -> (r: Option<&V>)
        ensures self@.contains_key(k.key()) ==> r is Some && *r->0 == self@[k.key()], !self@.contains_key(k.key()) ==> r is None
    { unimplemented!() }
    // indexing
    #[verifier::external_body]
    pub fn vx_at<Q: KeyOf<K>>(&self, k: &Q) -> (r: &V)
        requires self@.contains_key(k.key()),
        ensures *r == self@[k.key()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: KeyOf<K>>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(k.key()) && *v == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(v)), None => !old(self)@.contains_key(k.key()) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), final(self)@.contains_key(k), final(self)@.dom().contains(k),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]), !old(self)@.contains_key(k) ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: KeyOf<K>>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.key()),
            old(self)@.contains_key(k.key()) ==> r == Some(old(self)@[k.key()]), !old(self)@.contains_key(k.key()) ==> r is None
    { unimplemented!() }
    // what `*entry(k).or_insert(d)` reads
    #[verifier::external_body]
    pub fn vx_get_or(&self, k: &K, d: V) -> (r: V)
        ensures r == (if self@.contains_key(*k) { self@[*k] } else { d })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<(K, V)>) ensures r.pos() == 0, entries(r.all(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: It<(K, V)>)
        ensures r.pos() == 0, entries(r.all(), old(self)@), final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<(&K, &V)>)
        ensures r.pos() == 0, entries(deref_pairs(r.all()), self@),
            r.all().len() == self@.len(),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key(*(#[trigger] r.all()[i]).0) && self@[*r.all()[i].0] == *r.all()[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: It<&K>)
        ensures r.pos() == 0, r.all().len() == self@.len(), lists_keys(derefs(r.all()), self@),
    { unimplemented!() }
}
// v lists values of m: each is the value of some key, and every key's value is there
pub open spec fn values_of<K, V>(v: Seq<V>, m: Map<K, V>) -> bool {
    &&& v.len() == m.len()
    &&& forall|i: int| 0 <= i < v.len() ==> exists|k: K| #[trigger] m.contains_key(k) && m[k] == #[trigger] v[i]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == m[k]
}
impl<K, V> HMap<K, V> {
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: It<&V>)
        ensures r.pos() == 0, r.all().len() == self@.len(), values_of(derefs(r.all()), self@),
    { unimplemented!() }
}
impl<K, V> Clone for HMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K, V> FromIt<(K, V)> for HMap<K, V> {
    // later entries replace earlier ones
    open spec fn is_from(s: Seq<(K, V)>, c: Self) -> bool {
        &&& forall|k: K| #[trigger] c@.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
        &&& s.len() == 1 ==> c@ == Map::<K, V>::empty().insert(s[0].0, s[0].1) && c@.dom().contains(s[0].0)
        &&& forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) ==> c@[(#[trigger] s[i]).0] == s[i].1
    }
}
