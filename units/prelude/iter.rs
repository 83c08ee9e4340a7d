// ---- iterators: every source the code uses is one wrapper type; what follows
// is the assumed contract of the standard library's iterators and vectors.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { p: std::marker::PhantomData<T> }
impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.pos() < self.all().len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).all().len(),
        ensures final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1,
            r == old(self).all()[old(self).pos()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && r == Some(old(self).all()[old(self).pos()]),
            old(self).pos() >= old(self).all().len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(self) -> (r: It<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect<C: FromIt<T>>(self) -> (r: C)
        requires self.pos() == 0,
        ensures C::is_from(self.all(), r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self)
        ensures r.all() == v@, r.pos() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: It<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (i as usize, self.all()[i]) && i == i as usize,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all().take(if n <= self.all().len() { n as int } else { self.all().len() as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain(self, o: It<T>) -> (r: It<T>)
        requires self.pos() == 0, o.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all() + o.all(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all().reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize)
        requires self.pos() == 0,
        ensures r == self.all().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first(self) -> (r: Option<T>)
        requires self.pos() == 0,
        ensures self.all().len() == 0 ==> r is None, self.all().len() > 0 ==> r == Some(self.all()[0]),
    { unimplemented!() }
}
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|e: &T| *e) }
impl<T> It<&T> {
    // clones are equal to what they were made from
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: It<T>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all() == derefs(self.all()),
    { unimplemented!() }
}
impl It<usize> {
    #[verifier::external_body]
    pub fn vx_max(self) -> (r: Option<usize>)
        requires self.pos() == 0,
        ensures self.all().len() == 0 <==> r is None,
            r is Some ==> self.all().contains(r->0) && forall|i: int| 0 <= i < self.all().len() ==> self.all()[i] <= r->0,
    { unimplemented!() }
}
pub trait FromIt<T>: Sized { spec fn is_from(s: Seq<T>, c: Self) -> bool; }
impl<T> FromIt<T> for Vec<T> { open spec fn is_from(s: Seq<T>, c: Self) -> bool { c@ == s } }

#[verifier::external_body]
pub fn vx_range(a: usize, b: usize) -> (r: It<usize>)
    ensures r.pos() == 0, r.all().len() == (if a <= b { b - a } else { 0 }),
        forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i,
{ unimplemented!() }
// a.. : the numbers up to the largest one; what happens beyond it is left out
#[verifier::external_body]
pub fn vx_range_from(a: usize) -> (r: It<usize>)
    ensures r.pos() == 0, r.all().len() == usize::MAX - a,
        forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_repeat<T>(x: T, n: usize) -> (r: It<T>)
    ensures r.pos() == 0, r.all().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r.all()[i] == x,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, o: It<T>)
    requires o.pos() == 0,
    ensures final(v)@ == old(v)@ + o.all(), o.all() == final(v)@.subrange(old(v)@.len() as int, final(v)@.len() as int),
{ unimplemented!() }
pub trait VecX<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: It<&T>)
        ensures r.pos() == 0, r.all().len() == self.sq().len(), derefs(r.all()) == self.sq(),
            forall|i: int| 0 <= i < r.all().len() ==> *#[trigger] r.all()[i] == self.sq()[i];
    fn vx_into_iter(self) -> (r: It<T>) where Self: Sized
        ensures r.pos() == 0, r.all() == self.sq();
}
impl<T> VecX<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
pub trait SliceX<T> {
    spec fn slq(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: It<&T>)
        ensures r.pos() == 0, r.all().len() == self.slq().len(), derefs(r.all()) == self.slq(),
            forall|i: int| 0 <= i < r.all().len() ==> *#[trigger] r.all()[i] == self.slq()[i];
}
impl<T> SliceX<T> for [T] {
    open spec fn slq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
}
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
pub trait OptX<T> {
    spec fn oq(&self) -> Seq<T>;
    fn vx_into_iter(self) -> (r: It<T>) where Self: Sized
        ensures r.pos() == 0, r.all() == self.oq();
}
impl<T> OptX<T> for Option<T> {
    open spec fn oq(&self) -> Seq<T> { opt_seq(*self) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<T>) { unimplemented!() }
}
