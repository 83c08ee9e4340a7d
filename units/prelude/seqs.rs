// ---- sequences
proof fn take_step<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(),
    ensures s.take(n + 1) == s.take(n).push(s[n]), forall|x: T| #![auto] s.take(n + 1).contains(x) <==> s.take(n).contains(x) || s[n] == x,
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    assert forall|x: T| #![auto] s.take(n + 1).contains(x) <==> s.take(n).contains(x) || s[n] == x by {
        if s.take(n).contains(x) { let q = choose|q: int| 0 <= q < n && #[trigger] s.take(n)[q] == x; assert(s.take(n + 1)[q] == x); }
        if s[n] == x { assert(s.take(n + 1)[n] == x); }
    }
}
proof fn take_in<T>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len(),
    ensures forall|x: T| #![auto] s.take(n).contains(x) ==> s.contains(x), s.take(s.len() as int) == s, s.take(0).len() == 0,
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|x: T| #![auto] s.take(n).contains(x) implies s.contains(x) by {
        let q = choose|q: int| 0 <= q < n && #[trigger] s.take(n)[q] == x; assert(s[q] == x);
    }
}
proof fn push_contains<T>(s: Seq<T>, x: T)
    ensures forall|y: T| #![auto] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    assert forall|y: T| #![auto] s.push(x).contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q] == y; assert(s.push(x)[q] == y); }
        assert(s.push(x)[s.len() as int] == x);
    }
}
pub broadcast proof fn derefs_add<T>(a: Seq<&T>, b: Seq<&T>)
    ensures #[trigger] derefs(a + b) == derefs(a) + derefs(b),
{ assert(derefs(a + b) =~= derefs(a) + derefs(b)); }
pub broadcast proof fn concat_in<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[i + a.len()] == x); }
}
pub broadcast proof fn derefs_in<T>(s: Seq<&T>, x: &T)
    ensures #![trigger derefs(s), s.contains(x)] #![trigger derefs(s).contains(*x)] derefs(s).contains(*x) == s.contains(x),
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(derefs(s)[i] == *x); }
    if derefs(s).contains(*x) { let i = choose|i: int| 0 <= i < s.len() && derefs(s)[i] == *x; assert(s[i] == x); }
}
proof fn dist(a: real, b: real, c: real)
    ensures a * (b + c) == a * b + a * c, (b + c) * a == b * a + c * a,
{ assert(a * (b + c) == a * b + a * c) by (nonlinear_arith); assert((b + c) * a == b * a + c * a) by (nonlinear_arith); }
