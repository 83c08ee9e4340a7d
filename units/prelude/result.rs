// unwrapping where a panic is allowed
pub trait UnwrapX<T>: Sized {
    spec fn got(self) -> Option<T>;
    fn vx_unwrap(self) -> (r: T) ensures self.got() == Some(r);
}
impl<T> UnwrapX<T> for Option<T> {
    open spec fn got(self) -> Option<T> { self }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() }
}
impl<T, E> UnwrapX<T> for Result<T, E> {
    open spec fn got(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { unimplemented!() }
}
// all the values, or the error there was
impl<T, E> FromIt<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn is_from(s: Seq<Result<T, E>>, c: Self) -> bool {
        match c {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
        }
    }
}
