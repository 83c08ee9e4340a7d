// ---- panics: an obligation that they are not reached, or (in the contracts
// that say "is rejected") a way of not returning
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_panic_allowed() -> !
    ensures false,
{ unimplemented!() }
