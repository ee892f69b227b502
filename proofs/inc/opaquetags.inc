// ---- tags, where a proof does not look inside them
/// The tags of a point, as far as this proof looks at them (C03 looks inside).
#[verifier::external_body]
pub struct TagMap { _p: () }
#[verifier::external_body]
pub fn tags_clone(t: &Option<TagMap>) -> (r: Option<TagMap>) ensures r == *t { unimplemented!() }
