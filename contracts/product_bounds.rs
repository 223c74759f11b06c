// (only to satisfy the bounds of the index; never called here)
impl<'a> core::cmp::PartialEq for Product<'a> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<'a> core::cmp::Eq for Product<'a> {}
impl<'a> core::cmp::PartialOrd for Product<'a> { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl<'a> core::cmp::Ord for Product<'a> { #[verifier::external_body] fn cmp(&self, o: &Self) -> core::cmp::Ordering { unimplemented!() } }
