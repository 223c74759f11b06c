// Assumed contracts on the standard library (not proved here).
pub assume_specification[ char::from_u32 ](v: u32) -> (r: Option<char>)
    ensures scalar(v as nat) ==> r == Some(v as char), !scalar(v as nat) ==> r is None;
pub assume_specification[ f32::to_be_bytes ](x: f32) -> (r: [u8; 4])
    ensures r@ == f32_be(x);
pub assume_specification[ f32::from_be_bytes ](b: [u8; 4]) -> (r: f32)
    ensures r == f32_of(b@);

//@include it.rs
