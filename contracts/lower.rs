// ---- lower case
/// `char::to_lowercase`
pub uninterp spec fn lower_char(c: char) -> Seq<char>;
/// `flat_map(char::to_lowercase)`
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)).flatten() }
