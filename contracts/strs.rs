// ---- texts are their characters (assumed) ---------------------------------------
/// Two strings with the same characters are the same string.
pub broadcast axiom fn string_ext(a: String, b: String)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b;
pub broadcast axiom fn str_ext(a: &str, b: &str)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b;
