// ---- the gram index, copied
#[verifier::reject_recursive_types(G)]
/*@item ngram/index.rs :: struct GramNode @*/
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(N)]
/*@item ngram/index.rs :: struct GramIndex @*/
