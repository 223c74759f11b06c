impl OrderIndex {
/*@cfn classic_indexes/order.rs :: impl OrderIndex :: fn get_orders
@opt ret = r
@bind & self , $name : & str
@spec
    ensures match r {
            Some(o) => exists|k: String| k@ == $name@ && #[trigger] self.orders@.contains_key(k) && self.orders@[k] == *o,
            None => forall|k: String| #[trigger] self.orders@.contains_key(k) ==> k@ != $name@,
        },
@*/
/*@cfn classic_indexes/order.rs :: impl OrderIndex :: fn options
@opt ret = r
@sub impl Iterator < Item = & str > ==> It<&str>
@sub? . map ( String :: as_str ) ==> .as_texts()
@spec
    ensures names_once(self.orders@, rem(&r).map_values(|s: &str| s@)),
@*/
}
