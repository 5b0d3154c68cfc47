macro_rules! mk { ($n:ident, $f:ident, $t:ty) => { #[derive(JsonEncode, JsonDecode)]
struct $n { $f: $t, b: Vec<$t> } } }
mk!(S, a, i32);
mk!(Z, q, Vec<Option<u8>>);
fn w() { both::<S>(); both::<Z>(); }
