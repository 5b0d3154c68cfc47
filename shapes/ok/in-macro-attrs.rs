macro_rules! mk { ($(#[$m:meta])* $v:vis struct $n:ident { $($(#[$fm:meta])* $fv:vis $f:ident: $t:ty),* }) => { $(#[$m])* #[derive(JsonEncode, JsonDecode)]
$v struct $n { $($(#[$fm])* $fv $f: $t),* } } }
mk!(/// doc
#[allow(unused)] pub struct S { /// x
#[key = "k"] pub a: i32, b: Vec<u8> });
fn w() { both::<S>(); }
