#[derive(JsonEncode, JsonDecode)]
#[cfg_attr(all(), repr(C))]
struct S { #[cfg_attr(all(), key = "k")] a: i32 }
fn w() { both::<S>(); }
