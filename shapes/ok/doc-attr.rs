#[derive(JsonEncode, JsonDecode)]
#[doc = "x"]
#[doc(hidden)]
struct S { #[doc = "y"] a: i32, #[doc(alias = "z")] b: i32 }
fn w() { both::<S>(); }
