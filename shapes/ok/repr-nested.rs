#[derive(JsonEncode, JsonDecode)]
#[repr(C, align(8))]
#[must_use = "because"]
#[deprecated(since = "1", note = "n")]
struct S { a: i32 }
fn w() { both::<S>(); }
