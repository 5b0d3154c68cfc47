#[derive(JsonEncode, JsonDecode)]
#[repr(C)]
#[allow(unused, dead_code)]
#[must_use]
struct S { a: i32 }
fn w() { both::<S>(); }
