#[derive(JsonEncode, JsonDecode)]
#[cfg(all(not(any()), any(unix, windows, not(unix))))]
struct S { a: i32 }
fn w() { both::<S>(); }
