#[derive(JsonEncode, JsonDecode)]
#[cfg(all())]
struct S { #[cfg(all())] a: i32, #[cfg(any())] z: Missing, b: u8 }
fn w() { both::<S>(); }
