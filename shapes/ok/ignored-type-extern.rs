#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: Option<extern "C" fn(u8)>, #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
