#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: (), #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
