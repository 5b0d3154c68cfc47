#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: [u8; 4], #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
