#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: Option<for<'x> fn(&'x str) -> &'x str>, #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
