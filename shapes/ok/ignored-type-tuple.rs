#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: (i32, (), (u8,)), #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
