#[vmacro::both_conversions]
struct S { #[ignore] a: Option<fn(i32) -> u8> }
fn w() { both::<S>(); }
