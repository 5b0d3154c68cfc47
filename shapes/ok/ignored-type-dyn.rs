#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: Option<Box<dyn Fn(i32, &str) -> u8 + Send + 'a>>, #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
