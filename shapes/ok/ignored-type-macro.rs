macro_rules! mac { () => { u8 } }
#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: mac!(), #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
