#[vmacro::both_conversions]
struct S<'a> { x: i32, #[ignore] a: PhantomData<(u8, fn())>, #[ignore] l: Option<&'a u8> }
fn w() { both::<S<'static>>(); }
