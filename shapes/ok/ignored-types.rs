#[vmacro::both_conversions]
pub struct S<'a, T: Default + 'a> where T: Clone { pub b: i32, #[ignore] c: T, #[ignore] d: [u8; 4], #[ignore] f: Option<&'a mut [T]>, #[ignore] j: () }
fn w() { both::<S<u8>>(); }
