#[vmacro::both_conversions]
struct S { /// doc
#[allow(unused)] #[ignore] a: u8, #[ignore] #[key = "x"] b: u8, #[key = "y"] #[allow(unused)] c: u8 }
fn w() { both::<S>(); }
