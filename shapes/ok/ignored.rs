#[vmacro::both_conversions]
struct S { a: i32, #[ignore] b: Option<()> }
fn w() { both::<S>(); }
