struct N;
#[vmacro::both_conversions]
struct S { a: i32, #[ignore] b: N }
//--- control
#[derive(Default)] struct N;
#[vmacro::both_conversions]
struct S { a: i32, #[ignore] b: N }
