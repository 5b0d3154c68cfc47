#[derive(JsonDecode)]
struct S { #[key = m::K] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "k"] a: i32 }
