#[derive(JsonDecode)]
struct S { #[key = k] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "k"] a: i32 }
