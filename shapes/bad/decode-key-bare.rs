#[derive(JsonDecode)]
struct S { #[key] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "k"] a: i32 }
