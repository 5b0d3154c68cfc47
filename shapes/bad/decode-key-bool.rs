#[derive(JsonDecode)]
struct S { #[key = true] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "true"] a: i32 }
