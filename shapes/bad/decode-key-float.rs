#[derive(JsonDecode)]
struct S { #[key = 1.5] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "1.5"] a: i32 }
