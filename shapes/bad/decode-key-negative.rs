#[derive(JsonDecode)]
struct S { #[key = -1] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "-1"] a: i32 }
