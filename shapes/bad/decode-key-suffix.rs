#[derive(JsonDecode)]
struct S { #[key = 1u8] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = "1u8"] a: i32 }
