#[derive(JsonEncode)]
struct S { #[key = 1u8] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = "1u8"] a: i32 }
