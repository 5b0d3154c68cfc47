#[derive(JsonEncode)]
struct S { #[key = 1.5] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = "1.5"] a: i32 }
