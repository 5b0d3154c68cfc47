#[derive(JsonEncode)]
struct S { #[key = true] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = "true"] a: i32 }
