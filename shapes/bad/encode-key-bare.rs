#[derive(JsonEncode)]
struct S { #[key] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = "k"] a: i32 }
