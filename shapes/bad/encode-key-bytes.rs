#[derive(JsonEncode)]
struct S { #[key = b"k"] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = "k"] a: i32 }
