#[derive(JsonEncode)]
struct S { #[key = c"k"] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = "k"] a: i32 }
