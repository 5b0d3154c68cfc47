#[derive(JsonEncode)]
struct S { #[key = br"k"] a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { #[key = r"k"] a: i32 }
