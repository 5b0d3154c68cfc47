#[derive(JsonDecode)]
struct S { #[key = br"k"] a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { #[key = r"k"] a: i32 }
