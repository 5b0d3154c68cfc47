#[derive(JsonEncode)]
struct S { a: i32, /** doc */ #[allow(unused)] #[key = 7] b: i32 }
//--- control
#[derive(JsonEncode)]
struct S { a: i32, /** doc */ #[allow(unused)] #[key = "7"] b: i32 }
