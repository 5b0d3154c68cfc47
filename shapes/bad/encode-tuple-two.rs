#[derive(JsonEncode)]
struct S(i32, String);
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
