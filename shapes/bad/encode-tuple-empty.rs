#[derive(JsonEncode)]
struct S();
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
