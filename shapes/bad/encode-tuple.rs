#[derive(JsonEncode)]
struct S(i32);
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
