#[derive(JsonEncode)]
enum S {}
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
