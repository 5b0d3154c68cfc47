#[derive(JsonEncode)]
union S { a: i32 }
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
