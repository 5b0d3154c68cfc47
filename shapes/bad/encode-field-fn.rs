#[derive(JsonEncode)]
struct S { a: fn() }
//--- control
#[derive(JsonEncode)]
struct S { a: u8 }
