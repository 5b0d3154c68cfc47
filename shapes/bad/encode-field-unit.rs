#[derive(JsonEncode)]
struct S { a: () }
//--- control
#[derive(JsonEncode)]
struct S { a: u8 }
