#[derive(JsonEncode)]
struct S { a: char }
//--- control
#[derive(JsonEncode)]
struct S { a: u8 }
