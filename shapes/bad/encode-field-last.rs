struct N;
#[derive(JsonEncode)]
struct S { a: i32, b: String, c: N }
//--- control
struct N;
#[derive(JsonEncode)]
struct S { a: i32, b: String, c: u8 }
