#[derive(JsonEncode)]
enum S { A { a: i32 } }
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
