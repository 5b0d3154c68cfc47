#[derive(JsonEncode)]
enum S { A, B }
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
