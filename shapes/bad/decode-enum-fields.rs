#[derive(JsonDecode)]
enum S { A { a: i32 }, B { a: i32 } }
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
