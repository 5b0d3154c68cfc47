#[derive(JsonDecode)]
enum S { A, B }
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
