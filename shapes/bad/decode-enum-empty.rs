#[derive(JsonDecode)]
enum S {}
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
