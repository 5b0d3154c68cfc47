#[derive(JsonDecode)]
struct S();
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
