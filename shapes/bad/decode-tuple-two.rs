#[derive(JsonDecode)]
struct S(i32, String);
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
