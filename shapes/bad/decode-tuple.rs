#[derive(JsonDecode)]
struct S(i32);
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
