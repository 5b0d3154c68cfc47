#[derive(JsonDecode)]
union S { a: i32 }
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
