#[derive(JsonDecode)]
struct S { a: char }
//--- control
#[derive(JsonDecode)]
struct S { a: u8 }
