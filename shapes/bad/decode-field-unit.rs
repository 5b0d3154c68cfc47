#[derive(JsonDecode)]
struct S { a: () }
//--- control
#[derive(JsonDecode)]
struct S { a: u8 }
