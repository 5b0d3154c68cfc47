#[derive(JsonDecode)]
struct S { a: fn() }
//--- control
#[derive(JsonDecode)]
struct S { a: u8 }
