#[derive(JsonDecode)]
struct S { a: &'static str }
//--- control
#[derive(JsonDecode)]
struct S { a: String }
