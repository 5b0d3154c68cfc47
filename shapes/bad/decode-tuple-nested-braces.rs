#[derive(JsonDecode)]
struct S([i32; { 2 }]);
//--- control
#[derive(JsonDecode)]
struct S { a: i32 }
