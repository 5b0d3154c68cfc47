#[derive(JsonEncode)]
struct S([i32; { 2 }]);
//--- control
#[derive(JsonEncode)]
struct S { a: i32 }
