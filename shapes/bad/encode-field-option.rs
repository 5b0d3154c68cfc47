struct N;
#[derive(JsonEncode)]
struct S { a: Option<N> }
//--- control
struct N;
#[derive(JsonEncode)]
struct S { a: Option<u8> }
