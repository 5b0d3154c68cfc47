struct N;
#[derive(JsonEncode)]
struct S { a: Vec<N> }
//--- control
struct N;
#[derive(JsonEncode)]
struct S { a: Vec<u8> }
