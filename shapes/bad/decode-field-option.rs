struct N;
#[derive(JsonDecode)]
struct S { a: Option<N> }
//--- control
struct N;
#[derive(JsonDecode)]
struct S { a: Option<u8> }
