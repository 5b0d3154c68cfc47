struct N;
#[derive(JsonDecode)]
struct S { a: Vec<N> }
//--- control
struct N;
#[derive(JsonDecode)]
struct S { a: Vec<u8> }
