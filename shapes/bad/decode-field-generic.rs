#[derive(JsonDecode)]
struct S<T> { a: T }
//--- control
#[derive(JsonDecode)]
struct S<T: ToJson + FromJson> { a: T }
