#[derive(JsonEncode)]
struct S<T> { a: T }
//--- control
#[derive(JsonEncode)]
struct S<T: ToJson + FromJson> { a: T }
