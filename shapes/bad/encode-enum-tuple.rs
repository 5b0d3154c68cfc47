#[derive(JsonEncode)]
pub enum S<T: ToJson + FromJson> { A(T), B(i32) }
//--- control
#[derive(JsonEncode)]
pub struct S<T: ToJson + FromJson> { pub a: T, b: Vec<T> }
