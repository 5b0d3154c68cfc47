#[derive(JsonDecode)]
pub struct S<T: ToJson + FromJson>(pub T, Vec<T>) where T: Clone;
//--- control
#[derive(JsonDecode)]
pub struct S<T: ToJson + FromJson> { pub a: T, b: Vec<T> }
