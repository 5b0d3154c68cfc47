struct N;
#[derive(JsonEncode)]
struct S<T: ToJson + FromJson> { a: T }
fn w() { enc::<S<N>>(); }
//--- control
#[derive(JsonEncode)]
struct S<T: ToJson + FromJson> { a: T }
fn w() { enc::<S<u8>>(); }
