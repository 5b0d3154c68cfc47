struct N;
#[derive(JsonDecode)]
struct S<T: ToJson + FromJson> { a: T }
fn w() { dec::<S<N>>(); }
//--- control
#[derive(JsonDecode)]
struct S<T: ToJson + FromJson> { a: T }
fn w() { dec::<S<u8>>(); }
