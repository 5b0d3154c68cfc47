#[derive(JsonEncode, JsonDecode)]
struct S<T: Iterator> where T::Item: ToJson + FromJson { a: T::Item, b: Vec<<T as Iterator>::Item> }
fn w() { both::<S<std::vec::IntoIter<u8>>>(); }
