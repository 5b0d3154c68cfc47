#[derive(JsonEncode, JsonDecode)]
struct S { a: std::string::String, b: ::std::vec::Vec<::std::string::String>, c: std::option::Option<std::collections::HashMap<std::string::String, i32>> }
fn w() { both::<S>(); }
