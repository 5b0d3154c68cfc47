mod m {
#[derive(json::JsonEncode, json::JsonDecode)]
pub struct S { a: i32 }
}
fn w() { both::<m::S>(); }
