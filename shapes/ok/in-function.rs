fn f() {
#[derive(JsonEncode, JsonDecode)]
struct S { a: i32 }
both::<S>();
}
