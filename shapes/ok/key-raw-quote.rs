#[derive(JsonEncode, JsonDecode)]
struct S { #[key = r#"a"b"#] a: i32 }
fn w() { both::<S>(); }
