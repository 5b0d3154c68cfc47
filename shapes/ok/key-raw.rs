#[derive(JsonEncode, JsonDecode)]
struct S { #[key = r#"x"#] a: i32, #[key = r##"y"##] b: u8 }
fn w() { both::<S>(); }
