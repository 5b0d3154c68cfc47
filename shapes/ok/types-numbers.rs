#[derive(JsonEncode, JsonDecode)]
struct S { a: i8, b: i16, c: i32, d: i64, f: isize, g: u8, h: u16, i: u32, j: u64, l: usize, m: f32, n: f64 }
fn w() { both::<S>(); }
