#[derive(JsonEncode, JsonDecode)]
/// one
/// two "quoted" #[x] { } 
struct S {
    /// a field
    a: i32,
    /** block */ b: u8,
 c: u8 }
fn w() { both::<S>(); }
