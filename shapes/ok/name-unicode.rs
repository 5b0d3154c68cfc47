#[derive(JsonEncode, JsonDecode)]
struct Größe { höhe: i32 }
fn w() { both::<Größe>(); }
