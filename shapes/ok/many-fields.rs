#[derive(JsonEncode, JsonDecode)]
struct S { f0: i32, f1: i32, f2: i32, f3: i32, f4: i32, f5: i32, f6: i32, f7: i32, f8: i32, f9: i32, f10: i32, f11: i32, f12: i32, f13: i32, f14: i32, f15: i32, f16: i32, f17: i32, f18: i32, f19: i32, f20: i32, f21: i32, f22: i32, f23: i32, f24: i32, f25: i32, f26: i32, f27: i32, f28: i32, f29: i32, f30: i32, f31: i32, f32: i32, f33: i32, f34: i32, f35: i32, f36: i32, f37: i32, f38: i32, f39: i32 }
fn w() { both::<S>(); }
