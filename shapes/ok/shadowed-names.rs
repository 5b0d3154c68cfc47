mod m { pub struct Error; pub struct HashMap; pub trait Default {}
#[derive(json::JsonEncode)]
pub struct Z { pub a: i32 } }
fn w() { enc::<m::Z>(); }
