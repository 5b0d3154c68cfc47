struct N;
#[derive(JsonDecode)]
struct S { a: N }
//--- control
impl ToJson for N { fn to_json(&self) -> Json { Json::Null } }
impl FromJson for N { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(N) } }
struct N;
#[derive(JsonDecode)]
struct S { a: N }
