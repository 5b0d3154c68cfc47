struct N;
impl ToJson for N { fn to_json(&self) -> Json { Json::Null } }
#[derive(JsonDecode)]
struct S { a: N }
//--- control
struct N;
impl FromJson for N { fn from_json(_: &Json) -> Result<Self, json::Error> { Ok(N) } }
#[derive(JsonDecode)]
struct S { a: N }
