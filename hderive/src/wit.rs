// Field types whose conversions are leaf functions: arbitrary, and told apart by name.
use json::*;

pub struct W(pub u8);
pub struct X(pub u8);
pub struct D(pub u8);
pub struct Y(pub u8);

#[inline(never)] pub fn w_to_json(_w: &W) -> Json { loop {} }
#[inline(never)] pub fn w_from_json(_j: &Json) -> Result<W, Error> { loop {} }
#[inline(never)] pub fn x_to_json(_w: &X) -> Json { loop {} }
#[inline(never)] pub fn x_from_json(_j: &Json) -> Result<X, Error> { loop {} }
#[inline(never)] pub fn y_to_json(_w: &Y) -> Json { loop {} }
#[inline(never)] pub fn y_from_json(_j: &Json) -> Result<Y, Error> { loop {} }
#[inline(never)] pub fn y_default() -> Y { loop {} }
#[inline(never)] pub fn d_default() -> D { loop {} }

impl ToJson for W { fn to_json(&self) -> Json { w_to_json(self) } }
impl FromJson for W { fn from_json(j: &Json) -> Result<W, Error> { w_from_json(j) } }
impl ToJson for X { fn to_json(&self) -> Json { x_to_json(self) } }
impl FromJson for X { fn from_json(j: &Json) -> Result<X, Error> { x_from_json(j) } }
// can be converted and has a default: only the attributes decide
impl ToJson for Y { fn to_json(&self) -> Json { y_to_json(self) } }
impl FromJson for Y { fn from_json(j: &Json) -> Result<Y, Error> { y_from_json(j) } }
impl Default for Y { fn default() -> Y { y_default() } }
impl Default for D { fn default() -> D { d_default() } }
