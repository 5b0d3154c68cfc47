// Witness types.  Their conversions are leaf functions without a model of their own: the analyser treats
// them as arbitrary functions, so one instance of a generic function stands for every instance.
use json::*;
use std::collections::HashMap;
use std::str::FromStr;

pub struct W(pub u8);
pub struct KErr;
#[derive(PartialEq, Eq, Hash)]
pub struct K(pub u8);

#[inline(never)] pub fn w_to_json(_w: &W) -> Json { loop {} }
#[inline(never)] pub fn w_from_json(_j: &Json) -> Result<W, Error> { loop {} }
#[inline(never)] pub fn k_to_string(_k: &K) -> String { loop {} }
#[inline(never)] pub fn k_from_str(_s: &str) -> Result<K, KErr> { loop {} }
#[inline(never)] pub fn ev_key(_n: usize) -> String { loop {} }
#[inline(never)] pub fn ev_val(_n: usize) -> W { loop {} }
#[inline(never)] pub fn ev_idx(_n: usize) -> usize { loop {} }

impl ToJson for W { fn to_json(&self) -> Json { w_to_json(self) } }
impl FromJson for W { fn from_json(j: &Json) -> Result<W, Error> { w_from_json(j) } }
impl ToString for K { fn to_string(&self) -> String { k_to_string(self) } }
impl FromStr for K { type Err = KErr; fn from_str(s: &str) -> Result<K, KErr> { k_from_str(s) } }
