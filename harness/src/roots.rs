use crate::wit::*;
use json::*;
use std::collections::HashMap;
use std::str::FromStr;
use std::ops::{Index, IndexMut};

type R<T> = Result<T, Error>;

// texts
pub fn r_parse(s: &str) -> R<Json> { Json::parse(s) }
pub fn r_from_str(s: &str) -> R<Json> { <Json as FromStr>::from_str(s) }
pub fn r_to_string(j: &Json) -> String { j.to_string() }
pub fn r_err_display(e: &Error) -> String { format!("{}", e) }
pub fn r_kind_display(e: &ErrorKind) -> String { format!("{}", e) }
pub fn r_err_new(k: ErrorKind, m: String) -> Error { Error::new(k, m) }

// lookups
pub fn r_find_key<'a>(j: &'a Json, k: &str) -> R<&'a Json> { j.find(k) }
pub fn r_find_string<'a>(j: &'a Json, k: String) -> R<&'a Json> { j.find(k) }
pub fn r_find_rstring<'a>(j: &'a Json, k: &String) -> R<&'a Json> { j.find(k) }
pub fn r_find_idx<'a>(j: &'a Json, k: usize) -> R<&'a Json> { j.find(k) }
pub fn r_find_ridx<'a>(j: &'a Json, k: &usize) -> R<&'a Json> { j.find(k) }
pub fn r_find_mut_key<'a>(j: &'a mut Json, k: &str) -> R<&'a mut Json> { j.find_mut(k) }
pub fn r_find_mut_idx<'a>(j: &'a mut Json, k: usize) -> R<&'a mut Json> { j.find_mut(k) }
pub fn r_index_key<'a>(j: &'a Json, k: &str) -> &'a Json { j.index(k) }
pub fn r_index_idx<'a>(j: &'a Json, k: usize) -> &'a Json { j.index(k) }
pub fn r_index_mut_key<'a>(j: &'a mut Json, k: &str) -> &'a mut Json { j.index_mut(k) }
pub fn r_index_mut_idx<'a>(j: &'a mut Json, k: usize) -> &'a mut Json { j.index_mut(k) }

// single step changes
pub fn r_update_key<'a>(j: &'a mut Json, k: &str, v: W) -> R<&'a mut Json> { j.update(k, v) }
pub fn r_update_idx<'a>(j: &'a mut Json, k: usize, v: W) -> R<&'a mut Json> { j.update(k, v) }
pub fn r_discard_key(j: &mut Json, k: &str) -> R<Json> { j.discard(k) }
pub fn r_discard_idx(j: &mut Json, k: usize) -> R<Json> { j.discard(k) }
pub fn r_delete(j: &mut Json, k: &str) -> R<()> { j.delete(k) }
pub fn r_remove(j: &mut Json, k: usize) -> R<()> { j.remove(k) }
pub fn r_insert(j: &mut Json, k: K, v: W) -> R<()> { j.insert(k, v) }
pub fn r_append(j: &mut Json, k: K, v: W) -> R<()> { j.append(k, v) }
pub fn r_push(j: &mut Json, v: W) -> R<()> { j.push(v) }
pub fn r_replace(j: &mut Json, k: usize, v: W) -> R<()> { j.replace(k, v) }
pub fn r_merge<'a>(j: &'a Json, k: &str) -> R<Vec<&'a Json>> { j.index_and_merge(k) }

// paths
pub fn r_path_find<'a>(j: &'a Json, p: Path) -> R<&'a Json> { j.find(p) }
pub fn r_path_find_mut<'a>(j: &'a mut Json, p: Path) -> R<&'a mut Json> { j.find_mut(p) }
pub fn r_path_discard(j: &mut Json, p: Path) -> R<Json> { j.discard(p) }
pub fn r_path_update<'a>(j: &'a mut Json, p: Path, v: W) -> R<&'a mut Json> { j.update(p, v) }
pub fn r_path_append(p: &mut Path, f: Finder) { p.append(f); }
pub fn r_path_new(f: Finder) -> Path { Path::new(f) }
pub fn r_get<'a>(j: &'a Json, s: &str) -> R<&'a Json> { j.get(s) }
pub fn r_set<'a>(j: &'a mut Json, s: &str, v: W) -> R<&'a mut Json> { j.set(s, v) }
pub fn r_del(j: &mut Json, s: &str) -> R<Json> { j.del(s) }

// texts in, texts out
pub fn r_encode(x: &W) -> String { encode(x) }
pub fn r_decode(s: &str) -> R<W> { decode(s) }
pub fn r_tget(s: &str, p: &str) -> R<W> { get(s, p) }
pub fn r_tset(s: &str, p: &str, x: W) -> R<String> { set(s, p, x) }
pub fn r_tdel(s: &str, p: &str) -> R<String> { del(s, p) }
pub fn r_convert(j: &Json) -> R<W> { j.convert() }

// conversions
macro_rules! nums { ($($t:ident $to:ident $rto:ident $from:ident;)*) => { $(
    pub fn $to(x: &$t) -> Json { x.to_json() }
    pub fn $rto(x: &$t) -> Json { <&$t as ToJson>::to_json(&x) }
    pub fn $from(j: &Json) -> R<$t> { <$t as FromJson>::from_json(j) }
)* } }
nums! {
    u8 r_to_u8 r_rto_u8 r_from_u8; u16 r_to_u16 r_rto_u16 r_from_u16; u32 r_to_u32 r_rto_u32 r_from_u32;
    u64 r_to_u64 r_rto_u64 r_from_u64; u128 r_to_u128 r_rto_u128 r_from_u128; usize r_to_usize r_rto_usize r_from_usize;
    i8 r_to_i8 r_rto_i8 r_from_i8; i16 r_to_i16 r_rto_i16 r_from_i16; i32 r_to_i32 r_rto_i32 r_from_i32;
    i64 r_to_i64 r_rto_i64 r_from_i64; i128 r_to_i128 r_rto_i128 r_from_i128; isize r_to_isize r_rto_isize r_from_isize;
    f32 r_to_f32 r_rto_f32 r_from_f32; f64 r_to_f64 r_rto_f64 r_from_f64;
    bool r_to_bool r_rto_bool r_from_bool;
}
pub fn r_to_json(x: &Json) -> Json { x.to_json() }
pub fn r_from_json(j: &Json) -> R<Json> { Json::from_json(j) }
pub fn r_to_string_t(x: &String) -> Json { x.to_json() }
pub fn r_to_str_t(x: &str) -> Json { x.to_json() }
pub fn r_to_rstr_t(x: &str) -> Json { <&str as ToJson>::to_json(&x) }
pub fn r_from_string_t(j: &Json) -> R<String> { String::from_json(j) }
pub fn r_to_opt(x: &Option<W>) -> Json { x.to_json() }
pub fn r_from_opt(j: &Json) -> R<Option<W>> { <Option<W>>::from_json(j) }
pub fn r_to_vec(x: &Vec<W>) -> Json { x.to_json() }
pub fn r_to_slice(x: &[W]) -> Json { <&[W] as ToJson>::to_json(&x) }
pub fn r_from_vec(j: &Json) -> R<Vec<W>> { <Vec<W>>::from_json(j) }
pub fn r_to_pairs(x: &Vec<(K, W)>) -> Json { x.to_json() }
pub fn r_to_slpairs(x: &[(K, W)]) -> Json { <&[(K, W)] as ToJson>::to_json(&x) }
pub fn r_from_pairs(j: &Json) -> R<Vec<(K, W)>> { <Vec<(K, W)>>::from_json(j) }
pub fn r_to_map(x: &HashMap<K, W>) -> Json { x.to_json() }
pub fn r_from_map(j: &Json) -> R<HashMap<K, W>> { <HashMap<K, W>>::from_json(j) }

// macros
pub fn r_m_object_none() -> Json { object! {  } }
pub fn r_m_object_kv() -> Json { object! { ev_key(0) => ev_val(1) } }
pub fn r_m_object_kv_t() -> Json { object! { ev_key(0) => ev_val(1), } }
pub fn r_m_object_kvkv() -> Json { object! { ev_key(0) => ev_val(1), ev_key(2) => ev_val(3) } }
pub fn r_m_object_kvkvkv_t() -> Json { object! { ev_key(0) => ev_val(1), ev_key(2) => ev_val(3), ev_key(4) => ev_val(5), } }
pub fn r_m_array_none() -> Json { array![] }
pub fn r_m_array_v() -> Json { array![ev_val(0)] }
pub fn r_m_array_v_t() -> Json { array![ev_val(0),] }
pub fn r_m_array_vvv() -> Json { array![ev_val(0), ev_val(1), ev_val(2)] }
pub fn r_m_array_vvvv_t() -> Json { array![ev_val(0), ev_val(1), ev_val(2), ev_val(3),] }
pub fn r_m_path_k() -> Path { path!(ev_key(0)) }
pub fn r_m_find_k<'a>(j: &'a Json) -> R<&'a Json> { find!({ ev_idx(10); j }, ev_key(0)) }
pub fn r_m_update_k<'a>(j: &'a mut Json) -> R<&'a mut Json> { update!(ev_val(11) => { ev_idx(10); &mut *j }, ev_key(0)) }
pub fn r_m_discard_k(j: &mut Json) -> R<Json> { discard!({ ev_idx(10); &mut *j }, ev_key(0)) }
pub fn r_m_path_k_t() -> Path { path!(ev_key(0),) }
pub fn r_m_find_k_t<'a>(j: &'a Json) -> R<&'a Json> { find!({ ev_idx(10); j }, ev_key(0),) }
pub fn r_m_update_k_t<'a>(j: &'a mut Json) -> R<&'a mut Json> { update!(ev_val(11) => { ev_idx(10); &mut *j }, ev_key(0),) }
pub fn r_m_discard_k_t(j: &mut Json) -> R<Json> { discard!({ ev_idx(10); &mut *j }, ev_key(0),) }
pub fn r_m_path_ik() -> Path { path!(ev_idx(0), ev_key(1)) }
pub fn r_m_find_ik<'a>(j: &'a Json) -> R<&'a Json> { find!({ ev_idx(10); j }, ev_idx(0), ev_key(1)) }
pub fn r_m_update_ik<'a>(j: &'a mut Json) -> R<&'a mut Json> { update!(ev_val(11) => { ev_idx(10); &mut *j }, ev_idx(0), ev_key(1)) }
pub fn r_m_discard_ik(j: &mut Json) -> R<Json> { discard!({ ev_idx(10); &mut *j }, ev_idx(0), ev_key(1)) }
pub fn r_m_path_kik_t() -> Path { path!(ev_key(0), ev_idx(1), ev_key(2),) }
pub fn r_m_find_kik_t<'a>(j: &'a Json) -> R<&'a Json> { find!({ ev_idx(10); j }, ev_key(0), ev_idx(1), ev_key(2),) }
pub fn r_m_update_kik_t<'a>(j: &'a mut Json) -> R<&'a mut Json> { update!(ev_val(11) => { ev_idx(10); &mut *j }, ev_key(0), ev_idx(1), ev_key(2),) }
pub fn r_m_discard_kik_t(j: &mut Json) -> R<Json> { discard!({ ev_idx(10); &mut *j }, ev_key(0), ev_idx(1), ev_key(2),) }
pub fn r_m_path_kiki() -> Path { path!(ev_key(0), ev_idx(1), ev_key(2), ev_idx(3)) }
pub fn r_m_find_kiki<'a>(j: &'a Json) -> R<&'a Json> { find!({ ev_idx(10); j }, ev_key(0), ev_idx(1), ev_key(2), ev_idx(3)) }
pub fn r_m_update_kiki<'a>(j: &'a mut Json) -> R<&'a mut Json> { update!(ev_val(11) => { ev_idx(10); &mut *j }, ev_key(0), ev_idx(1), ev_key(2), ev_idx(3)) }
pub fn r_m_discard_kiki(j: &mut Json) -> R<Json> { discard!({ ev_idx(10); &mut *j }, ev_key(0), ev_idx(1), ev_key(2), ev_idx(3)) }
