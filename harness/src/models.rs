// Rust models of std functions whose real bodies go through specialisation or unsafe code.  They are
// never executed: the MIR driver substitutes them for the std function of the same signature (see
// overrides.txt), so the analyser sees a plain loop over `next()`.
use std::collections::{HashMap, LinkedList};
use std::hash::Hash;

pub fn m_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { match it.next() { Some(_) => n -= 1, None => return None } }
    it.next()
}
pub fn m_count<I: Iterator>(mut it: I) -> usize { let mut n = 0usize; while let Some(_) = it.next() { n += 1; } n }
pub fn m_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x) } }
pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc
}
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false } } true }
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true } } false }
pub fn m_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x) } } None }
pub fn m_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b) } } None }
pub fn m_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> { let mut n = 0; while let Some(x) = it.next() { if f(x) { return Some(n) } n += 1; } None }
pub fn m_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x) } }
pub fn m_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> { let mut v = Vec::new(); let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x) } v }
pub fn m_list_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> LinkedList<T> { let mut v = LinkedList::new(); let mut it = it.into_iter(); while let Some(x) = it.next() { v.push_back(x) } v }
pub fn m_list_extend<T, I: IntoIterator<Item = T>>(v: &mut LinkedList<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push_back(x) } }
pub fn m_map_from_iter<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V> { let mut v = HashMap::new(); let mut it = it.into_iter(); while let Some((a, b)) = it.next() { v.insert(a, b); } v }
pub fn m_map_extend<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(v: &mut HashMap<K, V>, it: I) { let mut it = it.into_iter(); while let Some((a, b)) = it.next() { v.insert(a, b); } }
pub fn m_result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut v = Vec::new(); let mut it = it.into_iter();
    while let Some(x) = it.next() { match x { Ok(a) => v.push(a), Err(e) => return Err(e) } }
    Ok(V::from_iter(v))
}
pub fn m_option_from_iter<A, V: FromIterator<A>, I: IntoIterator<Item = Option<A>>>(it: I) -> Option<V> {
    let mut v = Vec::new(); let mut it = it.into_iter();
    while let Some(x) = it.next() { match x { Some(a) => v.push(a), None => return None } }
    Some(V::from_iter(v))
}
pub fn m_string_from_chars<I: IntoIterator<Item = char>>(it: I) -> String { let mut s = String::new(); let mut it = it.into_iter(); while let Some(x) = it.next() { s.push(x) } s }
pub fn m_string_from_strings<I: IntoIterator<Item = String>>(it: I) -> String { let mut s = String::new(); let mut it = it.into_iter(); while let Some(x) = it.next() { s.push_str(&x) } s }
pub fn m_string_extend_chars<I: IntoIterator<Item = char>>(s: &mut String, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { s.push(x) } }
pub fn m_string_from_strs<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String { let mut s = String::new(); let mut it = it.into_iter(); while let Some(x) = it.next() { s.push_str(x) } s }
pub fn m_string_extend_strs<'a, I: IntoIterator<Item = &'a str>>(s: &mut String, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { s.push_str(x) } }
pub fn m_string_extend_strings<I: IntoIterator<Item = String>>(s: &mut String, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { s.push_str(&x) } }
pub fn m_str_is_ascii(s: &str) -> bool { for c in s.chars() { if c as u32 > 127 { return false } } true }
pub fn m_str_lower(s: &str) -> String { let mut o = String::new(); for c in s.chars() { o.push(c.to_ascii_lowercase()) } o }
pub fn m_str_upper(s: &str) -> String { let mut o = String::new(); for c in s.chars() { o.push(c.to_ascii_uppercase()) } o }
