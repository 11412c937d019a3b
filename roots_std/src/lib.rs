// Small programs over the std functions that engine/models.py gives contracts to: tools/stdcheck.py runs
// them, and compares what they give with what the executor says they give.
#![allow(clippy::all, unused_mut, unused_variables)]
use std::collections::hash_map::Entry;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type E = String;

pub trait Show { fn show(&self) -> String; }
impl Show for bool { fn show(&self) -> String { self.to_string() } }
impl Show for usize { fn show(&self) -> String { self.to_string() } }
impl Show for () { fn show(&self) -> String { "null".to_string() } }
impl Show for String { fn show(&self) -> String { format!("{self:?}") } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { self.as_ref().map_or("null".to_string(), |x| format!("[{}]", x.show())) } }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { format!("[{}]", self.iter().map(Show::show).collect::<Vec<_>>().join(",")) } }
impl<T: Show, U: Show> Show for Result<T, U> { fn show(&self) -> String { match self { Ok(x) => format!("{{\"Ok\":{}}}", x.show()), Err(x) => format!("{{\"Err\":{}}}", x.show()) } } }
impl<T: Show, U: Show> Show for (T, U) { fn show(&self) -> String { format!("[{},{}]", self.0.show(), self.1.show()) } }
impl<T: Show, U: Show, X: Show> Show for (T, U, X) { fn show(&self) -> String { format!("[{},{},{}]", self.0.show(), self.1.show(), self.2.show()) } }

macro_rules! roots { ($($n:ident : $t:ty = |$v:ident, $w:ident, $k:ident| $b:expr;)*) => {
    $( pub fn $n($v: Vec<E>, $w: Vec<E>, $k: E) -> $t { $b } )*
    pub fn table() -> Vec<(&'static str, fn(Vec<E>, Vec<E>, E) -> String)> {
        vec![$( (stringify!($n), |v, w, k| $n(v, w, k).show()) ),*]
    }
} }

roots! {
    root_vec_new: impl Show = |v, w, k| Vec::<E>::new();
    root_push: impl Show = |v, w, k| { let mut v = v; v.push(k); v };
    root_push_twice: impl Show = |v, w, k| { let mut v = v; v.push(k.clone()); v.push(k); v };
    root_pop: impl Show = |v, w, k| { let mut v = v; let x = v.pop(); (v, x) };
    root_pop_pushed: impl Show = |v, w, k| { let mut v = v; v.push(k); let x = v.pop(); (v, x) };
    root_len: impl Show = |v, w, k| v.len();
    root_is_empty: impl Show = |v, w, k| v.is_empty();
    root_insert_0: impl Show = |v, w, k| { let mut v = v; v.insert(0, k); v };
    root_insert_1: impl Show = |v, w, k| { let mut v = v; if v.len() > 0 { v.insert(1, k); } v };
    root_append: impl Show = |v, w, k| { let mut v = v; let mut w = w; v.append(&mut w); (v, w) };
    root_clear: impl Show = |v, w, k| { let mut v = v; v.clear(); v };
    root_extend: impl Show = |v, w, k| { let mut v = v; v.extend(w); v };
    root_extend_opt: impl Show = |v, w, k| { let mut v = v; v.extend(Some(k)); v };
    root_extend_slice: impl Show = |v, w, k| { let mut v = v; v.extend_from_slice(&w); v };
    root_first: impl Show = |v, w, k| v.first().cloned();
    root_last: impl Show = |v, w, k| v.last().cloned();
    root_last_mut: impl Show = |v, w, k| { let mut v = v; if let Some(x) = v.last_mut() { *x = k; } v };
    root_first_mut: impl Show = |v, w, k| { let mut v = v; if let Some(x) = v.first_mut() { *x = k; } v };
    root_get_0: impl Show = |v, w, k| v.get(0).cloned();
    root_get_1: impl Show = |v, w, k| v.get(1).cloned();
    root_get_range: impl Show = |v, w, k| v.get(0..2).map(|x| x.to_vec());
    root_get_mut_1: impl Show = |v, w, k| { let mut v = v; if let Some(x) = v.get_mut(1) { *x = k; } v };
    root_index_1: impl Show = |v, w, k| if v.len() > 1 { Some(v[1].clone()) } else { None };
    root_index_from: impl Show = |v, w, k| if v.len() > 1 { v[1..].to_vec() } else { v };
    root_index_to: impl Show = |v, w, k| if v.len() > 1 { v[..1].to_vec() } else { v };
    root_index_set: impl Show = |v, w, k| { let mut v = v; if v.len() > 1 { v[1] = k; } v };
    root_retain_eq: impl Show = |v, w, k| { let mut v = v; v.retain(|x| *x != k); v };
    root_remove_0: impl Show = |v, w, k| { let mut v = v; if v.is_empty() { (v, None) } else { let x = v.remove(0); (v, Some(x)) } };
    root_remove_1: impl Show = |v, w, k| { let mut v = v; if v.len() < 2 { (v, None) } else { let x = v.remove(1); (v, Some(x)) } };
    root_swap_remove_0: impl Show = |v, w, k| { let mut v = v; if v.is_empty() { (v, None) } else { let x = v.swap_remove(0); (v, Some(x)) } };
    root_truncate_1: impl Show = |v, w, k| { let mut v = v; v.truncate(1); v };
    root_truncate_built: impl Show = |v, w, k| { let mut v = v; v.push(k); v.truncate(2); v };
    root_split_off_1: impl Show = |v, w, k| { let mut v = v; if v.len() > 0 { let w = v.split_off(1); (v, w) } else { (v, w) } };
    root_dedup: impl Show = |v, w, k| { let mut v = v; v.dedup(); v };
    root_reverse: impl Show = |v, w, k| { let mut v = v; v.reverse(); v };
    root_reverse_pushed: impl Show = |v, w, k| { let mut v = v; v.push(k); v.reverse(); v };
    root_swap: impl Show = |v, w, k| { let mut v = v; if v.len() > 1 { v.swap(0, 1); } v };
    root_split_at: impl Show = |v, w, k| if v.len() > 0 { let (a, b) = v.split_at(1); (a.to_vec(), b.to_vec()) } else { (v, w) };
    root_split_first: impl Show = |v, w, k| v.split_first().map(|(a, b)| (a.clone(), b.to_vec()));
    root_split_last: impl Show = |v, w, k| v.split_last().map(|(a, b)| (a.clone(), b.to_vec()));
    root_contains: impl Show = |v, w, k| v.contains(&k);
    root_contains_pushed: impl Show = |v, w, k| { let mut v = v; v.push(k.clone()); v.contains(&k) };
    root_concat: impl Show = |v, w, k| [v, w].concat();
    root_to_vec: impl Show = |v, w, k| v.to_vec();
    root_clone: impl Show = |v, w, k| v.clone();
    root_eq: impl Show = |v, w, k| v == w;
    root_ne: impl Show = |v, w, k| v != w;
    root_eq_push: impl Show = |v, w, k| { let mut x = v.clone(); x.push(k); x == w };
    root_slice_eq: impl Show = |v, w, k| v.as_slice() == w.as_slice();
    root_match_slice: impl Show = |v, w, k| match v.as_slice() { [] => 0usize, [_] => 1, [a, .., b] if a == b => 2, [_, rest @ ..] => rest.len() };
    root_iter_collect: impl Show = |v, w, k| v.iter().cloned().collect::<Vec<_>>();
    root_into_iter: impl Show = |v, w, k| v.into_iter().collect::<Vec<_>>();
    root_for_push: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { out.push(x); } out };
    root_for_filter: impl Show = |v, w, k| { let mut out = Vec::new(); for x in &v { if *x != k { out.push(x.clone()); } } out };
    root_for_break: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { if x == k { break; } out.push(x); } out };
    root_for_count: impl Show = |v, w, k| { let mut n = 0usize; for x in &v { if *x == k { n += 1; } } n };
    root_for_two: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { out.push(x); } for x in w { out.push(x); } out };
    root_for_last: impl Show = |v, w, k| { let mut out = None; for x in v { out = Some(x); } out };
    root_for_first: impl Show = |v, w, k| { let mut out = None; for x in v { if out.is_none() { out = Some(x); } } out };
    root_for_flag: impl Show = |v, w, k| { let mut seen = false; for x in &v { seen |= *x == k; } seen };
    root_for_mut: impl Show = |v, w, k| { let mut v = v; for x in v.iter_mut() { if *x == k { *x = String::new(); } } v };
    root_for_nested: impl Show = |v, w, k| { let mut out = Vec::new(); for x in &v { for y in &w { if x == y { out.push(x.clone()); } } } out };
    root_while_let: impl Show = |v, w, k| { let mut out = Vec::new(); let mut it = v.into_iter(); while let Some(x) = it.next() { out.push(x); } out };
    root_while_index: impl Show = |v, w, k| { let mut out = Vec::new(); let mut i = 0; while i < v.len() { out.push(v[i].clone()); i += 1; } out };
    root_loop_index: impl Show = |v, w, k| { let mut i = 0; loop { if i >= v.len() { break None; } if v[i] == k { break Some(i); } i += 1; } };
    root_for_range: impl Show = |v, w, k| { let mut out = Vec::new(); for i in 0..v.len() { out.push(v[i].clone()); } out };
    root_for_all_prev: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { if !out.contains(&x) { out.push(x); } } out };
    root_filter: impl Show = |v, w, k| v.into_iter().filter(|x| *x != k).collect::<Vec<_>>();
    root_filter_map: impl Show = |v, w, k| v.into_iter().filter_map(|x| if x == k { None } else { Some(x) }).collect::<Vec<_>>();
    root_flat_map: impl Show = |v, w, k| v.iter().flat_map(|x| w.iter().filter(move |y| *y != x)).cloned().collect::<Vec<_>>();
    root_flat_map_opt: impl Show = |v, w, k| v.into_iter().flat_map(|x| if x == k { None } else { Some(x) }).collect::<Vec<_>>();
    root_flatten: impl Show = |v, w, k| vec![v, w].into_iter().flatten().collect::<Vec<_>>();
    root_flatten_opt: impl Show = |v, w, k| vec![v.first(), w.first()].into_iter().flatten().cloned().collect::<Vec<_>>();
    root_chain: impl Show = |v, w, k| v.into_iter().chain(w).collect::<Vec<_>>();
    root_chain_once: impl Show = |v, w, k| v.into_iter().chain(std::iter::once(k)).collect::<Vec<_>>();
    root_once_chain: impl Show = |v, w, k| std::iter::once(k).chain(v).collect::<Vec<_>>();
    root_enumerate: impl Show = |v, w, k| v.iter().enumerate().filter(|(i, _)| *i != 1).map(|(_, x)| x.clone()).collect::<Vec<_>>();
    root_enumerate_find: impl Show = |v, w, k| v.iter().enumerate().find(|(_, x)| **x == k).map(|(i, _)| i);
    root_enumerate_skip: impl Show = |v, w, k| v.iter().enumerate().skip(1).map(|(i, _)| i).collect::<Vec<_>>();
    root_zip: impl Show = |v, w, k| v.into_iter().zip(w).collect::<Vec<_>>();
    root_zip_all: impl Show = |v, w, k| v.iter().zip(w.iter()).all(|(a, b)| a == b);
    root_zip_tail: impl Show = |v, w, k| v.iter().zip(v.iter().skip(1)).any(|(a, b)| a == b);
    root_rev: impl Show = |v, w, k| v.into_iter().rev().collect::<Vec<_>>();
    root_rev_chain: impl Show = |v, w, k| v.into_iter().chain(w).rev().collect::<Vec<_>>();
    root_rev_find: impl Show = |v, w, k| v.iter().rev().find(|x| **x != k).cloned();
    root_rev_position: impl Show = |v, w, k| v.iter().rev().position(|x| *x == k);
    root_skip: impl Show = |v, w, k| v.into_iter().skip(1).collect::<Vec<_>>();
    root_take: impl Show = |v, w, k| v.into_iter().take(2).collect::<Vec<_>>();
    root_skip_chain: impl Show = |v, w, k| v.into_iter().chain(w).skip(1).collect::<Vec<_>>();
    root_take_while: impl Show = |v, w, k| v.into_iter().take_while(|x| *x != k).collect::<Vec<_>>();
    root_skip_while: impl Show = |v, w, k| v.into_iter().skip_while(|x| *x != k).collect::<Vec<_>>();
    root_map_while: impl Show = |v, w, k| v.into_iter().map_while(|x| if x == k { None } else { Some(x) }).collect::<Vec<_>>();
    root_next: impl Show = |v, w, k| { let mut it = v.into_iter(); let a = it.next(); let b = it.next(); (a, b, it.collect::<Vec<_>>()) };
    root_peek: impl Show = |v, w, k| { let mut it = v.into_iter().peekable(); let p = it.peek().cloned(); (p, it.collect::<Vec<_>>()) };
    root_find: impl Show = |v, w, k| v.iter().find(|x| **x != k).cloned();
    root_find_map: impl Show = |v, w, k| v.iter().find_map(|x| if *x != k { Some(x.clone()) } else { None });
    root_any: impl Show = |v, w, k| v.iter().any(|x| *x == k);
    root_all: impl Show = |v, w, k| v.iter().all(|x| *x == k);
    root_position: impl Show = |v, w, k| v.iter().position(|x| *x == k);
    root_position_pushed: impl Show = |v, w, k| { let mut v = v; v.push(k.clone()); v.iter().position(|x| *x == k) };
    root_position_chain: impl Show = |v, w, k| v.iter().chain(w.iter()).position(|x| *x == k);
    root_count: impl Show = |v, w, k| v.iter().filter(|x| **x == k).count();
    root_nth: impl Show = |v, w, k| v.into_iter().nth(1);
    root_nth_filter: impl Show = |v, w, k| v.into_iter().filter(|x| *x != k).nth(0);
    root_partition: impl Show = |v, w, k| v.into_iter().partition::<Vec<_>, _>(|x| *x == k);
    root_unzip: impl Show = |v, w, k| v.into_iter().zip(w).unzip::<E, E, Vec<E>, Vec<E>>();
    root_iter_last: impl Show = |v, w, k| v.into_iter().last();
    root_last_filter: impl Show = |v, w, k| v.iter().filter(|x| **x != k).last().cloned();
    root_fold_push: impl Show = |v, w, k| v.into_iter().fold(Vec::new(), |mut a, x| { a.push(x); a });
    root_fold_or: impl Show = |v, w, k| v.iter().fold(false, |a, x| a || *x == k);
    root_fold_count: impl Show = |v, w, k| v.iter().fold(0usize, |a, x| if *x == k { a + 1 } else { a });
    root_try_fold: impl Show = |v, w, k| v.iter().try_fold((), |_, x| if *x == k { None } else { Some(()) }).is_some();
    root_try_for_each: impl Show = |v, w, k| v.iter().try_for_each(|x| if *x == k { Err(x.clone()) } else { Ok(()) });
    root_collect_result: impl Show = |v, w, k| v.into_iter().map(|x| if x == k { Err(x) } else { Ok(x) }).collect::<Result<Vec<_>, _>>();
    root_collect_option: impl Show = |v, w, k| v.into_iter().map(|x| if x == k { None } else { Some(x) }).collect::<Option<Vec<_>>>();
    root_max_len: impl Show = |v, w, k| std::cmp::max(v.len(), w.len());
    root_eq_iter: impl Show = |v, w, k| v.iter().eq(w.iter());
    root_opt_iter: impl Show = |v, w, k| v.first().into_iter().chain(w.first()).cloned().collect::<Vec<_>>();
    root_opt_zip: impl Show = |v, w, k| v.first().zip(w.first()).map(|(a, b)| a == b);
    root_opt_filter: impl Show = |v, w, k| v.first().filter(|x| **x != k).cloned();
    root_opt_xor: impl Show = |v, w, k| v.first().xor(w.first()).cloned();
    root_opt_get_or: impl Show = |v, w, k| { let mut o = v.into_iter().next(); o.get_or_insert(k); o };
    root_opt_take: impl Show = |v, w, k| { let mut o = v.into_iter().next(); let p = o.take(); (o, p) };
    root_opt_replace: impl Show = |v, w, k| { let mut o = v.into_iter().next(); let p = o.replace(k); (o, p) };
    root_mem_take: impl Show = |v, w, k| { let mut v = v; let p = std::mem::take(&mut v); (v, p) };
    root_mem_replace: impl Show = |v, w, k| { let mut v = v; let p = std::mem::replace(&mut v, w); (v, p) };
    root_mem_swap: impl Show = |v, w, k| { let (mut v, mut w) = (v, w); std::mem::swap(&mut v, &mut w); (v, w) };
    root_boxed: impl Show = |v, w, k| v.into_iter().map(Box::new).map(|x| *x).collect::<Vec<_>>();
    root_array: impl Show = |v, w, k| [k.clone(), k].into_iter().chain(v).collect::<Vec<_>>();
    root_str_empty: impl Show = |v, w, k| k.is_empty();
    root_str_eq: impl Show = |v, w, k| v.first().map(|x| x.as_str() == k);
    root_str_match: impl Show = |v, w, k| match k.as_str() { "a" => 1usize, "b" => 2, "" => 3, _ => 4 };
    root_map_collect_get: impl Show = |v, w, k| v.into_iter().zip(w).collect::<HashMap<_, _>>().get(&k).cloned();
    root_map_contains: impl Show = |v, w, k| v.into_iter().map(|x| (x, ())).collect::<HashMap<_, _>>().contains_key(&k);
    root_map_empty: impl Show = |v, w, k| v.into_iter().zip(w).collect::<HashMap<_, _>>().is_empty();
    root_map_len: impl Show = |v, w, k| v.into_iter().zip(w).collect::<HashMap<_, _>>().len();
    root_map_insert: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); let old = m.insert(k.clone(), 2); (old, m.get(&k).cloned(), w.first().and_then(|x| m.get(x)).cloned()) };
    root_map_fill: impl Show = |v, w, k| { let mut m: HashMap<E, E> = HashMap::new(); for (x, y) in v.into_iter().zip(w) { m.insert(x, y); } m.get(&k).cloned() };
    root_map_first_wins: impl Show = |v, w, k| { let mut m: HashMap<E, E> = HashMap::new(); for (x, y) in v.into_iter().zip(w) { m.entry(x).or_insert(y); } m.get(&k).cloned() };
    root_map_repeat: impl Show = |v, w, k| { let mut m: HashMap<E, ()> = HashMap::new(); let mut r = None; for x in v { if m.insert(x.clone(), ()).is_some() { r = Some(x); break; } } r };
    root_map_entry: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); match m.entry(k.clone()) { Entry::Occupied(_) => 0usize, Entry::Vacant(e) => *e.insert(3) } };
    root_map_entry_or: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); *m.entry(k).or_insert(5) };
    root_map_entry_default: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); *m.entry(k).or_default() };
    root_map_remove: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); let r = m.remove(&k); (r, m.contains_key(&k), w.first().map(|x| m.contains_key(x))) };
    root_map_values: impl Show = |v, w, k| { let m: HashMap<E, usize> = v.iter().cloned().map(|x| (x, 1)).collect(); m.values().all(|n| *n == 1) };
    root_map_keys: impl Show = |v, w, k| { let m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); m.keys().any(|x| *x == k) };
    root_map_iter: impl Show = |v, w, k| { let m: HashMap<E, E> = v.into_iter().zip(w).collect(); m.iter().any(|(a, b)| a == b) };
    root_map_into_iter: impl Show = |v, w, k| { let m: HashMap<E, E> = v.into_iter().zip(w).collect(); m.into_iter().find(|(a, _)| *a == k).map(|(_, b)| b) };
    root_map_extend: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); m.extend(w.into_iter().map(|x| (x, 2))); m.get(&k).cloned() };
    root_map_values_mut: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); for x in m.values_mut() { *x = 2; } m.get(&k).cloned() };
    root_map_get_mut: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); if let Some(x) = m.get_mut(&k) { *x = 7; } (m.get(&k).cloned(), w.first().and_then(|x| m.get(x)).cloned()) };
    root_map_filter: impl Show = |v, w, k| v.into_iter().map(|x| (x, 1usize)).collect::<HashMap<_, _>>().into_iter().filter(|(x, _)| *x != k).collect::<HashMap<_, _>>().contains_key(w.first().map(|x| x.as_str()).unwrap_or("a"));
    root_map_retain: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = v.into_iter().map(|x| (x, 1)).collect(); m.retain(|x, _| *x != k); w.first().map(|x| m.contains_key(x)) };
    root_map_eq: impl Show = |v, w, k| v.into_iter().map(|x| (x, 1)).collect::<HashMap<_, usize>>() == w.into_iter().map(|x| (x, 1)).collect::<HashMap<_, usize>>();
    root_btree_get: impl Show = |v, w, k| v.into_iter().zip(w).collect::<BTreeMap<_, _>>().get(&k).cloned();
    root_set_contains: impl Show = |v, w, k| v.into_iter().collect::<HashSet<_>>().contains(&k);
    root_set_insert: impl Show = |v, w, k| { let mut s: HashSet<E> = v.into_iter().collect(); let n = s.insert(k.clone()); (n, s.contains(&k)) };
    root_set_repeat: impl Show = |v, w, k| { let mut s = HashSet::new(); v.iter().find(|x| !s.insert(x.as_str())).cloned() };
    root_set_all: impl Show = |v, w, k| { let mut s = HashSet::new(); v.iter().all(|x| s.insert(x)) };
    root_set_empty: impl Show = |v, w, k| v.into_iter().collect::<HashSet<_>>().is_empty();
    root_bset_contains: impl Show = |v, w, k| v.into_iter().collect::<BTreeSet<_>>().contains(&k);
    root_for_push_two: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { out.push(x.clone()); out.push(x); } out };
    root_for_push_two_cond: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { if x == k { out.push(w.first().cloned()); } out.push(Some(x)); } out };
    root_while_down: impl Show = |v, w, k| { let mut out = Vec::new(); let mut i = v.len(); while i > 0 { i -= 1; out.push(v[i].clone()); } out };
    root_while_ne: impl Show = |v, w, k| { let mut out = Vec::new(); let mut i = 0; while i != v.len() { out.push(v[i].clone()); i += 1; } out };
    root_while_flag: impl Show = |v, w, k| { let mut i = 0; let mut hit = false; while i < v.len() { if v[i] == k { hit = true; break; } i += 1; } (hit, i) };
    root_while_and: impl Show = |v, w, k| { let mut i = 0; while i < v.len() && v[i] != k { i += 1; } i };
    root_while_pairs: impl Show = |v, w, k| { let mut i = 1; let mut r = true; while i < v.len() { if v[i - 1] == v[i] { r = false; } i += 1; } r };
    root_range_pairs: impl Show = |v, w, k| (1..v.len()).all(|i| v[i - 1] != v[i]);
    root_windows: impl Show = |v, w, k| v.windows(2).any(|x| x[0] == x[1]);
    root_for_rev: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v.iter().rev() { out.push(x.clone()); } out };
    root_map_two_for: impl Show = |v, w, k| { let mut m: HashMap<E, usize> = HashMap::new(); for x in v { m.insert(x, 1); } for x in w { m.insert(x, 2); } m.get(&k).cloned() };
    root_opt_map_or: impl Show = |v, w, k| v.first().map_or(false, |x| *x == k);
    root_opt_map_or_else: impl Show = |v, w, k| v.first().map_or_else(|| k.clone(), |x| x.clone());
    root_opt_and_then: impl Show = |v, w, k| v.first().and_then(|x| w.iter().find(|y| *y == x)).cloned();
    root_opt_or_else: impl Show = |v, w, k| v.first().or_else(|| w.first()).cloned();
    root_opt_or: impl Show = |v, w, k| v.first().or(w.last()).cloned();
    root_opt_and: impl Show = |v, w, k| v.first().and(w.first()).cloned();
    root_opt_ok_or: impl Show = |v, w, k| v.into_iter().next().ok_or(k);
    root_opt_ok_or_else: impl Show = |v, w, k| v.into_iter().next().ok_or_else(|| k);
    root_opt_is_some_and: impl Show = |v, w, k| v.first().is_some_and(|x| *x == k);
    root_opt_is_none_or: impl Show = |v, w, k| v.first().is_none_or(|x| *x == k);
    root_opt_unwrap_or: impl Show = |v, w, k| v.into_iter().next().unwrap_or(k);
    root_opt_unwrap_or_else: impl Show = |v, w, k| v.into_iter().next().unwrap_or_else(|| k);
    root_opt_unwrap_or_default: impl Show = |v, w, k| v.into_iter().next().unwrap_or_default();
    root_opt_as_deref: impl Show = |v, w, k| v.first().map(String::as_str).map(str::to_owned);
    root_opt_transpose: impl Show = |v, w, k| { let x: Option<Result<E, E>> = v.into_iter().next().map(|x| if x == k { Err(x) } else { Ok(x) }); x.transpose() };
    root_opt_eq: impl Show = |v, w, k| v.first() == w.first();
    root_opt_get_or_insert: impl Show = |v, w, k| { let mut o = v.into_iter().next(); o.get_or_insert(k); o };
    root_opt_insert: impl Show = |v, w, k| { let mut o = v.into_iter().next(); o.insert(k); o };
    root_opt_take_if: impl Show = |v, w, k| { let mut o = v.into_iter().next(); let t = o.take_if(|x| *x == k); (o, t) };
    root_opt_as_mut: impl Show = |v, w, k| { let mut o = v.into_iter().next(); if let Some(x) = o.as_mut() { *x = k; } o };
    root_opt_ref_mut: impl Show = |v, w, k| { let mut o = v.into_iter().next(); if let Some(x) = &mut o { x.clear(); } o };
    root_opt_flatten: impl Show = |v, w, k| v.first().map(|x| (*x == k).then(|| k.clone())).flatten();
    root_opt_cloned_eq: impl Show = |v, w, k| v.first().cloned() == Some(k);
    root_opt_into_vec: impl Show = |v, w, k| v.into_iter().next().into_iter().chain(w).collect::<Vec<_>>();
    root_opt_vec_default: impl Show = |v, w, k| { let o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; o.unwrap_or_default() };
    root_opt_vec_iter: impl Show = |v, w, k| { let o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; o.iter().flatten().filter(|x| **x == k).count() };
    root_opt_vec_flat: impl Show = |v, w, k| { let o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; let p = Some(w); o.into_iter().flatten().chain(p.into_iter().flatten()).collect::<Vec<_>>() };
    root_opt_vec_push: impl Show = |v, w, k| { let mut o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; o.get_or_insert_with(Vec::new).push(k); o };
    root_opt_vec_match: impl Show = |v, w, k| { let mut o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; match &mut o { Some(x) => x.push(k), None => o = Some(vec![k]) } o };
    root_opt_vec_filter: impl Show = |v, w, k| Some(v).filter(|x| !x.is_empty());
    root_opt_vec_take: impl Show = |v, w, k| { let mut o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; let mut x = o.take().unwrap_or_default(); x.push(k); o = Some(x); o };
    root_let_else: impl Show = |v, w, k| { let Some(x) = v.first() else { return k }; x.clone() };
    root_question: impl Show = |v, w, k| { fn f(v: &[E], k: &E) -> Option<E> { let x = v.iter().find(|x| *x != k)?; Some(x.clone()) } f(&v, &k) };
    root_res_question: impl Show = |v, w, k| { fn f(v: &[E], k: &E) -> Result<(), E> { for x in v { g(x, k)?; } Ok(()) } fn g(x: &E, k: &E) -> Result<(), E> { if x == k { Err(x.clone()) } else { Ok(()) } } f(&v, &k) };
    root_res_map_err: impl Show = |v, w, k| v.into_iter().next().ok_or(1usize).map_err(|_| k);
    root_res_and_then: impl Show = |v, w, k| v.into_iter().next().ok_or(k.clone()).and_then(|x| if x == k { Err(k) } else { Ok(x) });
    root_res_ok: impl Show = |v, w, k| v.into_iter().next().ok_or(k).ok();
    root_res_err: impl Show = |v, w, k| v.into_iter().next().ok_or(k).err();
    root_res_or_else: impl Show = |v, w, k| v.into_iter().next().ok_or(k).or_else(|e| w.into_iter().next().ok_or(e));
    root_res_is_ok_and: impl Show = |v, w, k| v.into_iter().next().ok_or(()).is_ok_and(|x| x == k);
    root_res_unwrap_or_else: impl Show = |v, w, k| v.into_iter().next().ok_or(k).unwrap_or_else(|e| e);
    root_res_collect_unit: impl Show = |v, w, k| v.iter().map(|x| if *x == k { Err(x.clone()) } else { Ok(()) }).collect::<Result<(), E>>();
    root_res_find_err: impl Show = |v, w, k| v.iter().map(|x| if *x == k { Err(x.clone()) } else { Ok(()) }).find_map(Result::err);
    root_str_starts: impl Show = |v, w, k| k.starts_with("a");
    root_str_len: impl Show = |v, w, k| k.len() == 1;
    root_str_to_string: impl Show = |v, w, k| k.to_string() == k;
    root_str_format: impl Show = |v, w, k| format!("{k}") == k;
    root_str_cmp_const: impl Show = |v, w, k| matches!(k.as_str(), "a" | "b");
    root_str_as_ref: impl Show = |v, w, k| { fn f(s: impl AsRef<str>) -> bool { s.as_ref() == "a" } f(k) };
    root_str_into: impl Show = |v, w, k| { fn f(s: impl Into<String>) -> String { s.into() } f(k.as_str()) };
    root_str_cow: impl Show = |v, w, k| { let c: std::borrow::Cow<str> = k.as_str().into(); c.into_owned() };
    root_drain_all: impl Show = |v, w, k| { let mut v = v; let w = v.drain(..).collect::<Vec<_>>(); (v, w) };
    root_for_drain: impl Show = |v, w, k| { let mut v = v; let mut out = Vec::new(); for x in v.drain(..) { out.push(x); } out };
    root_map_bool: impl Show = |v, w, k| v.iter().map(|x| *x == k).collect::<Vec<_>>();
    root_sum: impl Show = |v, w, k| v.iter().map(|_| 1usize).sum::<usize>();
    root_inspect: impl Show = |v, w, k| v.iter().inspect(|_| ()).cloned().collect::<Vec<_>>();
    root_filter_next: impl Show = |v, w, k| v.iter().filter(|x| **x != k).next().cloned();
    root_filter_count_zero: impl Show = |v, w, k| v.iter().filter(|x| **x != k).count() == 0;
    root_not_any: impl Show = |v, w, k| !v.iter().any(|x| *x == k);
    root_by_ref: impl Show = |v, w, k| { let mut it = v.into_iter(); let a = it.by_ref().next(); let b = it.collect::<Vec<_>>(); (a, b) };
    root_for_enumerate: impl Show = |v, w, k| { let mut out = Vec::new(); for (i, x) in v.iter().enumerate() { if i > 0 { out.push(x.clone()); } } out };
    root_for_return: impl Show = |v, w, k| { for x in &v { if *x == k { return Some(x.clone()); } } None };
    root_for_labelled: impl Show = |v, w, k| { let mut out = false; 'a: for x in &v { for y in &w { if x == y { out = true; break 'a; } } } out };
    root_for_continue: impl Show = |v, w, k| { let mut out = Vec::new(); for x in v { if x == k { continue; } out.push(x); } out };
    root_for_contains: impl Show = |v, w, k| { let mut out = true; for x in &v { if !w.contains(x) { out = false; } } out };
    root_for_result: impl Show = |v, w, k| { let mut out: Result<(), E> = Ok(()); for x in &v { if *x == k { out = Err(x.clone()); break; } } out };
    root_for_opt_vec: impl Show = |v, w, k| { let o: Option<Vec<E>> = if v.is_empty() { None } else { Some(v) }; let mut n = false; if let Some(o) = &o { for x in o { if *x == k { n = true; } } } n };
    root_while_pop: impl Show = |v, w, k| { let mut v = v; let mut out = Vec::new(); while let Some(x) = v.pop() { out.push(x); } out };
    root_while_first: impl Show = |v, w, k| { let mut r = &v[..]; let mut f = false; while let [x, rest @ ..] = r { if *x == k { f = true; } r = rest; } f };
    root_recursion: impl Show = |v, w, k| { fn f(v: &[E], k: &E) -> bool { match v { [] => false, [x, r @ ..] => x == k || f(r, k) } } f(&v, &k) };
    root_closure_capture: impl Show = |v, w, k| { let mut n = 0usize; v.iter().for_each(|_| n += 1); n };
    root_for_each_push: impl Show = |v, w, k| { let mut out = Vec::new(); v.into_iter().for_each(|x| out.push(x)); out };
    root_vec_macro: impl Show = |v, w, k| vec![k.clone(), k];
    root_vec_with_capacity: impl Show = |v, w, k| { let mut o = Vec::with_capacity(v.len()); o.extend(v); o };
    root_vec_from_iter: impl Show = |v, w, k| Vec::from_iter(v);
    root_vec_from_array: impl Show = |v, w, k| Vec::from([k]);
    root_vec_contains_str: impl Show = |v, w, k| v.iter().any(|x| x == "a");
    root_vec_as_slice: impl Show = |v, w, k| v.as_slice() == w.as_slice();
    root_min: impl Show = |v, w, k| v.into_iter().min();
    root_sorted: impl Show = |v, w, k| { let mut v = v; v.sort(); v };
    root_dedup_adj: impl Show = |v, w, k| { let mut v = v; v.dedup(); v };
    root_chunks: impl Show = |v, w, k| v.chunks(2).map(|x| x.to_vec()).collect::<Vec<_>>();
    root_iter_eq_false: impl Show = |v, w, k| v.iter().ne(w.iter());
    root_cmp_len: impl Show = |v, w, k| v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| x == y);
    root_scan: impl Show = |v, w, k| v.iter().scan(false, |s, x| { *s |= *x == k; Some(*s) }).collect::<Vec<_>>();
    root_step_by: impl Show = |v, w, k| v.into_iter().step_by(2).collect::<Vec<_>>();
    root_repeat_n: impl Show = |v, w, k| std::iter::repeat(k).take(v.len()).collect::<Vec<_>>();
    root_from_fn: impl Show = |v, w, k| { let mut it = v.into_iter(); std::iter::from_fn(move || it.next()).collect::<Vec<_>>() };
    root_bool_then: impl Show = |v, w, k| (v.len() > 1).then(|| v);
    root_bool_xor: impl Show = |v, w, k| v.is_empty() ^ w.is_empty();
    root_str_trim: impl Show = |v, w, k| k.trim() == "a";
    root_str_trim_empty: impl Show = |v, w, k| k.trim().is_empty();
    root_str_lower: impl Show = |v, w, k| k.to_lowercase();
    root_str_ascii_lower: impl Show = |v, w, k| k.to_ascii_lowercase() == "a";
    root_str_ieq: impl Show = |v, w, k| k.eq_ignore_ascii_case("A");
    root_str_chars_next: impl Show = |v, w, k| k.chars().next() == Some('a');
    root_str_chars_all: impl Show = |v, w, k| k.chars().all(|c| c.is_ascii_lowercase());
    root_str_bytes: impl Show = |v, w, k| k.as_bytes().first() == Some(&b'a');
    root_str_split_char: impl Show = |v, w, k| k.split(' ').any(|x| x == "a");
    root_str_split_ws: impl Show = |v, w, k| k.split_whitespace().any(|x| x == "a");
    root_str_contains_char: impl Show = |v, w, k| k.contains('a');
    root_str_contains_str: impl Show = |v, w, k| k.contains("a");
    root_str_find: impl Show = |v, w, k| k.find('a');
    root_str_strip: impl Show = |v, w, k| k.strip_prefix("a").map(str::to_owned);
    root_str_ends_char: impl Show = |v, w, k| k.ends_with('a');
    root_str_starts_char: impl Show = |v, w, k| k.starts_with('a');
    root_str_push: impl Show = |v, w, k| { let mut k = k; k.push('a'); k };
    root_str_push_str: impl Show = |v, w, k| { let mut k = k; k.push_str("a"); k };
    root_str_concat: impl Show = |v, w, k| k + "a";
    root_str_replace: impl Show = |v, w, k| k.replace('a', "b");
    root_str_slice: impl Show = |v, w, k| if k.len() > 1 { k[..1].to_owned() } else { k };
    root_str_cmp: impl Show = |v, w, k| k.as_str() < "b";
    root_str_rsplit: impl Show = |v, w, k| k.rsplit('/').next().map(str::to_owned);
    root_str_split_once: impl Show = |v, w, k| k.split_once(':').map(|x| x.0.to_owned());
    root_str_trim_end: impl Show = |v, w, k| k.trim_end_matches('/').to_owned();
    root_str_char_count: impl Show = |v, w, k| k.chars().count();
    root_str_parse: impl Show = |v, w, k| k.parse::<usize>().ok();
    root_str_join: impl Show = |v, w, k| v.join(",");
    root_str_rev: impl Show = |v, w, k| k.chars().rev().collect::<String>();
    root_str_is_char: impl Show = |v, w, k| k.is_char_boundary(1);
    root_str_chars_filter: impl Show = |v, w, k| k.chars().filter(|c| *c != 'a').collect::<String>();
    root_str_lines: impl Show = |v, w, k| k.lines().count();
    root_rposition: impl Show = |v, w, k| v.iter().rposition(|x| *x == k);
    root_min_by_key: impl Show = |v, w, k| v.iter().min_by_key(|x| x.len()).cloned();
    root_max_by_key: impl Show = |v, w, k| v.iter().max_by_key(|x| x.len()).cloned();
    root_sort_by: impl Show = |v, w, k| { let mut v = v; v.sort_by(|a, b| a.cmp(b)); v };
    root_sort_unstable: impl Show = |v, w, k| { let mut v = v; v.sort_unstable(); v };
    root_dedup_by_key: impl Show = |v, w, k| { let mut v = v; v.dedup_by_key(|x| x.len()); v };
    root_btree_order: impl Show = |v, w, k| { let m: BTreeSet<E> = v.into_iter().collect(); m.into_iter().collect::<Vec<_>>() };
    root_rfind: impl Show = |v, w, k| v.iter().rfind(|x| **x == k).cloned();
    root_drain_filter: impl Show = |v, w, k| { let mut v = v; let n = v.len(); v.drain(..n / 2); v };
    root_splice: impl Show = |v, w, k| { let mut v = v; v.splice(0..0, w); v };
    root_rotate: impl Show = |v, w, k| { let mut v = v; if !v.is_empty() { v.rotate_left(1); } v };
    root_fill: impl Show = |v, w, k| { let mut v = v; v.fill(k); v };
    root_resize: impl Show = |v, w, k| { let mut v = v; v.resize(2, k); v };
    root_insert_len: impl Show = |v, w, k| { let mut v = v; let n = v.len(); v.insert(n, k); v };
    root_extend_iter_map: impl Show = |v, w, k| { let mut v = v; v.extend(w.iter().map(|x| x.clone())); v };
    root_cmp_ord: impl Show = |v, w, k| v.len().cmp(&w.len()) == std::cmp::Ordering::Less;
    root_mem_take_opt: impl Show = |v, w, k| { let mut o = Some(k); let t = o.take(); (o, t) };
    root_sum_len: impl Show = |v, w, k| v.iter().map(|x| x.len()).sum::<usize>();
    root_product_mod: impl Show = |v, w, k| v.len() % 2 == 0;
    root_saturating: impl Show = |v, w, k| v.len().saturating_sub(1);
    root_checked: impl Show = |v, w, k| v.len().checked_sub(1);
    root_wrapping: impl Show = |v, w, k| v.len().wrapping_sub(0);
    root_min_len: impl Show = |v, w, k| v.len().min(w.len());
    root_root_clone_from: impl Show = |v, w, k| { let mut v = v; v.clone_from(&w); v };
    root_root_clone_from_opt: impl Show = |v, w, k| { let mut a = v.first().cloned(); a.clone_from(&w.first().cloned()); a };
}
