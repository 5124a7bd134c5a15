//! What some functions of std do, written out: the analysis takes these bodies
//! in place of the (specialised, unsafe) ones in std.  A function is named
//! after the std path it stands for and has its type parameters in order.
#![allow(non_snake_case, unused)]

// ---------------------------------------------------------------- collecting
pub fn std_vec_vec_t_as_std_iter_fromiterator_t_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn std_string_string_as_std_iter_fromiterator_char_from_iter<I: IntoIterator<Item = char>>(i: I) -> String {
    let mut v = String::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn std_string_string_as_std_iter_fromiterator_a_char_from_iter<'a, I: IntoIterator<Item = &'a char>>(i: I) -> String {
    let mut v = String::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
    v
}
pub fn std_string_string_as_std_iter_fromiterator_a_str_from_iter<'a, I: IntoIterator<Item = &'a str>>(i: I) -> String {
    let mut v = String::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push_str(x);
    }
    v
}
pub fn std_string_string_as_std_iter_fromiterator_std_string_string_from_iter<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut v = String::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push_str(&x);
    }
    v
}
// ----------------------------------------------------------------- extending
pub fn std_vec_vec_t_a_as_std_iter_extend_t_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn std_vec_vec_t_a_as_std_iter_extend_a_t_extend<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn std_string_string_as_std_iter_extend_char_extend<I: IntoIterator<Item = char>>(v: &mut String, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn std_string_string_as_std_iter_extend_a_str_extend<'a, I: IntoIterator<Item = &'a str>>(v: &mut String, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push_str(x);
    }
}
pub fn std_string_string_as_std_iter_extend_std_string_string_extend<I: IntoIterator<Item = String>>(v: &mut String, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push_str(&x);
    }
}
pub fn std_vec_vec_t_a_as_std_iter_extend_t_extend_one<T, A>(v: &mut Vec<T>, x: T) {
    v.push(x);
}
// -------------------------------------------------------- results of iterators
pub fn std_result_result_v_e_as_std_iter_fromiterator_std_result_result_t_e_from_iter<
    A,
    E,
    V: FromIterator<A>,
    I: IntoIterator<Item = Result<A, E>>,
>(
    i: I,
) -> Result<V, E> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        match x {
            Ok(x) => v.push(x),
            Err(e) => return Err(e),
        }
    }
    Ok(v.into_iter().collect())
}
pub fn std_option_option_v_as_std_iter_fromiterator_std_option_option_t_from_iter<
    A,
    V: FromIterator<A>,
    I: IntoIterator<Item = Option<A>>,
>(
    i: I,
) -> Option<V> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        match x {
            Some(x) => v.push(x),
            None => return None,
        }
    }
    Some(v.into_iter().collect())
}
// ------------------------------------------------------------------ searching
pub fn std_slice_iter_a_t_as_std_iter_iterator_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, f: F) -> bool {
    let mut f = f;
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn std_slice_iter_a_t_as_std_iter_iterator_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, f: F) -> bool {
    let mut f = f;
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn std_iter_iterator_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool {
    let mut f = f;
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn std_iter_iterator_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool {
    let mut f = f;
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn std_vec_vec_t_a_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F) {
    let mut f = f;
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
// ------------------------------------------------------------------ made once
pub fn std_sync_oncelock_t_get_or_init<T, F: FnOnce() -> T>(_l: &std::sync::OnceLock<T>, f: F) -> T {
    f()
}
