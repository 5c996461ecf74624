//! What the standard iterator combinators do, written as plain loops.  The MIR of these functions is extracted with the
//! same driver as the repository's and inlined by the abstract interpreter wherever the combinator is called, so that a
//! loop and the equivalent combinator chain are analysed alike.
#![allow(clippy::all, dead_code)]

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn try_for_each_res<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(mut it: I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Ok(())
}
pub fn try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(mut it: I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Some(())
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_fold_res<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(mut it: I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Ok(acc)
}
pub fn try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(mut it: I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    Some(acc)
}
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(mut it: I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn drain<I: Iterator>(mut it: I) {
    while let Some(_) = it.next() {}
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn collect_vec_res<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x?);
    }
    Ok(v)
}
pub fn collect_vec_opt<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x?);
    }
    Some(v)
}
pub fn map_next<I: Iterator, B, F: FnMut(I::Item) -> B>(mut it: I, mut f: F) -> Option<B> {
    match it.next() {
        Some(x) => Some(f(x)),
        None => None,
    }
}
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        Some(x) => {
            f(&x);
            Some(x)
        }
        None => None,
    }
}
pub fn filter_next<I: Iterator, P: FnMut(&I::Item) -> bool>(mut it: I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn take_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(mut it: I, mut p: P) -> Option<I::Item> {
    match it.next() {
        Some(x) => {
            if p(&x) {
                Some(x)
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn map_while_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(mut it: I, mut f: F) -> Option<B> {
    match it.next() {
        Some(x) => f(x),
        None => None,
    }
}
pub fn skip_while_next<I: Iterator, P: FnMut(&I::Item) -> bool>(mut it: I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if !p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn enumerate_next<I: Iterator>(mut it: I, n: usize) -> Option<(usize, I::Item)> {
    match it.next() {
        Some(x) => Some((n, x)),
        None => None,
    }
}
pub fn zip_next<I: Iterator, J: Iterator>(mut it: I, mut jt: J) -> Option<(I::Item, J::Item)> {
    match it.next() {
        Some(x) => match jt.next() {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}
pub fn chain_next<T, I: Iterator<Item = T>, J: Iterator<Item = T>>(mut it: I, mut jt: J) -> Option<T> {
    match it.next() {
        Some(x) => Some(x),
        None => jt.next(),
    }
}
