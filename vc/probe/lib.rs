//! Functions whose bodies are nothing but one use of a macro of the crates, so that what the macro expands to can be verified.
#![feature(unsized_fn_params, allocator_api, ptr_metadata, unsize)]
#![allow(internal_features)]
use core::marker::Unsize;
use emplacable::{by_value_str, unsize, Emplacable, EmplacableFn};
use unsized_vec::{unsize_vec, unsized_vec, UnsizedVec};

pub fn sink<T: ?Sized>(value: T) -> bool {
    let _ = &value;
    true
}

pub fn probe_unsize<T: ?Sized, S: Unsize<T>>(value: S) -> bool {
    sink::<T>(unsize!(value, (S) -> T))
}
pub fn probe_by_value_str() -> bool {
    sink::<str>(by_value_str!("proof"))
}
pub fn probe_unsize_vec_0<T: ?Sized>() -> UnsizedVec<T> {
    unsize_vec![]
}
pub fn probe_unsize_vec_1<T: ?Sized, A: Unsize<T>>(a: A) -> UnsizedVec<T> {
    unsize_vec![a]
}
pub fn probe_unsize_vec_3<T: ?Sized, A: Unsize<T>, B: Unsize<T>, C: Unsize<T>>(a: A, b: B, c: C) -> UnsizedVec<T> {
    unsize_vec![a, b, c,]
}
pub fn probe_unsized_vec_0<T: ?Sized>() -> UnsizedVec<T> {
    unsized_vec![]
}
pub fn probe_unsized_vec_1<T: ?Sized, E: EmplacableFn<T>>(a: Emplacable<T, E>) -> UnsizedVec<T> {
    unsized_vec![a]
}
pub fn probe_unsized_vec_3<T: ?Sized, E: EmplacableFn<T>, F: EmplacableFn<T>, G: EmplacableFn<T>>(a: Emplacable<T, E>, b: Emplacable<T, F>, c: Emplacable<T, G>) -> UnsizedVec<T> {
    unsized_vec![a, b, c]
}
pub fn probe_unsized_vec_3_values<T>(a: T, b: T, c: T) -> UnsizedVec<T> {
    unsized_vec![a, b, c,]
}
