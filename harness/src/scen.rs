//! Named scenarios (conversions, trait impls, emplacable consumers, macros, arithmetic).
//! Every scenario runs with the checking allocator and the value ledger on, and must end with
//! nothing leaked, nothing destroyed twice and no invalid allocator call.
use crate::elems::*;
use crate::track;
use crate::vecops::{Op, R, World, guarded};
use emplacable::*;
use std::alloc::Layout;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::ptr::Pointee;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::Ordering::Relaxed;
use unsized_vec::{UnsizedVec, unsize_vec, unsized_vec};

pub type F = fn([usize; 4]) -> R;
/// (name, scenario, properties it decides, parameter grid).  No property: run only by name.
pub const ALL: &[(&str, F, &str, [usize; 4])] = &[
    ("unsize_dyn", unsize_dyn, "C10 C15", [6, 6, 3, 6]),
    ("unsize_slice", unsize_slice, "C10", [4, 6, 3, 6]),
    ("vec_roundtrip", vec_roundtrip, "C10", [3, 6, 3, 2]),
    ("cmp", cmp, "C11", [6, 40, 40, 1]),
    ("serialize", serialize, "C11", [3, 40, 1, 1]),
    ("extend_hint", extend_hint, "C11", [5, 5, 5, 3]),
    ("clone_panic", clone_panic, "C11 C08", [5, 6, 2, 1]),
    ("conv_tok", conv_tok, "C12", [15, 6, 4, 3]),
    ("conv_big", conv_big, "C12 C13", [6, 6, 4, 1]),
    ("conv_text", conv_text, "C12", [6, 6, 12, 1]),
    ("consume_dyn", consume_dyn, "C13", [10, 13, 2, 1]),
    ("consume_slice", consume_slice, "C13", [4, 13, 4, 1]),
    ("consume_text", consume_text, "C13", [6, 8, 1, 1]),
    ("vec_from_emplacables", vec_from_emplacables, "C13", [6, 5, 3, 1]),
    ("consumer_panic", consumer_panic, "C13 C08", [14, 4, 6, 1]),
    ("huge_announced", huge_announced, "C14 C07", [3, 6, 3, 4]),
    ("unsize_macro", unsize_macro, "C15", [10, 3, 1, 1]),
    ("by_value_strings", by_value_strings, "C15", [6, 3, 1, 1]),
    ("vec_macros", vec_macros, "C15", [8, 1, 1, 1]),
    ("with_emplacable", with_emplacable, "C15 C13", [10, 5, 2, 1]),
    // Known findings.
    ("k1_slice_of_zst", k1, "", [1; 4]),
    ("k2_with_emplacable_for_panic", k2, "", [1; 4]),
];

macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

pub fn run(f: F, a: [usize; 4]) -> R {
    reset();
    track::reset();
    track::ON.store(true, Relaxed);
    let live0 = track::LIVE.load(Relaxed);
    let r = match guarded(|| f(a)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {m}")),
    };
    let r = r.and_then(|()| finish(live0));
    CLONED.with(|c| *c.borrow_mut() = Vec::new());
    track::ON.store(false, Relaxed);
    let props = ALL.iter().find(|x| std::ptr::fn_addr_eq(x.1, f)).map_or("", |x| x.2);
    r.map_err(|m| {
        let m = if let Some(i) = m.starts_with('[').then(|| m.find(']')).flatten() { m[i + 1..].trim() } else { &m };
        if props.is_empty() { m.to_owned() } else { format!("[{props}] {m}") }
    })
}
fn finish(live0: usize) -> R {
    if let Some(e) = error() {
        return Err(e);
    }
    CLONED.with(|c| *c.borrow_mut() = Vec::new());
    track::check_all_zones();
    if let Some(e) = track::error() {
        return Err(e);
    }
    ensure!(alive_ids() == 0 && zlive() == 0, "{} values leaked", alive_ids() as i64 + zlive());
    let live = track::LIVE.load(Relaxed);
    ensure!(live == live0, "{} heap allocations leaked", live as i64 - live0 as i64);
    Ok(())
}
/// The vector behaves like `model` now and under a few further operations.
fn follow<K: Kind>(v: UnsizedVec<K::T>, model: Vec<Desc>, op: usize) -> R {
    let mut w = World::<K> { v, model };
    w.check()?;
    let scripts: [&[&str]; 6] = [
        &[],
        &["PUSH 2 1 0 0", "INSERT 1 1 0 0", "REMOVE 1 0 0 0"],
        &["REMOVE 0 0 0 0", "PUSH 3 0 0 0"],
        &["RESERVE 2 1 40 6", "PUSH 1 1 0 0", "SHRINK 0 0 0 0"],
        &["SHRINK 0 0 0 0", "INSERT 0 3 1 0", "POP 0 0 0 0"],
        &["ITER 4242 0 0 0", "PUSH 2 0 0 0", "ITER 777 0 0 0"],
    ];
    for s in scripts[op % 6] {
        w.step(&Op::parse(s).unwrap())?;
        w.check()?;
    }
    drop(std::mem::take(&mut w.v));
    w.model = vec![];
    w.census()
}

fn unsize_dyn([ty, n, spare, op]: [usize; 4]) -> R {
    fn go<S: El + 'static>(mk: impl Fn() -> S, n: usize, spare: usize, op: usize) -> R {
        let mut v: UnsizedVec<S> = match spare {
            0 => UnsizedVec::new(),
            1 => UnsizedVec::with_capacity(n),
            _ => UnsizedVec::with_capacity(n + 3),
        };
        let mut model = vec![];
        for _ in 0..n {
            let e = mk();
            model.push(e.desc());
            v.push(e);
        }
        let u: UnsizedVec<dyn El> = v.unsize();
        follow::<KDyn>(u, model, op)
    }
    match ty {
        0 => go(|| P::<0>::new(0), n, spare, op),
        1 => go(|| E::<1, u8>::new(1), n, spare, op),
        2 => go(|| E::<24, A16>::new(3), n, spare, op),
        3 => go(Z::<u8>::make, n, spare, op),
        4 => go(Z::<A64>::make, n, spare, op),
        _ => go(|| E::<9, A128>::new(9), n, spare, op),
    }
}
fn unsize_slice([ty, n, spare, op]: [usize; 4]) -> R {
    fn go<const N: usize>(n: usize, spare: usize, op: usize) -> R {
        let mut v: UnsizedVec<[Tok; N]> = if spare == 0 { UnsizedVec::new() } else { UnsizedVec::with_capacity(n + spare - 1) };
        let mut model = vec![];
        for _ in 0..n {
            let a: [Tok; N] = std::array::from_fn(|_| Tok::new());
            model.push(KSlice::desc(&a));
            v.push(a);
        }
        follow::<KSlice>(v.unsize::<[Tok]>(), model, op)
    }
    match ty {
        0 => go::<0>(n, spare, op),
        1 => go::<1>(n, spare, op),
        2 => go::<3>(n, spare, op),
        _ => {
            let mut v: UnsizedVec<[T16; 2]> = UnsizedVec::with_capacity(n + spare);
            let mut model = vec![];
            for _ in 0..n {
                let a = [T16::make(), T16::make()];
                model.push(KSlice16::desc(&a));
                v.push(a);
            }
            follow::<KSlice16>(v.unsize::<[T16]>(), model, op)
        }
    }
}
fn vec_roundtrip([ty, n, spare, op]: [usize; 4]) -> R {
    fn go<K: Kind>(n: usize, spare: usize, op: usize) -> R
    where
        K::T: Sized,
    {
        let mut v: Vec<K::T> = Vec::with_capacity(n + spare * 2);
        for _ in 0..n {
            v.push(*K::make(0));
        }
        let model: Vec<Desc> = v.iter().map(K::desc).collect();
        let (p, c) = (v.as_ptr(), v.capacity());
        let calls = track::CALLS.load(Relaxed);
        let u: UnsizedVec<K::T> = v.into();
        let calls = track::CALLS.load(Relaxed) - calls;
        ensure!(u.capacity() == c, "From<Vec> changed the capacity");
        ensure!(u.iter().as_slice_eq(&model, K::desc), "From<Vec> changed the elements");
        {
            let it: std::slice::Iter<'_, K::T> = u.iter().into();
            ensure!(it.as_slice().as_ptr() == p && it.len() == n, "the iterator converts to a different slice iterator");
            let mut back: unsized_vec::UnsizedIter<'_, K::T> = it.into();
            ensure!(back.len() == n && back.nth(n).is_none(), "slice iterator conversion lost elements");
        }
        if op == 1 {
            return follow::<K>(u, model, 1);
        }
        let calls2 = track::CALLS.load(Relaxed);
        let v: Vec<K::T> = u.into();
        ensure!(v.as_ptr() == p && v.capacity() == c && v.len() == n, "Into<Vec> is not the same buffer");
        ensure!(track::CALLS.load(Relaxed) - calls2 + calls == 0, "converting between Vec and UnsizedVec allocated");
        ensure!(v.iter().map(K::desc).eq(model.iter().cloned()), "Into<Vec> changed the elements");
        Ok(())
    }
    match ty {
        0 => go::<KSized>(n, spare, op),
        1 => go::<KSized24>(n, spare, op),
        _ => go::<KSizedZst>(n, spare, op),
    }
}
trait AsSliceEq<T> {
    fn as_slice_eq(self, m: &[Desc], d: fn(&T) -> Desc) -> bool;
}
impl<'a, T: 'a, I: Iterator<Item = &'a T>> AsSliceEq<T> for I {
    fn as_slice_eq(self, m: &[Desc], d: fn(&T) -> Desc) -> bool {
        self.map(d).eq(m.iter().cloned())
    }
}

/// 40 short sequences of small text values.
fn seqs(i: usize) -> Vec<String> {
    let w = ["", "a", "ab", "b"];
    // 1 + 4 + 16 = 21 sequences of length <= 2, then longer ones.
    let v: Vec<&str> = match i {
        0 => vec![],
        1..5 => vec![w[i - 1]],
        5..21 => vec![w[(i - 5) / 4], w[(i - 5) % 4]],
        21..37 => vec!["a", w[(i - 21) / 4], w[(i - 21) % 4]],
        37 => vec!["a", "ab", "b", ""],
        38 => vec!["", "", "", ""],
        _ => vec!["zzzzzzzzzzzzzzzzzzzz", "a", "a", "a", "a", "a"],
    };
    v.into_iter().map(str::to_owned).collect()
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn cmp([ty, i, j, _]: [usize; 4]) -> R {
    fn check<T: ?Sized + PartialOrd + Debug, M: PartialOrd + Debug>(a: &UnsizedVec<T>, b: &UnsizedVec<T>, ma: &[M], mb: &[M]) -> R {
        ensure!((a == b) == (ma == mb), "{a:?} == {b:?} is {}", a == b);
        ensure!((a != b) == (ma != mb), "{a:?} != {b:?} is {}", a != b);
        ensure!(a.partial_cmp(b) == ma.partial_cmp(mb), "partial_cmp({a:?}, {b:?}) is {:?}", a.partial_cmp(b));
        ensure!((a < b, a <= b, a > b, a >= b) == (ma < mb, ma <= mb, ma > mb, ma >= mb), "ordering operators disagree for {a:?} {b:?}");
        ensure!(format!("{a:?}") == format!("{ma:?}"), "Debug output is {a:?}, expected {ma:?}");
        ensure!(format!("{a:#?}") == format!("{ma:#?}"), "alternate Debug output differs");
        Ok(())
    }
    fn total<T: ?Sized + Ord + std::hash::Hash, M: Ord>(a: &UnsizedVec<T>, b: &UnsizedVec<T>, ma: &[M], mb: &[M]) -> R {
        ensure!(a.cmp(b) == ma.cmp(mb), "cmp is {:?}", a.cmp(b));
        if ma == mb {
            ensure!(hash(a) == hash(b), "equal vectors hash differently");
        }
        Ok(())
    }
    let (ma, mb) = (seqs(i), seqs(j));
    match ty {
        0 => {
            let a: UnsizedVec<str> = ma.iter().map(|s| -> Emplacable<str, _> { s.as_str().into() }).collect();
            let mut b: UnsizedVec<str> = UnsizedVec::with_capacity_bytes(3, 50);
            for s in &mb {
                b.push(*s.clone().into_boxed_str());
            }
            check(&a, &b, &ma, &mb)?;
            total(&a, &b, &ma, &mb)
        }
        1 => {
            let a: UnsizedVec<[u8]> = ma.iter().map(|s| -> Emplacable<[u8], _> { s.as_bytes().into() }).collect();
            let b: UnsizedVec<[u8]> = mb.iter().map(|s| -> Emplacable<[u8], _> { s.as_bytes().into() }).collect();
            let (ma, mb): (Vec<_>, Vec<_>) = (ma.iter().map(|s| s.as_bytes()).collect(), mb.iter().map(|s| s.as_bytes()).collect());
            check(&a, &b, &ma, &mb)?;
            total(&a, &b, &ma, &mb)
        }
        2 => {
            let a: UnsizedVec<String> = ma.clone().into();
            let b: UnsizedVec<String> = mb.clone().into();
            check(&a, &b, &ma, &mb)?;
            total(&a, &b, &ma, &mb)
        }
        3 => {
            // Partial order with incomparable elements, both storage strategies.
            let f = |m: &[String]| -> Vec<Vec<f32>> { m.iter().map(|s| s.bytes().map(|b| if b == b'b' { f32::NAN } else { b as f32 }).collect::<Vec<f32>>()).collect() };
            let (fa, fb) = (f(&ma), f(&mb));
            let a: UnsizedVec<[f32]> = fa.iter().map(|s| -> Emplacable<[f32], _> { s.as_slice().into() }).collect();
            let b: UnsizedVec<[f32]> = fb.iter().map(|s| -> Emplacable<[f32], _> { s.as_slice().into() }).collect();
            check(&a, &b, &fa, &fb)
        }
        4 => {
            let f = |m: &[String]| -> Vec<f32> { m.iter().map(|s| if s == "ab" { f32::NAN } else { s.len() as f32 - if s == "b" { 0.5 } else { 0. } }).collect() };
            let (fa, fb) = (f(&ma), f(&mb));
            let (a, b): (UnsizedVec<f32>, UnsizedVec<f32>) = (fa.clone().into(), fb.clone().into());
            check(&a, &b, &fa, &fb)
        }
        _ => {
            // Different element types, and the strategy without a compile-time alignment.
            let a: UnsizedVec<str> = ma.iter().map(|s| -> Emplacable<str, _> { s.as_str().into() }).collect();
            let b: UnsizedVec<OsStr> = mb.iter().map(|s| -> Emplacable<OsStr, _> { OsStr::new(s).into() }).collect();
            let c: UnsizedVec<OsStr> = ma.iter().map(|s| -> Emplacable<OsStr, _> { OsStr::new(s).into() }).collect();
            ensure!((a == b) == (ma == mb) && (b == a) == (ma == mb), "mixed equality of {a:?} and {b:?} is {}", a == b);
            let (oa, ob): (Vec<OsString>, Vec<OsString>) = (ma.iter().map(OsString::from).collect(), mb.iter().map(OsString::from).collect());
            check(&c, &b, &oa, &ob)?;
            total(&c, &b, &oa, &ob)?;
            struct D(String);
            impl Debug for D {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "<{}>", self.0)
                }
            }
            let d: UnsizedVec<dyn Debug> = ma.iter().map(|s| -> Emplacable<D, _> { D(s.clone()).into() }).map(|e| e.unsize::<dyn Debug>()).collect();
            let want = format!("[{}]", ma.iter().map(|s| format!("<{s}>")).collect::<Vec<_>>().join(", "));
            ensure!(format!("{d:?}") == want, "Debug output is {d:?}, expected {want}");
            Ok(())
        }
    }
}

/// A serializer that only understands sequences of strings and records what it is told.
mod ser {
    use serde::ser::*;
    #[derive(Debug)]
    pub struct Er;
    impl std::fmt::Display for Er {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("unexpected serializer call")
        }
    }
    impl std::error::Error for Er {}
    impl Error for Er {
        fn custom<T: std::fmt::Display>(_: T) -> Self {
            Er
        }
    }
    pub struct Rec<'a>(pub &'a mut Vec<String>);
    pub struct Seq<'a>(&'a mut Vec<String>);
    impl<'a> SerializeSeq for Seq<'a> {
        type Ok = ();
        type Error = Er;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
            v.serialize(Rec(self.0))
        }
        fn end(self) -> Result<(), Er> {
            self.0.push("end".into());
            Ok(())
        }
    }
    macro_rules! no {
        ($($n:ident($($t:ty),*);)*) => { $(fn $n(self, $(_: $t),*) -> Result<(), Er> { Err(Er) })* };
    }
    impl<'a> Serializer for Rec<'a> {
        type Ok = ();
        type Error = Er;
        type SerializeSeq = Seq<'a>;
        type SerializeTuple = Impossible<(), Er>;
        type SerializeTupleStruct = Impossible<(), Er>;
        type SerializeTupleVariant = Impossible<(), Er>;
        type SerializeMap = Impossible<(), Er>;
        type SerializeStruct = Impossible<(), Er>;
        type SerializeStructVariant = Impossible<(), Er>;
        fn serialize_str(self, v: &str) -> Result<(), Er> {
            self.0.push(format!("s{v}"));
            Ok(())
        }
        fn serialize_u8(self, v: u8) -> Result<(), Er> {
            self.0.push(format!("u{v}"));
            Ok(())
        }
        fn serialize_seq(self, n: Option<usize>) -> Result<Seq<'a>, Er> {
            self.0.push(format!("seq{n:?}"));
            Ok(Seq(self.0))
        }
        no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u16(u16);
            serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]);
            serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
        fn collect_str<T: ?Sized + std::fmt::Display>(self, _: &T) -> Result<(), Er> {
            Err(Er)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Er> {
            Err(Er)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Er> {
            Err(Er)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> {
            Err(Er)
        }
        fn serialize_tuple(self, _: usize) -> Result<Impossible<(), Er>, Er> {
            Err(Er)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<(), Er>, Er> {
            Err(Er)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<(), Er>, Er> {
            Err(Er)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Impossible<(), Er>, Er> {
            Err(Er)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<(), Er>, Er> {
            Err(Er)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<(), Er>, Er> {
            Err(Er)
        }
    }
}
fn serialize([ty, i, ..]: [usize; 4]) -> R {
    use serde::Serialize;
    let m = seqs(i);
    let mut got = vec![];
    let mut want = vec![];
    let ok = match ty {
        0 => {
            let a: UnsizedVec<str> = m.iter().map(|s| -> Emplacable<str, _> { s.as_str().into() }).collect();
            m.iter().map(|s| s.as_str()).collect::<Vec<&str>>().as_slice().serialize(ser::Rec(&mut want)).is_ok() && a.serialize(ser::Rec(&mut got)).is_ok()
        }
        1 => {
            let a: UnsizedVec<[u8]> = m.iter().map(|s| -> Emplacable<[u8], _> { s.as_bytes().into() }).collect();
            let w: Vec<&[u8]> = m.iter().map(|s| s.as_bytes()).collect();
            w.as_slice().serialize(ser::Rec(&mut want)).is_ok() && a.serialize(ser::Rec(&mut got)).is_ok()
        }
        _ => {
            let w: Vec<u8> = m.iter().map(|s| s.len() as u8).collect();
            let a: UnsizedVec<u8> = w.clone().into();
            w.as_slice().serialize(ser::Rec(&mut want)).is_ok() && a.serialize(ser::Rec(&mut got)).is_ok()
        }
    };
    ensure!(ok, "serialization failed");
    ensure!(got == want, "serialized as {got:?}, expected {want:?}");
    Ok(())
}

/// An iterator whose size hint is (legally) imprecise.
struct Hint<I>(I, usize);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => self.0.size_hint(),
            1 => (0, None),
            2 => (self.0.size_hint().0.min(1), None),
            3 => (self.0.size_hint().0 + 2, None), // wrong, but must stay safe
            _ => (0, Some(self.0.size_hint().0.saturating_sub(1))), // too small: still every element
        }
    }
}
fn extend_hint([pre, n, hint, kind]: [usize; 4]) -> R {
    fn go<K: Kind>(pre: usize, n: usize, hint: usize) -> R {
        let bs: Vec<Box<K::T>> = (0..pre + n).map(|i| K::make((i as u32 + 1) % K::CLASSES)).collect();
        let model: Vec<Desc> = bs.iter().map(|b| K::desc(b)).collect();
        let mut it = bs.into_iter().map(|b| custom(b, Fault::None));
        let mut v: UnsizedVec<K::T> = UnsizedVec::new();
        for _ in 0..pre {
            v.push_with(it.next().unwrap());
        }
        if pre == 0 {
            v = Hint(it, hint).collect();
        } else {
            v.extend(Hint(it, hint));
        }
        follow::<K>(v, model, 1)
    }
    match kind {
        0 => go::<KSized>(pre, n, hint),
        1 => go::<KSlice>(pre, n, hint),
        _ => go::<KDyn>(pre, n, hint),
    }
}
fn clone_panic([n, at, ty, _]: [usize; 4]) -> R {
    fn go<K: Kind>(n: usize, at: usize) -> R {
        let mut v: UnsizedVec<K::T> = UnsizedVec::new();
        let mut model = vec![];
        for _ in 0..n {
            let b = K::make(0);
            model.push(K::desc(&b));
            K::push_val(&mut v, None, b);
        }
        if at < n {
            panic_on_clone(model[at].ids[0]);
        }
        let r = guarded(|| K::clone_vec(&v));
        panic_on_clone(0);
        match r {
            Ok(c) => {
                ensure!(at >= n, "clone() did not clone element {at}");
                drop(c);
            }
            Err(m) => ensure!(at < n && m.starts_with("injected"), "unexpected panic: {m}"),
        }
        CLONED.with(|c| *c.borrow_mut() = Vec::new());
        follow::<K>(v, model, 1)
    }
    if ty == 0 { go::<KSized>(n, at) } else { go::<KSized24>(n, at) }
}

/// What becomes of one emplacable; `want` describes the value it stands for.
fn finish_with<K: Kind, FF: EmplacableFn<K::T>>(e: Emplacable<K::T, FF>, how: usize, want: &Desc) -> R {
    World::<K>::consume(e, if how == 5 { 0 } else { how }, want)
}
fn toks(n: usize, spare: usize) -> Vec<Tok> {
    let mut v = Vec::with_capacity(n + spare);
    v.extend((0..n).map(|_| Tok::new()));
    v
}
/// Conversions of owning tokens into `Emplacable<[Tok], _>` / `Emplacable<Tok, _>`.
fn conv_tok([conv, how, n, spare]: [usize; 4]) -> R {
    if how == 5 {
        return Ok(());
    }
    let tk = |v: &[Tok]| KSlice::desc(v);
    match conv {
        0 => {
            let v = toks(n, spare);
            let d = tk(&v);
            finish_with::<KSlice, _>(v.into(), how, &d)
        }
        1 => {
            let v = toks(n, spare).into_boxed_slice();
            let d = tk(&v);
            finish_with::<KSlice, _>(v.into(), how, &d)
        }
        2 => {
            // Clones: the originals stay.
            let v = toks(n, spare);
            let d = tk(&v);
            let e: Emplacable<[Tok], _> = v.as_slice().into();
            let r = match how {
                0 | 3 => {
                    let b: Box<[Tok]> = if how == 0 {
                        box_new_with(e)
                    } else {
                        let mut u: UnsizedVec<[Tok]> = UnsizedVec::new();
                        u.push_with(e);
                        ensure!(u.len() == 1 && u[0].len() == n, "cloned slice has the wrong length");
                        box_new_with(u.pop_into().unwrap())
                    };
                    let pairs = CLONED.with(|c| std::mem::take(&mut *c.borrow_mut()));
                    ensure!(b.len() == n && pairs.len() == n, "a slice of {n} elements became {} elements, {} clones made", b.len(), pairs.len());
                    for (i, t) in b.iter().enumerate() {
                        ensure!(pairs.contains(&(v[i].id(), t.id())), "element {i} is not a clone of element {i}");
                    }
                    Ok(())
                }
                1 => {
                    drop(e);
                    ensure!(alive_ids() == n, "dropping a borrowed emplacable changed the number of values");
                    Ok(())
                }
                2 => {
                    e.forget();
                    ensure!(alive_ids() == n, "forgetting a borrowed emplacable changed the number of values");
                    Ok(())
                }
                _ => finish_with::<KSlice, _>(e, 4, &d),
            };
            ensure!(tk(&v) == d, "the borrowed elements changed");
            r
        }
        3 => {
            let t = Tok::new();
            let d = KSized::desc(&t);
            let e: Emplacable<Tok, _> = t.into();
            if how == 4 {
                let t = e.get();
                ensure!(KSized::desc(&t) == d, "get() returned another value");
                return Ok(());
            }
            finish_with::<KSized, _>(e, how, &d)
        }
        4 => {
            let t = Box::new(Tok::new());
            let d = KSized::desc(&t);
            let e: Emplacable<Tok, _> = IntoEmplacable::<Tok>::into_emplacable(t);
            finish_with::<KSized, _>(e, how, &d)
        }
        5 => {
            let a: [Tok; 3] = std::array::from_fn(|_| Tok::new());
            let d = tk(&a);
            let e: Emplacable<[Tok; 3], _> = a.into();
            let e: Emplacable<[Tok], _> = e.into();
            finish_with::<KSlice, _>(e, how, &d)
        }
        6 => {
            let a: [Tok; 3] = std::array::from_fn(|_| Tok::new());
            let d = tk(&a);
            let a: [Emplacable<Tok, _>; 3] = a.map(|t| -> Emplacable<Tok, _> { t.into() });
            let e: Emplacable<[Tok], _> = a.into();
            finish_with::<KSlice, _>(e, how, &d)
        }
        7 => {
            let a: [Tok; 2] = std::array::from_fn(|_| Tok::new());
            let d = tk(&a);
            let a: [Emplacable<Tok, _>; 2] = a.map(|t| -> Emplacable<Tok, _> { t.into() });
            let e: Emplacable<[Tok; 2], _> = a.into();
            match how {
                4 => {
                    ensure!(tk(&e.get()) == d, "array of emplacables produced other values");
                    Ok(())
                }
                _ => finish_with::<KSlice, _>(e.unsize(), how, &d),
            }
        }
        8 | 9 => {
            let v = toks(n, spare);
            let d = tk(&v);
            let it = v.into_iter().map(|t| custom(Box::new(t), Fault::None));
            let e = Emplacable::from_iter(it);
            if conv == 9 && how == 2 {
                // (forget: the iterator is forgotten with its contents; that memory is not tracked here)
                return finish_with::<KSlice, _>(e, 1, &d);
            }
            if how == 2 {
                // Forgetting forgets the iterator too, hence its buffer; balance with drop.
                return finish_with::<KSlice, _>(e, 1, &d);
            }
            finish_with::<KSlice, _>(e, how, &d)
        }
        10 => {
            // An iterator that yields fewer items than it announced must not be trusted.
            struct Liar(usize, usize);
            impl Iterator for Liar {
                type Item = Emplacable<Tok, <Tok as IntoEmplacable<Tok>>::Closure>;
                fn next(&mut self) -> Option<Self::Item> {
                    (self.1 > 0).then(|| {
                        self.1 -= 1;
                        Tok::new().into()
                    })
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    (self.0, Some(self.0))
                }
            }
            impl ExactSizeIterator for Liar {}
            let (says, has) = (n, how);
            let made = if says > has { has } else { says };
            let e = Emplacable::from_iter(Liar(says, has));
            match guarded(|| box_new_with(e)) {
                Ok(b) => {
                    ensure!(has >= says && b.len() == says, "{has} of {says} announced elements were accepted as {}", b.len());
                    tk(&b);
                }
                Err(_) => {
                    ensure!(has < says, "panicked although enough elements were available");
                    for id in 1..=made {
                        if state(id as u32) == St::Alive {
                            forget_id(id as u32);
                        }
                    }
                }
            }
            Ok(())
        }
        11 => {
            // Elements that are Copy take a specialised path.
            let v: Vec<u32> = (0..n as u32 * 3).map(|i| i * 77 + 5).collect();
            copy_case(&v, how)?;
            let v: Vec<u8> = (0..n as u8 * 5).collect();
            copy_case(&v, how)?;
            let v: Vec<[u64; 3]> = (0..n as u64).map(|i| [i, i + 1, !i]).collect();
            copy_case(&v, how)?;
            let v: Vec<(u8, u16)> = (0..n as u16).map(|i| (i as u8, i * 9)).collect();
            copy_case(&v, how)
        }
        12 => {
            // Zero-sized elements, dropped or boxed (see the known finding for storing them).
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(ZTok::new());
            }
            let e: Emplacable<[ZTok], _> = v.into();
            match how {
                0 => ensure!(box_new_with(e).len() == n, "boxed slice has the wrong length"),
                3 => ensure!(e.into_vec().len() == n, "vec has the wrong length"),
                _ => drop(e),
            }
            Ok(())
        }
        13 => {
            let v: Vec<Big> = (0..n).map(|_| *KSized24::make(0)).collect();
            let ids: Vec<u32> = v.iter().map(|b| KSized24::desc(b).ids[0]).collect();
            let e: Emplacable<[Big], _> = if spare == 0 { v.into() } else { { let mut v = v; v.reserve(spare + 3); v }.into() };
            match how {
                0 | 3 => {
                    let b = if how == 0 { box_new_with(e).into_vec() } else { e.into_vec() };
                    ensure!(b.iter().map(|x| KSized24::desc(x).ids[0]).eq(ids), "elements differ");
                }
                _ => drop(e),
            }
            Ok(())
        }
        _ => {
            // A chain: Vec -> emplacable -> UnsizedVec -> emplacable -> Rc.
            let v = toks(n, spare);
            let d = tk(&v);
            let mut u: UnsizedVec<[Tok]> = UnsizedVec::new();
            u.push_with(v.into());
            let r: Rc<[Tok]> = u.remove_into(0).into();
            ensure!(tk(&r) == d, "chained conversion changed the value");
            Ok(())
        }
    }
}
fn copy_case<T: Copy + PartialEq + Debug + 'static>(v: &[T], how: usize) -> R {
    let e: Emplacable<[T], _> = v.into();
    match how {
        0 => ensure!(&*box_new_with(e) == v, "copied slice differs from {v:?}"),
        3 => {
            let mut u: UnsizedVec<[T]> = UnsizedVec::new();
            u.push_with(e);
            ensure!(u.len() == 1 && &u[0] == v, "copied slice differs from {v:?}: {:?}", &u[0]);
        }
        2 => e.forget(),
        _ => drop(e),
    }
    Ok(())
}
/// Large and over-aligned values.
fn conv_big([ty, how, conv, _]: [usize; 4]) -> R {
    if how == 5 {
        return Ok(());
    }
    fn go<S: El + 'static>(s: S, conv: usize, how: usize) -> R {
        let d = s.desc();
        let z = d.ids.is_empty();
        let _ = z;
        match conv {
            0 => {
                let e: Emplacable<S, _> = s.into();
                finish_with::<KDyn, _>(e.unsize::<dyn El>(), how, &d)
            }
            1 => {
                let b: Box<dyn El> = Box::new(s);
                finish_with::<KDyn, _>(b.into(), how, &d)
            }
            2 => {
                let e: Emplacable<S, _> = IntoEmplacable::<S>::into_emplacable(Box::new(s));
                finish_with::<KDyn, _>(e.unsize::<dyn El>(), how, &d)
            }
            _ => {
                let mut u: UnsizedVec<dyn El> = UnsizedVec::new();
                u.push_unsize(s);
                let r = finish_with::<KDyn, _>(u.pop_into().unwrap(), how, &d);
                ensure!(u.is_empty(), "pop_into left the element behind");
                r
            }
        }
    }
    match ty {
        0 => go(P::<0>::new(0), conv, how),
        1 => go(E::<1, u8>::new(1), conv, how),
        2 => go(E::<24, A16>::new(3), conv, how),
        3 => go(Z::<u8>::make(), conv, how),
        4 => go(Z::<A64>::make(), conv, how),
        _ => go(E::<9, A128>::new(9), conv, how),
    }
}
const TEXTS: [&str; 12] = ["", "a", "ab", "hello", "0123456789", "é", "日本語", "with space", "\u{1F600}", "x\ny", "ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ", "end"];
fn conv_text([ty, how, t, _]: [usize; 4]) -> R {
    let s = TEXTS[t];
    /// Layout and metadata announced must be those of the value, destination must be used exactly once.
    fn probe<T: ?Sized, FF: EmplacableFn<T>>(e: Emplacable<T, FF>, want: &T, bytes: &[u8], how: usize) -> R
    where
        T: Pointee,
        <T as Pointee>::Metadata: PartialEq,
    {
        let m = std::ptr::metadata(want);
        let mut out = vec![0xABu8; bytes.len()];
        let p = out.as_mut_ptr();
        let mut seen = None;
        let mut ef = |l: Layout, mm: <T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<T>)| {
            seen = Some((l, mm == m));
            match how {
                0 => inner(p.cast()),
                1 => inner(std::ptr::null_mut()),
                _ => (),
            }
        };
        e.into_fn()(unsafe { Emplacer::from_fn(&mut ef) });
        let Some((l, ok)) = seen else { return Err("the emplacer was never called".into()) };
        ensure!(l == Layout::for_value(want), "announced layout {l:?} for a value of layout {:?}", Layout::for_value(want));
        ensure!(ok, "announced metadata is wrong");
        if how == 0 {
            ensure!(out == bytes, "emplaced bytes are {out:?}, expected {bytes:?}");
        } else {
            ensure!(out.iter().all(|b| *b == 0xAB), "bytes were written without a destination");
        }
        Ok(())
    }
    let b = s.as_bytes();
    match ty {
        0 => match how {
            0..3 => probe(s.into(), s, b, how),
            3 => {
                ensure!(&*box_new_with(Emplacable::<str, _>::from(s)) == s, "boxed str differs");
                Ok(())
            }
            4 => probe(s.to_owned().into_boxed_str().into(), s, b, 0),
            _ => {
                ensure!(Emplacable::<str, _>::from(s).into_string() == s, "into_string differs");
                Ok(())
            }
        },
        1 => {
            let e: Emplacable<str, _> = s.into();
            let e: Emplacable<[u8], _> = e.into();
            match how {
                0..3 => probe(e, b, b, how),
                _ => {
                    ensure!(e.into_vec() == b, "str to bytes differs");
                    Ok(())
                }
            }
        }
        2 => {
            let c = CString::new(s).unwrap();
            match how {
                0..3 => probe(c.as_c_str().into(), c.as_c_str(), c.as_bytes_with_nul(), how),
                _ => {
                    let c2: CString = Emplacable::<CStr, _>::from(c.as_c_str()).into();
                    ensure!(c2 == c, "CString differs");
                    Ok(())
                }
            }
        }
        3 => {
            let o = OsStr::new(s);
            match how {
                0..3 => probe(o.into(), o, o.as_encoded_bytes(), how),
                _ => {
                    let c2: OsString = Emplacable::<OsStr, _>::from(o).into();
                    ensure!(c2 == o, "OsString differs");
                    Ok(())
                }
            }
        }
        4 => {
            let o = Path::new(s);
            match how {
                0..3 => probe(o.into(), o, o.as_os_str().as_encoded_bytes(), how),
                _ => {
                    let c2: PathBuf = Emplacable::<Path, _>::from(o).into();
                    ensure!(c2 == o, "PathBuf differs");
                    Ok(())
                }
            }
        }
        _ => {
            let v: Vec<u16> = s.encode_utf16().collect();
            let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes()).collect();
            let mut w = Vec::with_capacity(v.len() + how);
            w.extend_from_slice(&v);
            match how {
                0..3 => probe16(v.as_slice().into(), &v, how),
                3 | 4 => probe16(w.into(), &v, how - 3),
                _ => {
                    let _ = bytes;
                    ensure!(Emplacable::<[u16], _>::from(w).into_vec() == v, "vec differs");
                    Ok(())
                }
            }
        }
    }
}
fn probe16<FF: EmplacableFn<[u16]>>(e: Emplacable<[u16], FF>, want: &[u16], how: usize) -> R {
    let mut out = vec![0xABABu16; want.len()];
    let p = out.as_mut_ptr();
    let mut seen = None;
    let mut ef = |l: Layout, m: usize, inner: &mut dyn FnMut(*mut PhantomData<[u16]>)| {
        seen = Some((l, m));
        match how {
            0 => inner(p.cast()),
            1 => inner(std::ptr::null_mut()),
            _ => (),
        }
    };
    e.into_fn()(unsafe { Emplacer::from_fn(&mut ef) });
    ensure!(seen == Some((Layout::for_value(want), want.len())), "announced {seen:?}");
    ensure!(how != 0 || out == want, "emplaced {out:?}, expected {want:?}");
    Ok(())
}

fn consume_any<K: Kind>(class: usize, how: usize, via: usize) -> R {
    let b = K::make(class as u32 % K::CLASSES);
    let d = K::desc(&b);
    let al = d.align;
    let ok = |r: &K::T| -> R {
        ensure!(K::desc(r) == d, "the value changed: {:?}, expected {d:?}", K::desc(r));
        ensure!(K::addr(r) % al == 0, "value at {:#x} is not aligned to {al}", K::addr(r));
        Ok(())
    };
    macro_rules! em {
        () => {
            if via == 0 { custom(b, Fault::None) } else { custom(box_new_with(Emplacable::<K::T, _>::from(b)), Fault::None) }
        };
    }
    match how {
        0 => ok(&box_new(*b)),
        1 => ok(&box_new_with(em!())),
        2 => ok(&box_pin(*b)),
        3 => ok(&box_pin_with(em!())),
        4 => ok(&rc_new(*b)),
        5 => ok(&rc_new_with(em!())),
        6 => ok(&rc_pin(*b)),
        7 => ok(&rc_pin_with(em!())),
        8 => ok(&arc_new(*b)),
        9 => ok(&arc_new_with(em!())),
        10 => {
            ok(&arc_pin(*b))
        }
        11 => {
            let a: Arc<K::T> = em!().into();
            ok(&a)?;
            let a2 = a.clone();
            drop(a);
            ok(&a2)
        }
        _ => {
            let r: Rc<K::T> = em!().into();
            ok(&r)?;
            ok(&arc_pin_with(custom(K::make(0), Fault::None))).err();
            Ok(())
        }
    }
}
fn consume_dyn([class, how, via, _]: [usize; 4]) -> R {
    consume_any::<KDyn>(class, how, via)
}
fn consume_slice([class, how, ty, _]: [usize; 4]) -> R {
    match ty {
        0 => consume_any::<KSlice>(class, how, 0),
        1 => consume_any::<KSlice16>(class, how, 1),
        2 => consume_any::<KStr>(class, how, 0),
        _ => consume_any::<KSized24>(class, how, 1),
    }
}
fn consume_text([ty, t, ..]: [usize; 4]) -> R {
    let s = TEXTS[t];
    let mut u: UnsizedVec<str> = UnsizedVec::new();
    u.push_with("first".into());
    u.push_with(s.into());
    match ty {
        0 => ensure!(u.pop_into().unwrap().into_string() == s, "into_string differs"),
        1 => ensure!(String::from(u.remove_into(1)) == s, "String::from differs"),
        2 => {
            let e: Emplacable<[u8], _> = u.remove_into(1).into();
            ensure!(Vec::from(e) == s.as_bytes(), "Vec<u8> differs");
        }
        3 => {
            let r: Rc<str> = u.remove_into(1).into();
            ensure!(&*r == s, "Rc<str> differs");
        }
        4 => {
            let r: Arc<str> = u.pop_into().unwrap().into();
            ensure!(&*r == s, "Arc<str> differs");
        }
        _ => {
            let mut v: UnsizedVec<CStr> = UnsizedVec::new();
            let c = CString::new(s).unwrap();
            v.push_with(c.as_c_str().into());
            let c2: CString = v.remove_into(0).into();
            ensure!(c2 == c, "CString differs");
            u.remove_into(1).forget();
        }
    }
    ensure!(u.len() == 1 && &u[0] == "first", "the other element changed");
    Ok(())
}
fn vec_from_emplacables([n, hint, pre, _]: [usize; 4]) -> R {
    let v = toks(n + pre, 0);
    let d: Vec<u32> = v.iter().map(Tok::id).collect();
    let mut it = v.into_iter();
    let mut out: Vec<Tok> = it.by_ref().take(pre).collect();
    let em = Hint(it.map(|t| -> Emplacable<Tok, _> { t.into() }), hint);
    if pre == 0 {
        out = em.collect();
    } else {
        out.extend(em);
    }
    ensure!(out.iter().map(Tok::id).eq(d), "collected elements differ");
    Ok(())
}
/// A panic while the value is produced leaks no memory of the consumer.
fn consumer_panic([class, fault, how, _]: [usize; 4]) -> R {
    let f = [Fault::Before, Fault::Inner, Fault::InnerClean, Fault::None][fault];
    if class >= 10 {
        // A few bytes.
        let n = class - 10;
        let e = custom(vec![7_u8; n].into_boxed_slice(), f);
        let r = match how {
            0 => guarded(|| box_new_with(e).len()),
            1 => guarded(|| rc_new_with(e).len()),
            2 => guarded(|| arc_new_with(e).len()),
            3 => guarded(|| box_pin_with(e).len()),
            4 => guarded(|| e.into_vec().len()),
            _ => guarded(|| Rc::<[u8]>::from(e).len()),
        };
        match r {
            Ok(l) => ensure!(f == Fault::None && l == n, "{l} bytes instead of {n}, or no panic"),
            Err(_) => ensure!(f != Fault::None, "unexpected panic"),
        }
        return Ok(());
    }
    if f == Fault::None {
        // Destructor of the value panics while the emplacable is dropped.
        let b = KDyn::make(class as u32);
        let d = KDyn::desc(&*b);
        if d.ids.is_empty() {
            return Ok(());
        }
        panic_on_drop(d.ids[0]);
        let live = track::LIVE.load(Relaxed) - 1 - usize::from(d.size > 0);
        let r = match how {
            0 => guarded(|| drop(custom(b, Fault::None))),
            1 => guarded(|| drop(Emplacable::<dyn El, _>::from(b))),
            _ => {
                drop(guarded(|| drop(b)));
                return Ok(());
            }
        };
        ensure!(r.is_err(), "dropping the emplacable did not run the destructor");
        if how == 1 {
            // The box memory may be leaked by the unwinding; it is not the consumer's.
            drop(r);
            drop(d);
            track::LIVE.store(live, Relaxed);
            return Ok(());
        }
        return Ok(());
    }
    let b = KDyn::make(class as u32);
    let e = custom(b, f);
    let r = match how {
        0 => guarded(|| drop(box_new_with(e))),
        1 => guarded(|| drop(rc_new_with(e))),
        2 => guarded(|| drop(arc_new_with(e))),
        3 => guarded(|| drop(box_pin_with(e))),
        4 => {
            let mut u: UnsizedVec<dyn El> = UnsizedVec::new();
            u.push_unsize(E::<1, u8>::new(1));
            let r = guarded(|| u.push_with(e));
            ensure!(u.len() == 1, "a failed push_with left {} elements", u.len());
            r
        }
        _ => guarded(|| drop(Rc::<dyn El>::from(e))),
    };
    match r {
        Ok(()) => Err("the panic was swallowed".into()),
        Err(m) => {
            ensure!(m.starts_with("injected"), "unexpected panic: {m}");
            Ok(())
        }
    }
}
/// An emplacable may announce any valid layout: sizes that do not fit must be refused before
/// the value is asked for, and every allocator request must be valid.
fn huge_announced([op, sz, al, pre]: [usize; 4]) -> R {
    let max = isize::MAX as usize;
    let al = [1usize, 8, 4096][al];
    let size = [max - (al - 1), max - (al - 1) - 1, max - 4095 - 64, max - 4095, max - 4095 - 8, (max - 4095) / 2 * 2][sz];
    if size > max - (al - 1) {
        return Ok(());
    }
    // Sizes of trait objects are multiples of their alignment.
    let size = size / al * al;
    let mut v: UnsizedVec<[u8]> = UnsizedVec::new();
    let mut w: UnsizedVec<OsStr> = UnsizedVec::new();
    for _ in 0..=pre {
        v.push_with([1u8; 5].as_slice().into());
        w.push_with(OsStr::new("hello").into());
    }
    let mut asked = false;
    let asked_ref = &mut asked;
    // Only requests that overflow when the present elements are counted.
    let present = 5 * (pre + 1);
    if size.checked_add(present).is_none_or(|x| x > max) {
        let e: Emplacable<[u8], _> = unsafe {
            Emplacable::from_fn(move |em: &mut Emplacer<'_, [u8]>| {
                em.into_fn()(Layout::from_size_align(size, 1).unwrap(), size, &mut |_| *asked_ref = true)
            })
        };
        let r = guarded(|| if op == 0 { v.push_with(e) } else { v.insert_with(op - 1, e) });
        ensure!(r.is_err() && !asked, "an element of {size} bytes was accepted next to {present} bytes");
        ensure!(v.len() == pre + 1 && v.iter().all(|x| x == [1; 5]), "the refused element changed the vector");
    }
    let padded = (pre + 1) * 8usize.max(al);
    if al > 1 && size.checked_add(padded).is_none_or(|x| x > max - (al - 1)) {
        let mut asked = false;
        let asked_ref = &mut asked;
        let e: Emplacable<OsStr, _> = unsafe {
            Emplacable::from_fn(move |em: &mut Emplacer<'_, OsStr>| {
                em.into_fn()(Layout::from_size_align(size, al).unwrap(), size, &mut |_| *asked_ref = true)
            })
        };
        let r = guarded(|| if op == 0 { w.push_with(e) } else { w.insert_with(op - 1, e) });
        ensure!(r.is_err() && !asked, "an element of {size} bytes aligned to {al} was accepted next to {present} bytes");
    }
    ensure!(w.len() == pre + 1 && w.iter().all(|x| x == "hello"), "the refused element changed the vector");
    Ok(())
}

fn unsize_macro([class, how, ..]: [usize; 4]) -> R {
    fn go<S: El + 'static>(mk: impl Fn() -> S, how: usize) -> R {
        let s = mk();
        let d = s.desc();
        let c0 = track::CALLS.load(Relaxed);
        match how {
            0 => {
                fn take(x: dyn El, d: &Desc, c0: u64) -> R {
                    ensure!(track::CALLS.load(Relaxed) == c0, "unsize! used the heap");
                    ensure!(x.desc() == *d, "by-value unsizing changed the value");
                    ensure!(x.addr() % d.align == 0, "by-value unsized value is misaligned");
                    Ok(())
                }
                take(emplacable::unsize!(s, (S) -> dyn El), &d, c0)
            }
            1 => {
                let b: Box<dyn El> = box_new(emplacable::unsize!(s, (S) -> dyn El));
                ensure!(b.desc() == d, "boxed value changed");
                Ok(())
            }
            _ => {
                let mut v: UnsizedVec<dyn El> = UnsizedVec::new();
                let t = mk();
                let dt = t.desc();
                v.push_unsize(s);
                v.insert_unsize(0, t);
                follow::<KDyn>(v, vec![dt, d], 1)
            }
        }
    }
    match class {
        0 => go(|| P::<0>::new(0), how),
        1 => go(|| E::<1, u8>::new(1), how),
        2 => go(|| E::<0, u64>::new(2), how),
        3 => go(|| E::<24, A16>::new(3), how),
        4 => go(Z::<u8>::make, how),
        5 => go(Z::<A64>::make, how),
        6 => go(|| E::<3, A64>::new(6), how),
        7 => go(|| P::<8>::new(7), how),
        8 => go(|| E::<200, u16>::new(8), how),
        _ => go(|| E::<9, A128>::new(9), how),
    }
}
fn by_value_strings([t, how, ..]: [usize; 4]) -> R {
    macro_rules! case {
        ($l:literal) => {{
            let c0 = track::CALLS.load(Relaxed);
            fn take(s: str, w: &str) -> R {
                ensure!(&s == w, "by_value_str! is {:?}, expected {w:?}", &s);
                Ok(())
            }
            match how {
                0 => {
                    take(by_value_str!($l), $l)?;
                    ensure!(track::CALLS.load(Relaxed) == c0, "by_value_str! used the heap");
                }
                1 => ensure!(&*box_new(by_value_str!($l)) == $l, "boxed by_value_str! differs"),
                _ => {
                    let mut v: UnsizedVec<str> = UnsizedVec::new();
                    v.push(by_value_str!("x"));
                    v.push(by_value_str!($l));
                    v.insert(1, by_value_str!($l));
                    ensure!(v.len() == 3 && &v[0] == "x" && &v[1] == $l && &v[2] == $l, "vector of by_value_str! differs");
                }
            }
            Ok(())
        }};
    }
    match t {
        0 => case!(""),
        1 => case!("a"),
        2 => case!("hello"),
        3 => case!("日本語"),
        4 => case!("0123456789012345678901234567890123456789"),
        _ => case!("\0\n\u{1F600}"),
    }
}
fn vec_macros([t, ..]: [usize; 4]) -> R {
    match t {
        0 => {
            let v: UnsizedVec<dyn El> = unsize_vec![];
            let w: UnsizedVec<[Tok]> = unsized_vec![];
            ensure!(v.is_empty() && w.is_empty(), "empty macro is not empty");
            Ok(())
        }
        1 => {
            let (a, b, c) = (P::<0>::new(0), E::<24, A16>::new(3), Z::<A64>::make());
            let m = vec![a.desc(), b.desc(), c.desc()];
            let v: UnsizedVec<dyn El> = unsize_vec![a, b, c];
            follow::<KDyn>(v, m, 1)
        }
        2 => {
            let (a, b) = ([Tok::new()], [Tok::new(), Tok::new()]);
            let m = vec![KSlice::desc(&a), KSlice::desc(&b), KSlice::desc(&[])];
            let v: UnsizedVec<[Tok]> = unsize_vec![a, b, [],];
            follow::<KSlice>(v, m, 2)
        }
        3 => {
            let (a, b, c) = (toks(2, 0).into_boxed_slice(), toks(3, 2), toks(1, 0).into_boxed_slice());
            let m = vec![KSlice::desc(&a), KSlice::desc(&b), KSlice::desc(&c)];
            let eb: Emplacable<[Tok], _> = b.into();
            let v: UnsizedVec<[Tok]> = unsized_vec![*a, eb, *c];
            follow::<KSlice>(v, m, 3)
        }
        4 => {
            let (a, b) = (Tok::new(), Tok::new());
            let m = vec![KSized::desc(&a), KSized::desc(&b)];
            let eb: Emplacable<Tok, _> = b.into();
            let v: UnsizedVec<Tok> = unsized_vec![a, eb];
            follow::<KSized>(v, m, 1)
        }
        5 => {
            let v: UnsizedVec<str> = unsized_vec![by_value_str!("a"), *String::from("bc").into_boxed_str(), Emplacable::<str, _>::from("def"),];
            ensure!(format!("{v:?}") == r#"["a", "bc", "def"]"#, "unsized_vec! built {v:?}");
            Ok(())
        }
        6 => {
            // Evaluation order and a panic in the middle.
            let r = guarded(|| {
                let _v: UnsizedVec<dyn El> = unsize_vec![P::<0>::new(0), E::<24, A16>::new(3), { if alive_ids() == 2 { panic!("injected third") } E::<1, u8>::new(1) }];
            });
            ensure!(r.is_err(), "elements are not evaluated in order");
            Ok(())
        }
        _ => {
            let v: UnsizedVec<dyn Debug> = unsize_vec![27.5_f32, "oh", Some(())];
            ensure!(format!("{v:?}") == r#"[27.5, "oh", Some(())]"#, "unsize_vec! built {v:?}");
            Ok(())
        }
    }
}
fn with_emplacable([class, how, ty, _]: [usize; 4]) -> R {
    fn go<K: Kind>(class: usize, how: usize) -> R {
        let b = K::make(class as u32 % K::CLASSES);
        let d = K::desc(&b);
        let d2 = d.clone();
        let r: Result<u32, String> = with_emplacable_for(*b, |e| match how {
            4 => {
                let mut v: UnsizedVec<K::T> = UnsizedVec::new();
                v.push_with(custom(K::make(0), Fault::None));
                v.insert_with(0, e);
                let ok = v.len() == 2 && K::desc(&v[0]) == d2;
                if ok { Ok(7) } else { Err("inserted value differs".into()) }
            }
            _ => World::<K>::consume(e, how, &d2).map(|()| 7),
        });
        ensure!(r? == 7, "the callback's result was lost");
        Ok(())
    }
    match ty {
        0 => go::<KDyn>(class, how),
        _ => go::<KSlice>(class, how),
    }
}

/// K1: a slice of zero-sized elements loses its length in the vector.
fn k1(_: [usize; 4]) -> R {
    let mut v: UnsizedVec<[ZTok]> = UnsizedVec::new();
    v.push_unsize([ZTok::new(), ZTok::new()]);
    let n = v[0].len();
    drop(v);
    let left = zlive();
    while zlive() > 0 {
        forget_z();
    }
    ensure!(n == 2 && left == 0, "a slice of 2 zero-sized elements reads back with length {n}; {left} destructors never ran");
    Ok(())
}
/// K2: with_emplacable_for drops the value a second time when the callback panics.
fn k2(_: [usize; 4]) -> R {
    let b: Box<[Tok]> = toks(1, 0).into_boxed_slice();
    let id = b[0].id();
    let r = guarded(|| {
        with_emplacable_for(*b, |e| {
            drop(e);
            panic!("injected callback panic");
        })
    });
    ensure!(r.is_err(), "panic swallowed");
    let _ = id;
    match error() {
        Some(e) => Err(format!("after the callback consumed the value and panicked: {e}")),
        None => Ok(()),
    }
}
