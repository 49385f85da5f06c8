//! Element universes: every value carries a ledger identity so that moves, drops,
//! double drops and corruption are observable.
use emplacable::{Emplacable, EmplacableFn, Emplacer};
use std::alloc::Layout;
use std::cell::Cell;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::PhantomData;
use unsized_vec::UnsizedVec;

pub const IDS: usize = 1 << 14;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unborn,
    Alive,
    Dropped,
}
thread_local! {
    static ALIVE: Cell<usize> = const { Cell::new(0) };
    static ERRS: Cell<Option<(&'static str, u32)>> = const { Cell::new(None) };
    static NEXT: Cell<u32> = const { Cell::new(1) };
    static ZLIVE: Cell<i64> = const { Cell::new(0) };
    static PANIC_ON: Cell<u32> = const { Cell::new(0) };
    static CLONE_PANIC: Cell<u32> = const { Cell::new(0) };
}
static mut STATES: [St; IDS] = [St::Unborn; IDS];
fn states() -> &'static mut [St; IDS] {
    unsafe { &mut *(&raw mut STATES) }
}
pub fn reset() {
    let n = (NEXT.get() as usize).min(IDS);
    states()[..n].fill(St::Unborn);
    ALIVE.set(0);
    CLONED.with(|c| *c.borrow_mut() = Vec::new());
    ERRS.set(None);
    NEXT.set(1);
    ZLIVE.set(0);
    PANIC_ON.set(0);
    CLONE_PANIC.set(0);
}
pub fn err(what: &'static str, id: u32) {
    if ERRS.get().is_none() {
        ERRS.set(Some((what, id)));
    }
}
pub fn error() -> Option<String> {
    ERRS.get().map(|(w, i)| format!("{w} (value #{i})"))
}
pub fn next_id() -> u32 {
    NEXT.get()
}
pub fn state(id: u32) -> St {
    states()[id as usize]
}
pub fn zlive() -> i64 {
    ZLIVE.get()
}
pub fn alive_ids() -> usize {
    ALIVE.get()
}
/// The destructor of value `id` will panic (after having marked the value as dropped).
pub fn panic_on_drop(id: u32) {
    PANIC_ON.set(id);
}
pub fn panic_on_clone(id: u32) {
    CLONE_PANIC.set(id);
}
/// The values of these ids were deliberately forgotten.
pub fn forget_id(id: u32) {
    states()[id as usize] = St::Dropped;
    ALIVE.set(ALIVE.get() - 1);
}
pub fn forget_z() {
    ZLIVE.set(ZLIVE.get() - 1);
}

/// A 4-byte owned identity.
#[repr(transparent)]
pub struct Tok(u32);
impl Tok {
    pub fn new() -> Self {
        let id = NEXT.get();
        assert!((id as usize) < IDS);
        NEXT.set(id + 1);
        states()[id as usize] = St::Alive;
        ALIVE.set(ALIVE.get() + 1);
        Tok(id ^ 0x5A00_0000)
    }
    pub fn id(&self) -> u32 {
        let id = self.0 ^ 0x5A00_0000;
        if id as usize >= IDS {
            err("corrupted value: identity bytes overwritten", id);
            return 0;
        }
        if states()[id as usize] != St::Alive {
            err("value observed after it was destroyed or moved out", id);
        }
        id
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.0 ^ 0x5A00_0000;
        if id as usize >= IDS {
            err("destructor ran on corrupted or never-initialised bytes", id);
            return;
        }
        match states()[id as usize] {
            St::Alive => {
                states()[id as usize] = St::Dropped;
                ALIVE.set(ALIVE.get() - 1);
            }
            St::Dropped => err("value destroyed twice", id),
            St::Unborn => err("destructor ran on a value that never existed", id),
        }
        if PANIC_ON.get() == id && id != 0 {
            PANIC_ON.set(0);
            panic!("injected destructor panic");
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        let id = self.id();
        if CLONE_PANIC.get() == id && id != 0 {
            CLONE_PANIC.set(0);
            panic!("injected clone panic");
        }
        let t = Tok::new();
        CLONED.with(|c| c.borrow_mut().push((id, t.0 ^ 0x5A00_0000)));
        t
    }
}
thread_local! {
    pub static CLONED: std::cell::RefCell<Vec<(u32, u32)>> = const { std::cell::RefCell::new(Vec::new()) };
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.id())
    }
}
/// A zero-sized owned value: only its count is observable.
pub struct ZTok;
impl ZTok {
    pub fn new() -> Self {
        ZLIVE.set(ZLIVE.get() + 1);
        ZTok
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        ZLIVE.set(ZLIVE.get() - 1);
        if ZLIVE.get() < 0 {
            err("zero-sized value destroyed more often than created", 0);
        }
    }
}

/// What an observer can see of one element.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Desc {
    pub class: u32,
    pub ids: Vec<u32>,
    pub size: usize,
    pub align: usize,
}

pub trait El {
    fn desc(&self) -> Desc;
    fn addr(&self) -> usize;
}
pub struct E<const S: usize, A> {
    tok: Tok,
    body: [u8; S],
    class: u32,
    _a: [A; 0],
}
fn pat(id: u32, i: usize) -> u8 {
    (id.wrapping_mul(31).wrapping_add(i as u32 * 7) & 0xff) as u8
}
impl<const S: usize, A> E<S, A> {
    pub fn new(class: u32) -> Self {
        let tok = Tok::new();
        let id = tok.id();
        let mut body = [0; S];
        for (i, b) in body.iter_mut().enumerate() {
            *b = pat(id, i);
        }
        E { tok, body, class, _a: [] }
    }
}
impl<const S: usize, A> El for E<S, A> {
    fn desc(&self) -> Desc {
        let id = self.tok.id();
        for (i, b) in self.body.iter().enumerate() {
            if *b != pat(id, i) {
                err("corrupted value: payload bytes changed", id);
            }
        }
        Desc { class: self.class, ids: vec![id], size: size_of::<Self>(), align: align_of::<Self>() }
    }
    fn addr(&self) -> usize {
        self as *const Self as usize
    }
}
/// Byte-packed element with alignment 1.
#[repr(C, packed)]
pub struct P<const S: usize> {
    id: [u8; 4],
    class: u8,
    body: [u8; S],
}
impl<const S: usize> P<S> {
    pub fn new(class: u32) -> Self {
        let t = Tok::new();
        let id = t.id();
        std::mem::forget(t);
        let mut body = [0; S];
        for (i, b) in body.iter_mut().enumerate() {
            *b = pat(id, i);
        }
        P { id: (id ^ 0x5A00_0000).to_ne_bytes(), class: class as u8, body }
    }
}
impl<const S: usize> El for P<S> {
    fn desc(&self) -> Desc {
        let t = std::mem::ManuallyDrop::new(Tok(u32::from_ne_bytes(self.id)));
        let id = t.id();
        for i in 0..S {
            if self.body[i] != pat(id, i) {
                err("corrupted value: payload bytes changed", id);
            }
        }
        Desc { class: self.class as u32, ids: vec![id], size: size_of::<Self>(), align: 1 }
    }
    fn addr(&self) -> usize {
        self as *const Self as usize
    }
}
impl<const S: usize> Drop for P<S> {
    fn drop(&mut self) {
        drop(Tok(u32::from_ne_bytes(self.id)));
    }
}
pub struct Z<A> {
    _t: ZTok,
    _a: [A; 0],
}
impl<A> Z<A> {
    pub fn make() -> Self {
        Z { _t: ZTok::new(), _a: [] }
    }
}
impl<A> El for Z<A> {
    fn desc(&self) -> Desc {
        Desc { class: if align_of::<A>() == 1 { 4 } else { 5 }, ids: vec![], size: 0, align: align_of::<Self>() }
    }
    fn addr(&self) -> usize {
        self as *const Self as usize
    }
}
#[repr(align(16))]
pub struct A16;
#[repr(align(64))]
pub struct A64;
#[repr(align(128))]
pub struct A128;

/// A kind = one element type `T` (hence one storage strategy) with its value classes.
pub trait Kind: 'static {
    type T: ?Sized;
    const NAME: &'static str;
    const CLASSES: u32;
    const SIZED: bool = false;
    /// True when the alignment of every value is a compile-time constant.
    const FIXED_ALIGN: bool;
    fn make(class: u32) -> Box<Self::T>;
    fn desc(t: &Self::T) -> Desc;
    fn addr(t: &Self::T) -> usize;
    /// Push by value (`insert` when `at` is given).
    fn push_val(v: &mut UnsizedVec<Self::T>, at: Option<usize>, b: Box<Self::T>) {
        match at {
            None => v.push(*b),
            Some(i) => v.insert(i, *b),
        }
    }
    /// Through push_unsize / insert_unsize when the kind supports it.
    fn push_unsize(v: &mut UnsizedVec<Self::T>, at: Option<usize>, class: u32) -> bool {
        let _ = (v, at, class);
        false
    }
    fn clone_vec(_: &UnsizedVec<Self::T>) -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// (ledger identities, zero-sized values) an element of this description owns.
    fn owned(d: &Desc) -> (usize, usize) {
        (d.ids.len(), 0)
    }
}

pub struct KSized;
impl Kind for KSized {
    type T = Tok;
    const NAME: &'static str = "sized";
    const CLASSES: u32 = 1;
    const SIZED: bool = true;
    const FIXED_ALIGN: bool = true;
    fn make(_: u32) -> Box<Tok> {
        Box::new(Tok::new())
    }
    fn desc(t: &Tok) -> Desc {
        Desc { class: 0, ids: vec![t.id()], size: 4, align: 4 }
    }
    fn addr(t: &Tok) -> usize {
        t as *const Tok as usize
    }
    fn clone_vec(v: &UnsizedVec<Tok>) -> Option<UnsizedVec<Tok>> {
        Some(v.clone())
    }
}
/// Sized with a size that is neither 1 nor a power of two.
pub struct KSized24;
pub struct Big {
    a: Tok,
    b: [u64; 2],
}
impl Clone for Big {
    fn clone(&self) -> Self {
        let a = self.a.clone();
        let id = a.id() as u64;
        Big { a, b: [id, !id] }
    }
}
impl Kind for KSized24 {
    type T = Big;
    const NAME: &'static str = "sized24";
    const CLASSES: u32 = 1;
    const SIZED: bool = true;
    const FIXED_ALIGN: bool = true;
    fn make(_: u32) -> Box<Big> {
        let a = Tok::new();
        let id = a.id() as u64;
        Box::new(Big { a, b: [id, !id] })
    }
    fn desc(t: &Big) -> Desc {
        let id = t.a.id();
        if t.b != [id as u64, !(id as u64)] {
            err("corrupted value: payload bytes changed", id);
        }
        Desc { class: 0, ids: vec![id], size: 24, align: 8 }
    }
    fn addr(t: &Big) -> usize {
        t as *const Big as usize
    }
    fn clone_vec(v: &UnsizedVec<Big>) -> Option<UnsizedVec<Big>> {
        Some(v.clone())
    }
}
pub struct KSizedZst;
impl Clone for ZTok {
    fn clone(&self) -> Self {
        ZTok::new()
    }
}
impl Kind for KSizedZst {
    type T = ZTok;
    const NAME: &'static str = "sizedzst";
    const CLASSES: u32 = 1;
    const SIZED: bool = true;
    const FIXED_ALIGN: bool = true;
    fn make(_: u32) -> Box<ZTok> {
        Box::new(ZTok::new())
    }
    fn desc(_: &ZTok) -> Desc {
        Desc { class: 0, ids: vec![], size: 0, align: 1 }
    }
    fn owned(d: &Desc) -> (usize, usize) {
        let _ = d;
        (0, 1)
    }
    fn addr(t: &ZTok) -> usize {
        t as *const ZTok as usize
    }
    fn clone_vec(v: &UnsizedVec<ZTok>) -> Option<UnsizedVec<ZTok>> {
        Some(v.clone())
    }
}

pub struct KSlice;
impl Kind for KSlice {
    type T = [Tok];
    const NAME: &'static str = "slice";
    const CLASSES: u32 = 4;
    const FIXED_ALIGN: bool = true;
    fn make(class: u32) -> Box<[Tok]> {
        let n = [0usize, 1, 2, 5][class as usize % 4];
        (0..n).map(|_| Tok::new()).collect::<Vec<_>>().into_boxed_slice()
    }
    fn desc(t: &[Tok]) -> Desc {
        Desc { class: t.len() as u32, ids: t.iter().map(Tok::id).collect(), size: size_of_val(t), align: 4 }
    }
    fn addr(t: &[Tok]) -> usize {
        t.as_ptr() as usize
    }
    fn push_unsize(v: &mut UnsizedVec<[Tok]>, at: Option<usize>, class: u32) -> bool {
        match (class % 4, at) {
            (0, None) => v.push_unsize([]),
            (1, None) => v.push_unsize([Tok::new()]),
            (2, None) => v.push_unsize([Tok::new(), Tok::new()]),
            (_, None) => v.push_unsize([Tok::new(), Tok::new(), Tok::new(), Tok::new(), Tok::new()]),
            (0, Some(i)) => v.insert_unsize(i, []),
            (1, Some(i)) => v.insert_unsize(i, [Tok::new()]),
            (2, Some(i)) => v.insert_unsize(i, [Tok::new(), Tok::new()]),
            (_, Some(i)) => v.insert_unsize(i, [Tok::new(), Tok::new(), Tok::new(), Tok::new(), Tok::new()]),
        }
        true
    }
}
/// Slices with a larger alignment and element size.
pub struct KSlice16;
#[repr(align(16))]
pub struct T16(Tok, #[allow(dead_code)] u64);
impl T16 {
    pub fn make() -> Self {
        T16(Tok::new(), 7)
    }
}
impl Kind for KSlice16 {
    type T = [T16];
    const NAME: &'static str = "slice16";
    const CLASSES: u32 = 3;
    const FIXED_ALIGN: bool = true;
    fn make(class: u32) -> Box<[T16]> {
        (0..class % 3).map(|_| T16(Tok::new(), 7)).collect::<Vec<_>>().into_boxed_slice()
    }
    fn desc(t: &[T16]) -> Desc {
        Desc { class: t.len() as u32, ids: t.iter().map(|x| x.0.id()).collect(), size: size_of_val(t), align: 16 }
    }
    fn addr(t: &[T16]) -> usize {
        t.as_ptr() as usize
    }
}
/// Slices of a zero-sized type.
pub struct KSliceZ;
impl Kind for KSliceZ {
    type T = [ZTok];
    const NAME: &'static str = "slicezst";
    /// Only empty slices: see the known finding about slices of zero-sized elements.
    const CLASSES: u32 = 1;
    const FIXED_ALIGN: bool = true;
    fn make(class: u32) -> Box<[ZTok]> {
        (0..class).map(|_| ZTok::new()).collect::<Vec<_>>().into_boxed_slice()
    }
    fn desc(t: &[ZTok]) -> Desc {
        Desc { class: t.len() as u32, ids: vec![], size: 0, align: 1 }
    }
    fn owned(d: &Desc) -> (usize, usize) {
        (0, d.class as usize)
    }
    fn addr(t: &[ZTok]) -> usize {
        t.as_ptr() as usize
    }
}
fn text(class: u32) -> String {
    let id = NEXT.get();
    NEXT.set(id + 1);
    let n = [0usize, 1, 3, 9][class as usize % 4];
    (0..n).map(|i| (b'!' + (pat(id, i) % 90)) as char).collect()
}
pub struct KStr;
impl Kind for KStr {
    type T = str;
    const NAME: &'static str = "str";
    const CLASSES: u32 = 4;
    const FIXED_ALIGN: bool = true;
    fn make(class: u32) -> Box<str> {
        text(class).into_boxed_str()
    }
    fn desc(t: &str) -> Desc {
        Desc { class: t.len() as u32, ids: t.bytes().map(u32::from).collect(), size: t.len(), align: 1 }
    }
    fn owned(d: &Desc) -> (usize, usize) {
        let _ = d;
        (0, 0)
    }
    fn addr(t: &str) -> usize {
        t.as_ptr() as usize
    }
}
pub struct KCStr;
impl Kind for KCStr {
    type T = CStr;
    const NAME: &'static str = "cstr";
    const CLASSES: u32 = 4;
    const FIXED_ALIGN: bool = true;
    fn make(class: u32) -> Box<CStr> {
        CString::new(text(class)).unwrap().into_boxed_c_str()
    }
    fn desc(t: &CStr) -> Desc {
        let b = t.to_bytes_with_nul();
        Desc { class: b.len() as u32, ids: b.iter().map(|b| *b as u32).collect(), size: b.len(), align: 1 }
    }
    fn owned(d: &Desc) -> (usize, usize) {
        let _ = d;
        (0, 0)
    }
    fn addr(t: &CStr) -> usize {
        t.as_ptr() as usize
    }
}
pub struct KOsStr;
impl Kind for KOsStr {
    type T = OsStr;
    const NAME: &'static str = "osstr";
    const CLASSES: u32 = 4;
    const FIXED_ALIGN: bool = false;
    fn make(class: u32) -> Box<OsStr> {
        OsString::from(text(class)).into_boxed_os_str()
    }
    fn desc(t: &OsStr) -> Desc {
        let b = t.as_encoded_bytes();
        Desc { class: b.len() as u32, ids: b.iter().map(|b| *b as u32).collect(), size: b.len(), align: 1 }
    }
    fn owned(d: &Desc) -> (usize, usize) {
        let _ = d;
        (0, 0)
    }
    fn addr(t: &OsStr) -> usize {
        t.as_encoded_bytes().as_ptr() as usize
    }
}
pub struct KDyn;
impl Kind for KDyn {
    type T = dyn El;
    const NAME: &'static str = "dyn";
    const CLASSES: u32 = 10;
    const FIXED_ALIGN: bool = false;
    fn make(class: u32) -> Box<dyn El> {
        match class % 10 {
            0 => Box::new(P::<0>::new(0)),                 // size 5  align 1
            1 => Box::new(E::<1, u8>::new(1)),             // size 12 align 4
            2 => Box::new(E::<0, u64>::new(2)),            // size 8  align 8
            3 => Box::new(E::<24, A16>::new(3)),           // size 32 align 16
            4 => Box::new(Z::<u8> { _t: ZTok::new(), _a: [] }),
            5 => Box::new(Z::<A64> { _t: ZTok::new(), _a: [] }),
            6 => Box::new(E::<3, A64>::new(6)),            // size 64 align 64
            7 => Box::new(P::<8>::new(7)),                 // size 13 align 1
            8 => Box::new(E::<200, u16>::new(8)),          // size 208 align 4
            _ => Box::new(E::<9, A128>::new(9)),           // size 128 align 128
        }
    }
    fn desc(t: &dyn El) -> Desc {
        let d = t.desc();
        if d.size != size_of_val(t) || d.align != align_of_val(t) {
            err("value metadata does not belong to the value", d.ids.first().copied().unwrap_or(0));
        }
        d
    }
    fn owned(d: &Desc) -> (usize, usize) {
        (d.ids.len(), d.ids.is_empty() as usize)
    }
    fn addr(t: &dyn El) -> usize {
        t.addr()
    }
    fn push_unsize(v: &mut UnsizedVec<dyn El>, at: Option<usize>, class: u32) -> bool {
        macro_rules! go {
            ($e:expr) => {
                match at {
                    None => v.push_unsize($e),
                    Some(i) => v.insert_unsize(i, $e),
                }
            };
        }
        match class % 10 {
            0 => go!(P::<0>::new(0)),
            1 => go!(E::<1, u8>::new(1)),
            2 => go!(E::<0, u64>::new(2)),
            3 => go!(E::<24, A16>::new(3)),
            4 => go!(Z::<u8> { _t: ZTok::new(), _a: [] }),
            5 => go!(Z::<A64> { _t: ZTok::new(), _a: [] }),
            6 => go!(E::<3, A64>::new(6)),
            7 => go!(P::<8>::new(7)),
            8 => go!(E::<200, u16>::new(8)),
            _ => go!(E::<9, A128>::new(9)),
        }
        true
    }
}

/// Where a hand-written emplacable misbehaves (within its contract).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// Panic before the emplacer closure is called.
    Before,
    /// Panic inside the inner closure, after scribbling over the destination.
    Inner,
    /// Panic inside the inner closure, before writing anything.
    InnerClean,
    /// Panic after the emplacer closure returned.
    After,
}

/// A hand-written emplacable around an owned box.
pub fn custom<T: ?Sized + 'static>(b: Box<T>, fault: Fault) -> Emplacable<T, impl EmplacableFn<T>> {
    let f = move |em: &mut Emplacer<'_, T>| {
        if fault == Fault::Before {
            panic!("injected emplacable panic (before)");
        }
        let layout = Layout::for_value(&*b);
        let p = Box::into_raw(b);
        // Own the allocation (not the value) until the end.
        struct Mem(*mut u8, Layout);
        impl Drop for Mem {
            fn drop(&mut self) {
                if self.1.size() > 0 {
                    unsafe { std::alloc::dealloc(self.0, self.1) }
                }
            }
        }
        struct Val<T: ?Sized>(*mut T, bool);
        impl<T: ?Sized> Drop for Val<T> {
            fn drop(&mut self) {
                if self.1 {
                    unsafe { self.0.drop_in_place() }
                }
            }
        }
        let _mem = Mem(p.cast(), layout);
        let mut val = Val(p, true);
        let ef = unsafe { em.into_fn() };
        ef(layout, std::ptr::metadata(p), &mut |out: *mut PhantomData<T>| {
            if out.is_null() {
                val.1 = false;
                unsafe { p.drop_in_place() }
            } else {
                let o = out.cast::<u8>();
                if (o as usize) % layout.align() != 0 {
                    err("emplacer passed a misaligned destination", 0);
                }
                if fault == Fault::InnerClean {
                    panic!("injected emplacable panic (inner, clean)");
                }
                unsafe { o.write_bytes(0xEE, layout.size()) };
                if fault == Fault::Inner {
                    panic!("injected emplacable panic (inner)");
                }
                unsafe { o.copy_from_nonoverlapping(p.cast(), layout.size()) };
                val.1 = false;
            }
        });
        if val.1 {
            // Emplacer chose to forget the value.
            val.1 = false;
        }
        if fault == Fault::After {
            panic!("injected emplacable panic (after)");
        }
    };
    unsafe { Emplacable::from_fn(f) }
}
