//! Executable contracts of `UnsizedVec`: every public operation is run on the real
//! vector and on an abstract sequence, and its postcondition is checked.
use crate::elems::{self, Desc, Fault, Kind, custom};
use crate::track;
use emplacable::{Emplacable, EmplacableFn, Emplacer, box_new_with};
use std::alloc::Layout;
use std::marker::PhantomData;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering::Relaxed;
use unsized_vec::UnsizedVec;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum C {
    Push,    // class via
    Ins,     // idx class via
    Pop,     // how
    Rem,     // idx how
    PushF,   // class fault
    InsF,    // idx class fault
    PopF,    // mode
    RemF,    // idx mode
    Res,     // variant n b a(log2)
    ResFail, // variant n b a|k<<8
    Huge,    // variant code
    Shrink,  // variant n b a(log2)
    Iter,    // pattern
    New,     // variant n b a
    Clone,   //
    Ext,     // count class
    Mut,     // idx
    DropAll, // mode: 0 drop vec, 1 drop with a panicking destructor
}
pub const CS: [(C, &str); 18] = [
    (C::Push, "PUSH"),
    (C::Ins, "INSERT"),
    (C::Pop, "POP"),
    (C::Rem, "REMOVE"),
    (C::PushF, "PUSHFAULT"),
    (C::InsF, "INSERTFAULT"),
    (C::PopF, "POPFAULT"),
    (C::RemF, "REMOVEFAULT"),
    (C::Res, "RESERVE"),
    (C::ResFail, "RESERVE_ALLOCFAIL"),
    (C::Huge, "RESERVE_HUGE"),
    (C::Shrink, "SHRINK"),
    (C::Iter, "ITER"),
    (C::New, "NEW"),
    (C::Clone, "CLONE"),
    (C::Ext, "EXTEND"),
    (C::Mut, "INDEXMUT"),
    (C::DropAll, "DROPVEC"),
];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    pub c: C,
    pub a: [usize; 4],
}
impl Op {
    pub fn text(&self) -> String {
        let n = CS.iter().find(|x| x.0 == self.c).unwrap().1;
        format!("{n} {} {} {} {}", self.a[0], self.a[1], self.a[2], self.a[3])
    }
    pub fn parse(s: &str) -> Option<Op> {
        let mut it = s.split_whitespace();
        let n = it.next()?;
        let c = CS.iter().find(|x| x.1 == n)?.0;
        let mut a = [0; 4];
        for (i, x) in it.enumerate() {
            a[i] = x.parse().ok()?;
        }
        Some(Op { c, a })
    }
}

pub type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

#[derive(Clone, Copy, Debug)]
pub struct Snap {
    len: usize,
    cap: usize,
    bcap: usize,
    blen: usize,
    align: usize,
    calls: u64,
    addr0: usize,
}

pub struct World<K: Kind> {
    pub v: UnsizedVec<K::T>,
    pub model: Vec<Desc>,
}

fn pad(x: usize, a: usize) -> usize {
    (x + a - 1) & !(a - 1)
}

/// Runs `f`; Err(message) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        drop(e);
        m
    })
}

fn injected(m: &str) -> bool {
    m.starts_with("injected")
}

impl<K: Kind> World<K> {
    pub fn new() -> Self {
        World { v: UnsizedVec::new(), model: Vec::new() }
    }
    fn size_of_t() -> Option<usize> {
        K::SIZED.then(|| match K::NAME {
            "sized" => 4,
            "sized24" => 24,
            _ => 0,
        })
    }
    pub fn snap(&self) -> Snap {
        Snap {
            len: self.v.len(),
            cap: self.v.capacity(),
            bcap: self.v.byte_capacity(),
            blen: self.v.byte_len(),
            align: self.v.align(),
            calls: track::CALLS.load(Relaxed),
            addr0: self.v.get(0).map_or(0, |x| (x as *const K::T).cast::<u8>() as usize),
        }
    }
    fn calls_since(&self, s: &Snap) -> u64 {
        track::CALLS.load(Relaxed) - s.calls
    }

    /// The representation contract as seen from outside.
    pub fn check(&self) -> R {
        if let Some(e) = elems::error() {
            return Err(format!("[+C04] {e}"));
        }
        if let Some(e) = track::error() {
            return Err(tag_track(e));
        }
        let v = &self.v;
        ensure!(v.len() == self.model.len(), "len() is {} but the sequence has {} elements", v.len(), self.model.len());
        ensure!(v.is_empty() == self.model.is_empty(), "is_empty() disagrees with len()");
        ensure!(v.capacity() >= v.len(), "[C05] capacity() {} < len() {}", v.capacity(), v.len());
        ensure!(v.byte_capacity() >= v.byte_len(), "[+C05] byte_capacity() {} < byte_len() {}", v.byte_capacity(), v.byte_len());
        ensure!(v.align().is_power_of_two(), "[+C03] align() {} is not a power of two", v.align());
        let sum: usize = self.model.iter().map(|d| d.size).sum();
        if K::FIXED_ALIGN {
            ensure!(v.byte_len() == sum, "byte_len() is {} but the elements take {} bytes", v.byte_len(), sum);
        } else {
            ensure!(v.byte_len() >= sum, "byte_len() is {} but the elements take {} bytes", v.byte_len(), sum);
        }
        let mut prev_end = 0usize;
        let mut first = 0usize;
        for (i, want) in self.model.iter().enumerate() {
            let Some(r) = v.get(i) else { return Err(format!("get({i}) is None with len {}", v.len())) };
            // Trust nothing about the reference before the placement checks.
            let addr = (r as *const K::T).cast::<u8>() as usize;
            let (sz, al) = (size_of_val(r), align_of_val(r));
            ensure!(sz == want.size, "element {i}: size_of_val is {sz}, expected {}", want.size);
            ensure!(al == want.align, "element {i}: align_of_val is {al}, expected {}", want.align);
            ensure!(addr % al == 0, "[C03] element {i} at {addr:#x} is not aligned to {al}");
            ensure!(v.align() >= al, "[C03] align() {} is less than the alignment {al} of element {i}", v.align());
            if i == 0 {
                first = addr;
            }
            if sz > 0 {
                ensure!(addr >= prev_end, "[+C03] element {i} overlaps an earlier element");
                let Some((p, s, a)) = track::find_containing(addr) else {
                    return Err(format!("[+C03] element {i} lies outside every live allocation"));
                };
                ensure!(addr + sz <= p + s, "[+C03] element {i} extends past its allocation");
                ensure!(a >= al, "[C03] element {i}: buffer allocated with align {a} < {al}");
                prev_end = addr + sz;
                if !K::SIZED {
                    ensure!(addr + sz <= first + v.byte_capacity(), "[+C03] element {i} lies beyond byte_capacity()");
                    ensure!(p == first, "[C03] element 0 is not at the start of the buffer");
                }
            }
            let got = K::desc(r);
            if let Some(e) = elems::error() {
                return Err(format!("element {i}: {e}"));
            }
            ensure!(got == *want, "element {i} is {got:?}, expected {want:?}");
            ensure!(std::ptr::eq(&v[i] as *const K::T as *const u8, addr as *const u8), "v[{i}] and v.get({i}) disagree");
        }
        ensure!(v.get(self.model.len()).is_none(), "get(len) is not None");
        ensure!(v.get(usize::MAX).is_none(), "get(usize::MAX) is not None");
        self.census()
    }
    /// Every value is owned exactly once: alive values == values in the sequence.
    pub fn census(&self) -> R {
        let (mut t, mut z) = (0, 0);
        for d in &self.model {
            let (a, b) = K::owned(d);
            t += a;
            z += b;
        }
        ensure!(elems::alive_ids() == t, "[+C04] {} values alive but the vector should own {t} (leak or premature drop)", elems::alive_ids());
        ensure!(elems::zlive() == z as i64, "[+C04] {} zero-sized values alive but the vector should own {z}", elems::zlive());
        Ok(())
    }

    fn forget_desc(d: &Desc) {
        let (t, z) = K::owned(d);
        if t > 0 {
            for id in &d.ids {
                elems::forget_id(*id);
            }
        }
        for _ in 0..z {
            elems::forget_z();
        }
    }

    fn add(&mut self, at: Option<usize>, class: usize, via: usize) -> R {
        let class = class as u32 % K::CLASSES;
        let s = self.snap();
        if via == 3 {
            let before = elems::next_id();
            let v = &mut self.v;
            match guarded(|| K::push_unsize(v, at, class)) {
                Ok(true) => {
                    let i = at.unwrap_or(s.len);
                    ensure!(self.v.len() == s.len + 1, "len() did not grow by one");
                    let r = self.v.get(i).ok_or("inserted element missing")?;
                    let d = K::desc(r);
                    ensure!(d.ids.first().is_none_or(|x| *x >= before), "inserted element has the wrong identity");
                    if K::NAME == "dyn" {
                        ensure!(d.class == class, "inserted element has the wrong type");
                    }
                    self.model.insert(i, d);
                    return Ok(());
                }
                Ok(false) => (),
                Err(m) => return Err(format!("push_unsize/insert_unsize panicked: {m}")),
            }
        }
        let b = K::make(class);
        let d = K::desc(&b);
        ensure!(d.size == size_of_val(&*b), "harness: bad desc");
        let fits = s.len + 1 <= s.cap && s.align >= d.align && s.blen.checked_add(pad(d.size, if K::FIXED_ALIGN { 1 } else { s.align })).is_some_and(|x| x <= s.bcap);
        let s = self.snap();
        let v = &mut self.v;
        let r = guarded(|| match (at, via) {
            (_, 0 | 3) => K::push_val(v, at, b),
            (None, 1) => v.push_with(custom(b, Fault::None)),
            (Some(i), 1) => v.insert_with(i, custom(b, Fault::None)),
            (None, _) => v.push_with(b.into()),
            (Some(i), _) => v.insert_with(i, b.into()),
        });
        if let Err(m) = r {
            return Err(format!("push/insert panicked: {m}"));
        }
        let n = self.calls_since(&s);
        self.model.insert(at.unwrap_or(s.len), d);
        if fits {
            ensure!(n == 0, "[C05] push/insert allocated although capacity, byte capacity and align sufficed");
            ensure!(self.v.capacity() == s.cap && self.v.byte_capacity() == s.bcap && self.v.align() == s.align, "[C05] push/insert changed a sufficient capacity");
            if s.len > 0 && at != Some(0) {
                ensure!(self.snap().addr0 == s.addr0, "[C05] push/insert moved elements although the capacities sufficed");
            }
        }
        ensure!(self.v.capacity() >= s.cap && self.v.align() >= s.align && self.v.byte_capacity() >= s.bcap, "[C05] push/insert shrank a capacity");
        Ok(())
    }

    pub fn consume<F: EmplacableFn<K::T>>(e: Emplacable<K::T, F>, how: usize, want: &Desc) -> R {
        match how {
            0 => {
                let b = box_new_with(e);
                let d = K::desc(&b);
                ensure!(d == *want, "removed value is {d:?}, expected {want:?}");
                ensure!((&*b as *const K::T).cast::<u8>() as usize % align_of_val(&*b) == 0, "[C13 C03] boxed value misaligned");
                drop(b);
            }
            1 => drop(e),
            2 => {
                e.forget();
                World::<K>::forget_desc(want);
            }
            3 => {
                let mut o: UnsizedVec<K::T> = UnsizedVec::new();
                o.push_with(e);
                ensure!(o.len() == 1, "push_with did not add one element");
                let d = K::desc(&o[0]);
                ensure!(d == *want, "moved value is {d:?}, expected {want:?}");
                drop(o);
            }
            _ => {
                // The layout and metadata announced to the emplacer are those of the value.
                let f = e.into_fn();
                let mut seen: Option<(Layout, usize)> = None;
                let mut ef = |l: Layout, m: <K::T as std::ptr::Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<K::T>)| {
                    let fake: *const K::T = std::ptr::from_raw_parts(std::ptr::without_provenance::<()>(l.align()), m);
                    // (size_of_val_raw equivalent through a dangling wide pointer is only valid
                    // for slices/dyn, which is all that is used here.)
                    let sz = unsafe { std::mem::size_of_val_raw(fake) };
                    seen = Some((l, sz));
                    inner(std::ptr::null_mut());
                };
                f(unsafe { Emplacer::from_fn(&mut ef) });
                let (l, sz) = seen.ok_or("emplacable did not call its emplacer")?;
                ensure!(l.size() == want.size && l.align() == want.align, "[+C12] announced layout {l:?} does not match the value {want:?}");
                ensure!(sz == want.size, "[+C12] announced metadata describes a {sz}-byte value, expected {}", want.size);
            }
        }
        Ok(())
    }

    fn taken(&mut self, i: usize, pop: bool, how: usize) -> R {
        let s = self.snap();
        let want = self.model[i].clone();
        let v = &mut self.v;
        if how == 5 {
            // Never running the emplacable leaves the vector as it was.
            let r = guarded(|| if pop { std::mem::forget(v.pop_into().unwrap()) } else { std::mem::forget(v.remove_into(i)) });
            if let Err(m) = r {
                return Err(format!("pop_into/remove_into panicked: {m}"));
            }
            return Ok(());
        }
        let r = guarded(|| if pop { World::<K>::consume(v.pop_into().expect("pop_into() is None on a non-empty vec"), how, &want) } else { World::<K>::consume(v.remove_into(i), how, &want) });
        match r {
            Err(m) => return Err(format!("pop/remove panicked: {m}")),
            Ok(x) => x?,
        }
        self.model.remove(i);
        ensure!(self.v.capacity() == s.cap && self.v.byte_capacity() == s.bcap && self.v.align() == s.align, "[C05] pop/remove changed a capacity");
        Ok(())
    }

    /// After a panic in the middle of taking element `i`: it is gone, or (if it may) still there.
    fn after_take_panic(&mut self, i: usize, may_stay: bool, dropped: bool) -> R {
        let n = self.model.len();
        if self.v.len() == n && may_stay {
            return Ok(());
        }
        ensure!(self.v.len() + 1 == n, "[C08] after a panic while removing, len() is {} (was {n})", self.v.len());
        let d = self.model.remove(i);
        if !dropped {
            World::<K>::forget_desc(&d);
        }
        Ok(())
    }

    fn fault_take(&mut self, i: usize, pop: bool, mode: usize) -> R {
        let want = self.model[i].clone();
        if mode == 0 {
            let v = &mut self.v;
            let r = guarded(|| {
                let mut ef = |_: Layout, _: <K::T as std::ptr::Pointee>::Metadata, _: &mut dyn FnMut(*mut PhantomData<K::T>)| panic!("injected emplacer panic");
                let em = unsafe { Emplacer::from_fn(&mut ef) };
                if pop { v.pop_into().unwrap().into_fn()(em) } else { v.remove_into(i).into_fn()(em) }
            });
            match r {
                Ok(()) => return Err("emplacer panic was swallowed".into()),
                Err(m) if injected(&m) => (),
                Err(m) => return Err(format!("unexpected panic: {m}")),
            }
            self.after_take_panic(i, true, false)
        } else {
            // Destructor of the removed value panics.
            let (t, _) = K::owned(&want);
            if t == 0 {
                return self.taken(i, pop, 1);
            }
            elems::panic_on_drop(*want.ids.last().unwrap());
            let v = &mut self.v;
            let r = guarded(|| if pop { drop(v.pop_into()) } else { drop(v.remove_into(i)) });
            elems::panic_on_drop(0);
            match r {
                Ok(()) => return Err("dropping the emplacable did not run the value's destructor".into()),
                Err(m) if injected(&m) => (),
                Err(m) => return Err(format!("unexpected panic: {m}")),
            }
            self.after_take_panic(i, false, true)
        }
    }

    fn fault_add(&mut self, at: Option<usize>, class: usize, fault: usize) -> R {
        let b = K::make(class as u32 % K::CLASSES);
        let fault = [Fault::Before, Fault::Inner, Fault::InnerClean][fault % 3];
        let v = &mut self.v;
        let r = guarded(|| match at {
            None => v.push_with(custom(b, fault)),
            Some(i) => v.insert_with(i, custom(b, fault)),
        });
        match r {
            Ok(()) => Err("emplacable panic was swallowed".into()),
            Err(m) if injected(&m) => Ok(()),
            Err(m) => Err(format!("unexpected panic: {m}")),
        }
    }

    /// variant: bit0 = bytes, bit1 = align (implies bytes), bit2 = exact, bit3 = try
    fn reserve_call(v: &mut UnsizedVec<K::T>, var: usize, n: usize, b: usize, al: usize) -> Result<bool, String> {
        let (by, ali, ex, tr) = (var & 1 != 0, var & 2 != 0, var & 4 != 0, var & 8 != 0);
        guarded(|| match (tr, ex, by, ali) {
            (false, false, _, true) => { v.reserve_capacity_bytes_align(n, b, al); true }
            (false, false, true, _) => { v.reserve_capacity_bytes(n, b); true }
            (false, false, ..) => { v.reserve(n); true }
            (false, true, _, true) => { v.reserve_exact_capacity_bytes_align(n, b, al); true }
            (false, true, true, _) => { v.reserve_exact_capacity_bytes(n, b); true }
            (false, true, ..) => { v.reserve_exact(n); true }
            (true, false, _, true) => v.try_reserve_capacity_bytes_align(n, b, al).is_ok(),
            (true, false, true, _) => v.try_reserve_capacity_bytes(n, b).is_ok(),
            (true, false, ..) => v.try_reserve(n).is_ok(),
            (true, true, _, true) => v.try_reserve_exact_capacity_bytes_align(n, b, al).is_ok(),
            (true, true, true, _) => v.try_reserve_exact_capacity_bytes(n, b).is_ok(),
            (true, true, ..) => v.try_reserve_exact(n).is_ok(),
        })
    }
    fn reserve(&mut self, var: usize, n: usize, b: usize, la: usize) -> R {
        let al = 1usize << (la % 8);
        let by = var & 3 != 0;
        let ali = var & 2 != 0;
        let b = if by { b } else { 0 };
        let want_al = if ali && !K::FIXED_ALIGN { al } else { 1 };
        let s = self.snap();
        match Self::reserve_call(&mut self.v, var, n, b, al) {
            Err(m) => return Err(format!("reserve panicked: {m}")),
            Ok(false) => return Err("try_reserve failed although memory was available".into()),
            Ok(true) => (),
        }
        let calls = self.calls_since(&s);
        let p = self.snap();
        let zst = Self::size_of_t() == Some(0);
        ensure!(p.cap >= s.len + n, "after reserving {n} elements capacity() is {} with len() {}", p.cap, s.len);
        ensure!(zst || p.bcap >= p.blen + b, "after reserving {b} bytes byte_capacity() is {} with byte_len() {}", p.bcap, p.blen);
        ensure!(p.align >= want_al, "after reserving align {want_al} align() is {}", p.align);
        ensure!(p.cap >= s.cap && p.bcap >= s.bcap && p.align >= s.align, "reserve shrank a capacity");
        ensure!(p.align <= s.align.max(want_al), "reserve raised align() to {} (asked for {want_al}, was {})", p.align, s.align);
        if s.cap >= s.len + n && (zst || s.bcap >= s.blen + b) && s.align >= want_al {
            ensure!(calls == 0, "reserve allocated although the capacities already sufficed");
            ensure!(p.cap == s.cap && p.bcap == s.bcap && p.align == s.align, "reserve changed a sufficient capacity");
        }
        if var & 4 != 0 {
            match Self::size_of_t() {
                Some(0) => (),
                Some(sz) => {
                    let need = (s.len + n).max((s.blen + b).div_ceil(sz));
                    ensure!(p.cap <= s.cap.max(need), "[C06] reserve_exact over-allocated: capacity() {} (needed {need}, had {})", p.cap, s.cap);
                }
                None => {
                    ensure!(p.cap <= s.cap.max(s.len + n), "[C06] reserve_exact over-allocated: capacity() {} (needed {}, had {})", p.cap, s.len + n, s.cap);
                    let grow = (p.blen - s.blen) + if K::FIXED_ALIGN { 0 } else { 2 * p.align };
                    ensure!(p.bcap <= s.bcap.max(s.blen + b) + grow, "[C06] reserve_exact over-allocated: byte_capacity() {} (needed {}, had {})", p.bcap, s.blen + b, s.bcap);
                }
            }
        }
        Ok(())
    }
    fn reserve_fail(&mut self, var: usize, n: usize, b: usize, ak: usize) -> R {
        let al = 1usize << ((ak & 0xff) % 8);
        let k = (ak >> 8) % 3;
        let s = self.snap();
        let f0 = track::FAILED.load(Relaxed);
        track::FAIL_IN.store(k as i64, Relaxed);
        let r = Self::reserve_call(&mut self.v, var | 8, n, b, al);
        track::FAIL_IN.store(-1, Relaxed);
        let failed = track::FAILED.load(Relaxed) - f0;
        match r {
            Err(m) => return Err(format!("try_reserve panicked on allocation failure: {m}")),
            Ok(ok) => {
                // The amortised variants may retry with a smaller request.
                ensure!(ok || failed > 0, "try_reserve failed without an allocation failure");
                if failed > 0 && var & 4 != 0 {
                    ensure!(!ok, "try_reserve_exact reported success although its allocation failed");
                }
                let p = self.snap();
                if !ok {
                    // (Elementwise capacity may already have been reserved; for Sized elements that is also bytes.)
                    ensure!(p.len == s.len && p.blen == s.blen && p.align == s.align && p.cap >= s.cap && p.bcap >= s.bcap && (K::SIZED || p.bcap == s.bcap), "failed try_reserve changed the vector");
                } else {
                    let by = var & 3 != 0;
                    ensure!(p.cap >= s.len + n, "try_reserve Ok but capacity() is too small");
                    ensure!(!by || Self::size_of_t() == Some(0) || p.bcap >= p.blen + b, "try_reserve Ok but byte_capacity() is too small");
                }
            }
        }
        Ok(())
    }
    fn huge(&mut self, var: usize, code: usize) -> R {
        let big = [usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, isize::MAX as usize - 7, usize::MAX / 2 + 9, usize::MAX - 64, 1 << 40];
        let x = big[code % 8];
        let al = [1usize, 8, 64, 1 << 62, 1 << 63, 1 << 12][code / 8 % 6];
        let which = code / 48 % 3;
        let (n, b) = match which {
            0 => (x, 0),
            1 => (1, x),
            _ => (x, x),
        };
        let zst = Self::size_of_t() == Some(0);
        let by = var & 3 != 0;
        let s = self.snap();
        match Self::reserve_call(&mut self.v, var | 8, n, b, al) {
            Err(m) => Err(format!("try_reserve with an impossible request panicked instead of returning Err: {m}")),
            Ok(ok) => {
                let p = self.snap();
                if ok {
                    ensure!(p.cap >= s.len.saturating_add(n), "try_reserve({n}) is Ok but capacity() is {}", p.cap);
                    ensure!(zst || !by || p.bcap >= p.blen.saturating_add(b), "try_reserve of {b} bytes is Ok but byte_capacity() is {}", p.bcap);
                    ensure!(K::FIXED_ALIGN || var & 2 == 0 || p.align >= al, "try_reserve is Ok but align() is {}", p.align);
                } else {
                    ensure!(p.len == s.len && p.align == s.align && p.blen == s.blen && p.cap >= s.cap && p.bcap >= s.bcap && (K::SIZED || p.bcap == s.bcap), "failed try_reserve changed the vector");
                }
                Ok(())
            }
        }
    }

    fn shrink(&mut self, var: usize, n: usize, b: usize, la: usize) -> R {
        let al = 1usize << (la % 8);
        let s = self.snap();
        // Variant bit 2: the allocator refuses to shrink.
        if var & 4 != 0 && !K::SIZED {
            track::FAIL_IN.store((var >> 3 & 1) as i64, Relaxed);
            let v = &mut self.v;
            // (The infallible elementwise shrink of the offset list reports failure by panicking
            // or aborting in std; only fail when it has nothing to do.)
            if s.cap > n || var % 4 == 0 || var & 8 != 0 {
                track::FAIL_IN.store(-1, Relaxed);
            }
            let f0 = track::FAILED.load(Relaxed);
            let r = guarded(|| match var % 4 {
                0 => v.shrink_to_fit(),
                1 => v.shrink_to(n),
                2 => v.shrink_capacity_bytes_to(n, b),
                _ => v.shrink_capacity_bytes_align_to(n, b, al),
            });
            track::FAIL_IN.store(-1, Relaxed);
            if track::FAILED.load(Relaxed) != f0 {
                let p = self.snap();
                ensure!(p.len == s.len && p.align <= s.align && p.bcap <= s.bcap, "[C07] shrink whose allocation failed changed the vector");
                // Panicking or keeping the capacity are both acceptable.
                return Ok(());
            }
            if let Err(m) = r {
                return Err(format!("shrink panicked: {m}"));
            }
            return Ok(());
        }
        let v = &mut self.v;
        let r = guarded(|| match var % 4 {
            0 => v.shrink_to_fit(),
            1 => v.shrink_to(n),
            2 => v.shrink_capacity_bytes_to(n, b),
            _ => v.shrink_capacity_bytes_align_to(n, b, al),
        });
        if let Err(m) = r {
            return Err(format!("shrink panicked: {m}"));
        }
        let (mc, mb, ma) = match var % 4 {
            0 => (0, 0, 1),
            1 => (n, if K::SIZED { 0 } else { usize::MAX }, usize::MAX),
            2 => (n, b, usize::MAX),
            _ => (n, b, al),
        };
        let p = self.snap();
        ensure!(p.cap <= s.cap && p.bcap <= s.bcap && p.align <= s.align, "shrink increased a capacity ({s:?} -> {p:?})");
        if let Some(sz) = Self::size_of_t() {
            if sz > 0 {
                let want = s.len.max(mc).max(mb.div_ceil(sz)).min(s.cap);
                ensure!(p.cap == want, "shrink left capacity() {} (lower bound {want}, was {})", p.cap, s.cap);
            }
        } else {
            let want = s.len.max(mc).min(s.cap);
            ensure!(p.cap == want, "shrink left capacity() {} (lower bound {want}, was {})", p.cap, s.cap);
            let maxal = self.model.iter().map(|d| d.align).max().unwrap_or(1);
            if !K::FIXED_ALIGN {
                let wa = ma.min(s.align).max(maxal);
                ensure!(p.align == wa, "shrink left align() {} (lower bound {wa}, was {})", p.align, s.align);
            }
            let lo = p.blen.max(mb).min(s.bcap);
            ensure!(p.bcap >= lo, "shrink left byte_capacity() {} below the lower bound {lo}", p.bcap);
            let hi = if K::FIXED_ALIGN { lo } else { (lo.saturating_add(p.align - 1)).min(s.bcap) };
            ensure!(p.bcap <= hi, "shrink left byte_capacity() {} (lower bound {lo}, was {})", p.bcap, s.bcap);
        }
        Ok(())
    }

    fn iter(&mut self, mut pat: usize) -> R {
        let want: Vec<usize> = (0..self.v.len()).map(|i| (&self.v[i] as *const K::T).cast::<u8>() as usize).collect();
        let sizes: Vec<usize> = (0..self.v.len()).map(|i| size_of_val(&self.v[i])).collect();
        let n = want.len();
        for mutable in [false, true] {
            let mut pat2 = pat;
            let (mut lo, mut hi) = (0usize, n);
            macro_rules! run {
                ($it:expr) => {{
                    let mut it = $it;
                    loop {
                        ensure!(it.len() == hi - lo, "iterator len() is {} with {} elements left", it.len(), hi - lo);
                        ensure!(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint() is {:?} with {} elements left", it.size_hint(), hi - lo);
                        if pat2 == 0 {
                            break;
                        }
                        let c = pat2 % 8;
                        pat2 /= 8;
                        let (name, got, exp) = match c {
                            0 | 1 => ("next", it.next(), { let e = (lo < hi).then_some(lo); if lo < hi { lo += 1 } e }),
                            2 => ("next_back", it.next_back(), { let e = (lo < hi).then(|| hi - 1); if lo < hi { hi -= 1 } e }),
                            3 | 4 | 5 => {
                                let k = c - 3;
                                ("nth", it.nth(k), if k < hi - lo { lo += k + 1; Some(lo - 1) } else { lo = hi; None })
                            }
                            6 => ("nth_back", it.nth_back(1), if 1 < hi - lo { hi -= 2; Some(hi) } else { lo = hi; None }),
                            _ => {
                                let k = pat2 % 2;
                                if k == 0 {
                                    let e = (lo < hi).then(|| hi - 1);
                                    let g = it.last().map(|r| ((r as *const K::T).cast::<u8>() as usize, size_of_val(r)));
                                    ensure!(g.map(|x| x.0) == e.map(|i| want[i]) && g.map(|x| x.1) == e.map(|i| sizes[i]), "last() returned the wrong element");
                                } else {
                                    ensure!(it.count() == hi - lo, "count() is wrong");
                                }
                                break;
                            }
                        };
                        match (got, exp) {
                            (None, None) => (),
                            (Some(r), Some(i)) => {
                                let a = (&*r as *const K::T).cast::<u8>() as usize;
                                ensure!(a == want[i], "iterator {name}() returned the wrong element (expected index {i})");
                                ensure!(size_of_val(&*r) == sizes[i], "iterator {name}() returned element {i} with the wrong size");
                                let d = K::desc(&*r);
                                ensure!(d == self.model[i], "iterator {name}() returned {d:?} for index {i}");
                            }
                            (g, e) => return Err(format!("iterator {name}() returned {} but expected {}", if g.is_some() { "an element" } else { "None" }, if e.is_some() { "an element" } else { "None" })),
                        }
                    }
                }};
            }
            let r: Result<R, String> = guarded(|| {
                if mutable {
                    run!(self.v.iter_mut());
                } else {
                    run!(self.v.iter());
                }
                Ok(())
            });
            match r {
                Err(m) => return Err(format!("iterator panicked: {m}")),
                Ok(x) => x?,
            }
        }
        // Default adaptors agree with indexing as well.
        pat = 0;
        for (i, r) in (&self.v).into_iter().enumerate() {
            ensure!((r as *const K::T).cast::<u8>() as usize == want[i], "for loop yields the wrong element at {i}");
            pat += 1;
        }
        ensure!(pat == n, "for loop yields {pat} elements, expected {n}");
        let mut it = self.v.iter();
        while it.next().is_some() {}
        ensure!(it.next().is_none() && it.next_back().is_none(), "exhausted iterator yields again");
        ensure!(self.v.iter().rev().map(|r| (r as *const K::T).cast::<u8>() as usize).eq(want.iter().rev().copied()), "rev() order is wrong");
        let mut k = 0;
        self.v.iter().for_each(|r| k += usize::from((r as *const K::T).cast::<u8>() as usize == want[k]));
        ensure!(k == n, "for_each() order is wrong");
        ensure!(self.v.iter().all(|_| true) && !self.v.iter().any(|_| false), "all/any wrong");
        ensure!(self.v.iter().position(|_| true) == (n > 0).then_some(0), "position wrong");
        if n > 1 {
            let t = want[n - 1];
            let st = sizes[n - 1];
            let f = |r: &&K::T| (*r as *const K::T).cast::<u8>() as usize == t && size_of_val(*r) == st;
            ensure!(self.v.iter().find(f).is_some(), "find wrong");
            ensure!(self.v.iter().find_map(|r| f(&r).then_some(1)) == Some(1), "find_map wrong");
        }
        Ok(())
    }

    fn new_vec(&mut self, var: usize, n: usize, b: usize, la: usize) -> R {
        let al = 1usize << (la % 8);
        let old = std::mem::replace(&mut self.v, UnsizedVec::new());
        drop(old);
        self.model.clear();
        self.check()?;
        let c0 = track::CALLS.load(Relaxed);
        let r = guarded(|| match var % 5 {
            0 => UnsizedVec::new(),
            1 => UnsizedVec::with_capacity(n),
            2 => UnsizedVec::with_capacity_bytes(n, b),
            3 => UnsizedVec::with_capacity_bytes_align(n, b, al),
            _ => UnsizedVec::default(),
        });
        self.v = match r {
            Ok(v) => v,
            Err(m) => return Err(format!("constructor panicked: {m}")),
        };
        let p = self.snap();
        if matches!(var % 5, 0 | 4) {
            ensure!(track::CALLS.load(Relaxed) == c0, "new() allocated");
            if !K::FIXED_ALIGN {
                ensure!(p.align == align_of::<usize>(), "new() has align {}", p.align);
            }
            return Ok(());
        }
        ensure!(p.cap >= n, "with_capacity({n}) has capacity {}", p.cap);
        if let Some(sz) = Self::size_of_t() {
            if sz > 0 {
                let need = if var % 5 == 1 { n } else { n.max(b.div_ceil(sz)) };
                ensure!(p.cap <= need, "[C06] with_capacity over-allocated: {} > {need}", p.cap);
                ensure!(var % 5 == 1 || p.bcap >= b, "with_capacity_bytes: byte_capacity() {} < {b}", p.bcap);
            }
        } else {
            ensure!(p.cap <= n, "[C06] with_capacity over-allocated: {} > {n}", p.cap);
            let b = if var % 5 == 1 { 0 } else { b };
            ensure!(p.bcap >= b && p.bcap <= pad(b, p.align), "with_capacity_bytes: byte_capacity() {} for {b}", p.bcap);
        }
        if var % 5 == 3 && !K::FIXED_ALIGN {
            ensure!(p.align == al, "with_capacity_bytes_align({al}): align() is {}", p.align);
        }
        Ok(())
    }

    fn clone_vec(&mut self) -> R {
        let v = &self.v;
        let r = match guarded(|| K::clone_vec(v)) {
            Err(m) => return Err(format!("clone panicked: {m}")),
            Ok(None) => return Ok(()),
            Ok(Some(c)) => c,
        };
        ensure!(r.len() == self.model.len(), "clone has {} elements, expected {}", r.len(), self.model.len());
        let pairs = elems::CLONED.with(|c| std::mem::take(&mut *c.borrow_mut()));
        for (i, d) in self.model.iter().enumerate() {
            let c = K::desc(&r[i]);
            for (a, b) in d.ids.iter().zip(&c.ids) {
                ensure!(pairs.contains(&(*a, *b)), "clone element {i} is not a clone of element {i}");
            }
            ensure!(c.size == d.size, "clone element {i} has the wrong size");
        }
        drop(pairs);
        drop(r);
        Ok(())
    }

    fn extend(&mut self, n: usize, class: usize) -> R {
        let n = n % 4;
        let bs: Vec<Box<K::T>> = (0..n).map(|i| K::make((class + i) as u32 % K::CLASSES)).collect();
        for b in &bs {
            self.model.push(K::desc(b));
        }
        let v = &mut self.v;
        let r = guarded(|| v.extend(bs.into_iter().map(|b| custom(b, Fault::None))));
        if let Err(m) = r {
            return Err(format!("extend panicked: {m}"));
        }
        Ok(())
    }

    fn drop_all(&mut self, mode: usize) -> R {
        let v = std::mem::replace(&mut self.v, UnsizedVec::new());
        let victim = self.model.iter().find(|d| K::owned(d).0 > 0).map(|d| d.ids[0]);
        if mode == 1 && !self.model.is_empty() && victim.is_some() {
            elems::panic_on_drop(victim.unwrap());
            let r = guarded(|| drop(v));
            elems::panic_on_drop(0);
            if let Err(m) = &r {
                ensure!(injected(m), "unexpected panic: {m}");
            }
            ensure!(r.is_err(), "dropping the vec did not drop every element");
            // After a panicking destructor the rest may be leaked, never dropped twice.
            for d in &self.model {
                let (t, _) = K::owned(d);
                if t > 0 {
                    for id in &d.ids {
                        if elems::state(*id) == elems::St::Alive {
                            elems::forget_id(*id);
                        }
                    }
                }
            }
            while elems::zlive() > 0 {
                elems::forget_z();
            }
            self.model.clear();
            return Err("@leak-ok".into());
        }
        drop(v);
        self.model.clear();
        self.check()
    }

    pub fn step(&mut self, op: &Op) -> R {
        let [a, b, c, d] = op.a;
        let n = self.model.len();
        match op.c {
            C::Push => self.add(None, a, b),
            C::Ins => self.add(Some(a % (n + 1)), b, c),
            C::Pop => {
                if n == 0 {
                    ensure!(self.v.pop_into().is_none(), "pop_into() on an empty vec is not None");
                    return Ok(());
                }
                self.taken(n - 1, true, a)
            }
            C::Rem => {
                if n == 0 {
                    return self.out_of_range(0);
                }
                self.taken(a % n, false, b)
            }
            C::PushF => self.fault_add(None, a, b),
            C::InsF => self.fault_add(Some(a % (n + 1)), b, c),
            C::PopF if n > 0 => self.fault_take(n - 1, true, a),
            C::RemF if n > 0 => self.fault_take(a % n, false, b),
            C::PopF | C::RemF => self.out_of_range(1),
            C::Res => self.reserve(a, b, c, d),
            C::ResFail => self.reserve_fail(a, b, c, d),
            C::Huge => self.huge(a, b),
            C::Shrink => self.shrink(a, b, c, d),
            C::Iter => self.iter(a),
            C::New => self.new_vec(a, b, c, d),
            C::Clone => self.clone_vec(),
            C::Ext => self.extend(a, b),
            C::Mut => {
                if n > 0 {
                    let i = a % n;
                    let p = (&self.v[i] as *const K::T).cast::<u8>();
                    ensure!(std::ptr::eq((&mut self.v[i] as *mut K::T).cast::<u8>(), p), "index_mut differs from index");
                    ensure!(self.v.get_mut(i).is_some() && self.v.get_mut(n).is_none(), "get_mut bounds wrong");
                    self.out_of_range(a.wrapping_add(b) % 5)
                } else {
                    self.out_of_range(2)
                }
            }
            C::DropAll => self.drop_all(a),
        }
    }
    /// Indices from the length on: just behind it, within and at the capacity, far away.
    fn out_of_range(&mut self, w: usize) -> R {
        let n = self.model.len();
        let cap = self.v.capacity();
        for i in [n, n + 1, cap.saturating_sub(1), cap, usize::MAX] {
            if i < n {
                continue;
            }
            let v = &mut self.v;
            let r = match w {
                0 => guarded(|| std::mem::forget(v.remove_into(i))),
                1 => guarded(|| { let _ = &v[i]; }),
                2 => guarded(|| { let _ = &mut v[i]; }),
                3 if i > n => guarded(|| {
                    // SAFETY: never emplaced
                    v.insert_with(i, unsafe { emplacable::Emplacable::<K::T, _>::from_fn(|_: &mut emplacable::Emplacer<'_, K::T>| ()) });
                }),
                3 => continue,
                _ => {
                    ensure!(v.get(i).is_none() && v.get_mut(i).is_none(), "get({i}) of a vector of length {n} is not None");
                    continue;
                }
            };
            ensure!(r.is_err(), "access to index {i} of a vector of length {n} did not panic");
        }
        Ok(())
    }
}

/// Properties an error belongs to: raised by the operation itself / seen in the state afterwards.
fn tags(c: C) -> (&'static str, &'static str) {
    match c {
        C::Push | C::Ins => ("C01", "C01 C02"),
        C::Pop | C::Rem | C::Mut => ("C01", "C01"),
        C::PushF | C::InsF | C::PopF | C::RemF => ("C08", "C08"),
        C::Res => ("C05", "C02"),
        C::ResFail => ("C07", "C07"),
        C::Huge => ("C07 C14", "C07 C14"),
        C::Shrink => ("C06", "C02"),
        C::New => ("C05", "C02"),
        C::Iter => ("C09", "C09"),
        C::Clone | C::Ext => ("C11", "C11 C01"),
        C::DropAll => ("C04 C08", "C04"),
    }
}
fn tag_track(e: String) -> String {
    let t = if e.contains("invalid layout") {
        "C07 C14"
    } else if e.contains("out of bounds") {
        "+C03 C07"
    } else {
        "+C07"
    };
    format!("[{t}] {e}")
}
/// `[Cxx ..] msg` replaces, `[+Cxx ..] msg` extends the default tags.
fn with_tag(dflt: &str, m: &str, faulty: bool) -> String {
    let f = if faulty { " C08" } else { "" };
    if let Some(r) = m.strip_prefix("[+") {
        format!("[{dflt}{f} {r}")
    } else if m.starts_with('[') {
        m.to_owned()
    } else {
        format!("[{dflt}{f}] {m}")
    }
}

/// Runs a whole script from an empty vector; Err((step, message)).
pub fn run_script<K: Kind>(ops: &[Op]) -> Result<(), (usize, String)> {
    elems::reset();
    track::reset();
    track::ON.store(true, Relaxed);
    let r = run_inner::<K>(ops);
    track::ON.store(false, Relaxed);
    // Re-allocate the message outside the tracked section.
    r.map_err(|(i, m)| (i, m.as_str().to_owned()))
}
fn run_inner<K: Kind>(ops: &[Op]) -> Result<(), (usize, String)> {
    let live0 = track::LIVE.load(Relaxed);
    let mut leak_ok = false;
    let mut faulty = false;
    {
        let mut w = World::<K>::new();
        for (i, op) in ops.iter().enumerate() {
            let (ot, ct) = tags(op.c);
            faulty |= matches!(op.c, C::PushF | C::InsF | C::PopF | C::RemF | C::DropAll);
            let r = match w.step(op) {
                Ok(()) => w.check().map_err(|m| with_tag(ct, &m, faulty)),
                // An error reported by the operation itself is that operation's own.
                Err(m) => Err(with_tag(ot, &m, faulty && m.starts_with("[+"))),
            };
            match r {
                Ok(()) => (),
                Err(m) if m.contains("@leak-ok") => leak_ok = true,
                Err(m) => {
                    // The state may be corrupt: leak it.
                    std::mem::forget(w);
                    return Err((i, m));
                }
            }
        }
        track::check_all_zones();
        if let Err(m) = guarded(|| drop(std::mem::replace(&mut w.v, UnsizedVec::new()))) {
            std::mem::forget(w);
            return Err((ops.len(), with_tag("C04", &format!("dropping the vec panicked: {m}"), faulty)));
        }
        w.model = Vec::new();
        if let Err(m) = w.check() {
            std::mem::forget(w);
            return Err((ops.len(), with_tag("C04", &m, faulty)));
        }
    }
    elems::CLONED.with(|c| *c.borrow_mut() = Vec::new());
    if let Some(e) = track::error() {
        return Err((ops.len(), with_tag("C04", &tag_track(e), faulty)));
    }
    let live = track::LIVE.load(Relaxed);
    if live != live0 && !leak_ok {
        return Err((ops.len(), with_tag("C04 C07", &format!("{} heap allocations leaked", live as i64 - live0 as i64), faulty)));
    }
    Ok(())
}
