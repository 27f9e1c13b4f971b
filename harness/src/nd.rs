//! Nondeterministic inputs shared by the solver run and the native replay.
//!
//! Under Kani every `any()` is a fresh symbolic value; natively it pops the next value of the
//! solver's counterexample (the concrete-playback order: one little-endian byte vector per
//! primitive). `assume` constrains the solver and makes a native replay that violates it exit 77
//! ("not reproduced"). `reach!` is the reachability witness: the runner demands that every one of
//! them is satisfiable, so that a harness cannot pass vacuously.
#![allow(dead_code)]

#[cfg(not(kani))]
pub mod native {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { pub static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) }; }
    pub fn pop(n: usize) -> Vec<u8> {
        VALS.with(|v| {
            let x = v.borrow_mut().pop_front().unwrap_or_else(|| vec![0; n]);
            if x.len() != n {
                eprintln!("REPLAY-MISMATCH: wanted {n} bytes, got {}", x.len());
                std::process::exit(78);
            }
            x
        })
    }
}

pub trait Nd: Sized {
    fn nd() -> Self;
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Nd for $t {
            #[cfg(kani)]
            #[inline(always)]
            fn nd() -> Self { kani::any() }
            #[cfg(not(kani))]
            fn nd() -> Self {
                let v = native::pop(core::mem::size_of::<$t>());
                <$t>::from_le_bytes(v.as_slice().try_into().unwrap())
            }
        }
    )*};
}
prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
impl Nd for bool {
    #[cfg(kani)]
    #[inline(always)]
    fn nd() -> Self {
        kani::any()
    }
    #[cfg(not(kani))]
    fn nd() -> Self {
        native::pop(1)[0] & 1 == 1
    }
}
impl<const N: usize> Nd for [u8; N] {
    #[cfg(kani)]
    #[inline(always)]
    fn nd() -> Self {
        kani::any()
    }
    #[cfg(not(kani))]
    fn nd() -> Self {
        core::array::from_fn(|_| native::pop(1)[0])
    }
}

#[inline(always)]
pub fn any<T: Nd>() -> T {
    T::nd()
}

#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        eprintln!("REPLAY-ASSUME: the recorded values violate an assumption of the harness");
        std::process::exit(77);
    }
}

/// A symbolic value below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let v: u8 = any();
    assume((v as usize) < n);
    v as usize
}
#[inline(always)]
pub fn upto_u16(n: u16) -> u16 {
    let v: u16 = any();
    assume(v <= n);
    v
}
#[inline(always)]
pub fn upto_u32(n: u32) -> u32 {
    let v: u32 = any();
    assume(v <= n);
    v
}
#[inline(always)]
pub fn upto_u64(n: u64) -> u64 {
    let v: u64 = any();
    assume(v <= n);
    v
}

/// An arbitrary `Duration` of at most `ms` milliseconds, with nanosecond resolution.
#[inline(always)]
pub fn dur_upto_ms(ms: u64) -> core::time::Duration {
    // seconds and nanoseconds are drawn separately: no 64-bit division in the formula
    let s: u32 = any();
    let n: u32 = any();
    assume(n < 1_000_000_000);
    let d = core::time::Duration::new(s as u64, n);
    assume(d <= core::time::Duration::from_millis(ms));
    d
}

#[macro_export]
macro_rules! reach {
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, "VERIF-REACH");
        #[cfg(not(kani))]
        let _ = $c;
    };
}

/// Largest single reservation the code under check may make from now on, in bytes (natively the
/// allocator of the replay program enforces it).
#[cfg(kani)]
static mut LIMIT: usize = usize::MAX;
#[cfg(not(kani))]
pub static LIMIT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(usize::MAX);
pub fn alloc_limit(n: usize) {
    #[cfg(kani)]
    unsafe { LIMIT = n }
    #[cfg(not(kani))]
    LIMIT.store(n, core::sync::atomic::Ordering::Relaxed);
}

/// Stand-ins for `VecDeque` growth: a deque starts with room for `DEQ` elements and an attempt to
/// grow beyond that is reported as out of bounds (the solver would otherwise have to model
/// reallocations of symbolic size).
#[cfg(kani)]
pub mod stubs {
    extern crate alloc;
    use alloc::collections::VecDeque;
    const fn parse(s: Option<&str>) -> usize {
        match s {
            None => 4,
            Some(s) => {
                let b = s.as_bytes();
                let mut i = 0;
                let mut n = 0usize;
                while i < b.len() {
                    n = n * 10 + (b[i] - b'0') as usize;
                    i += 1;
                }
                n
            }
        }
    }
    pub const DEQ: usize = parse(option_env!("VERIF_DEQ_CAP"));
    /// Room of a `Vec` (elements of more than one byte / of one byte).
    const VEC: usize = parse(option_env!("VERIF_VEC_CAP"));
    const VECB: usize = parse(option_env!("VERIF_VECB_CAP"));
    use alloc::vec::Vec;
    const fn room<T>() -> usize {
        if core::mem::size_of::<T>() <= 1 { VECB } else { VEC }
    }
    // every allocation has the same constant size; a real capacity overflow still panics
    pub fn fits<T>(n: usize) {
        if core::mem::size_of::<T>() != 0 && n > isize::MAX as usize / core::mem::size_of::<T>() {
            panic!("capacity overflow");
        }
        if core::mem::size_of::<T>() != 0 {
            assert!(n <= unsafe { super::LIMIT } / core::mem::size_of::<T>(), "more memory is reserved than the input justifies");
        }
        assert!(n <= room::<T>(), "VERIF-BOUND: Vec capacity");
    }
    fn fresh<T>() -> Vec<T> {
        let l = core::alloc::Layout::new::<[T; 1]>();
        let l = unsafe { core::alloc::Layout::from_size_align_unchecked(l.size() * room::<T>(), l.align()) };
        if l.size() == 0 {
            return unsafe { Vec::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), 0, 0) };
        }
        unsafe { Vec::from_raw_parts(alloc::alloc::alloc(l) as *mut T, 0, room::<T>()) }
    }
    pub fn vec_with_capacity<T>(n: usize) -> Vec<T> {
        fits::<T>(n);
        fresh()
    }
    // allocated at once: a `Vec` that allocates on its first push could be one of many objects
    // by the time it is read
    pub fn vec_new<T>() -> Vec<T> {
        fresh()
    }
    pub fn vec_reserve<T, A: core::alloc::Allocator>(v: &mut Vec<T, A>, n: usize) {
        if v.capacity() - v.len() >= n {
            return;
        }
        let Some(n) = v.len().checked_add(n) else { panic!("capacity overflow") };
        fits::<T>(n);
        assert!(v.capacity() == 0, "VERIF-BOUND: Vec growth");
        // every `Vec` of the code under check uses the global allocator
        assert!(core::mem::size_of::<A>() == 0, "VERIF-BOUND: allocator");
        unsafe { core::ptr::write(v as *mut Vec<T, A> as *mut Vec<T>, fresh()) }
    }
    pub fn vec_push<T, A: core::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
        vec_reserve(v, 1);
        let n = v.len();
        unsafe {
            v.as_mut_ptr().add(n).write(x);
            v.set_len(n + 1);
        }
    }
    pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
        fits::<T>(n);
        let mut v = fresh::<T>();
        if core::mem::size_of::<T>() == 1 {
            // one-byte types: the same byte everywhere
            let b: u8 = unsafe { core::mem::transmute_copy(&x) };
            unsafe { core::ptr::write_bytes(v.as_mut_ptr() as *mut u8, b, room::<T>()) };
        } else {
            let mut i = 0;
            while i < room::<T>() {
                if i < n {
                    unsafe { v.as_mut_ptr().add(i).write(x.clone()) };
                }
                i += 1;
            }
        }
        unsafe { v.set_len(n) };
        v
    }
    /// `BinaryHeap`: the greatest element first, the others in no particular order.
    fn heap_vec<T, A: core::alloc::Allocator>(h: &mut alloc::collections::BinaryHeap<T, A>) -> &mut Vec<T, A> {
        // a `BinaryHeap` is its vector
        unsafe { &mut *(h as *mut alloc::collections::BinaryHeap<T, A> as *mut Vec<T, A>) }
    }
    pub fn heap_push<T: Ord, A: core::alloc::Allocator>(h: &mut alloc::collections::BinaryHeap<T, A>, x: T) {
        let v = heap_vec(h);
        let n = v.len();
        v.push(x);
        if n != 0 && v[n] > v[0] {
            v.swap(0, n);
        }
    }
    pub fn heap_pop<T: Ord, A: core::alloc::Allocator>(h: &mut alloc::collections::BinaryHeap<T, A>) -> Option<T> {
        let v = heap_vec(h);
        let n = v.len();
        if n == 0 {
            return None;
        }
        unsafe {
            let p = v.as_mut_ptr();
            let r = p.read();
            if n > 1 {
                let mut best = 1;
                let mut i = 2;
                while i < room::<T>() {
                    if i < n && (*p.add(i)).gt(&*p.add(best)) {
                        best = i;
                    }
                    i += 1;
                }
                core::ptr::copy_nonoverlapping(p.add(best), p, 1);
                if best != n - 1 {
                    core::ptr::copy_nonoverlapping(p.add(n - 1), p.add(best), 1);
                }
            }
            v.set_len(n - 1);
            Some(r)
        }
    }
    pub fn deque_new<T>() -> VecDeque<T> {
        VecDeque::with_capacity(DEQ)
    }
    pub fn deque_grow<T, A: core::alloc::Allocator>(_: &mut VecDeque<T, A>) {
        assert!(false, "VERIF-BOUND: VecDeque capacity");
        loop {}
    }
}

/// The harnesses of one module: a Kani proof each, and a native table for the replay.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* [$u:literal] fn $name:ident() $body:block )*) => {
        $( $(#[$m])* #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($u))]
            #[cfg_attr(kani, kani::stub(alloc::collections::VecDeque::new, $crate::mods::nd::stubs::deque_new))]
            #[cfg_attr(kani, kani::stub(alloc::collections::VecDeque::grow, $crate::mods::nd::stubs::deque_grow))]
            #[cfg_attr(kani, kani::stub(alloc::vec::Vec::new, $crate::mods::nd::stubs::vec_new))]
            #[cfg_attr(kani, kani::stub(alloc::vec::Vec::with_capacity, $crate::mods::nd::stubs::vec_with_capacity))]
            #[cfg_attr(kani, kani::stub(alloc::vec::Vec::reserve, $crate::mods::nd::stubs::vec_reserve))]
            #[cfg_attr(kani, kani::stub(alloc::vec::Vec::push, $crate::mods::nd::stubs::vec_push))]
            #[cfg_attr(kani, kani::stub(alloc::vec::from_elem, $crate::mods::nd::stubs::vec_from_elem))]
            #[cfg_attr(kani, kani::stub(alloc::collections::BinaryHeap::push, $crate::mods::nd::stubs::heap_push))]
            #[cfg_attr(kani, kani::stub(alloc::collections::BinaryHeap::pop, $crate::mods::nd::stubs::heap_pop))]
            pub fn $name() $body )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
