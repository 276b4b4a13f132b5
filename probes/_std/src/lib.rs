//! The standard library with its threads replaced by a model that runs the workers of a scope one after
//! another, in the order the obligation chooses.  Everything else is the standard library itself.
#![allow(static_mut_refs)]
pub use ::std::*;
#[macro_export]
macro_rules! println { ($($t:tt)*) => {{}} }
pub mod thread {
    pub use ::std::thread::available_parallelism;
    use ::std::cell::{Cell, RefCell};
    use ::std::marker::PhantomData;
    use ::std::boxed::Box;
    /// false: every worker runs when it is started; true: all run together, last started first
    pub static mut LAST_FIRST: bool = false;
    const MAX: usize = 8;
    pub struct Scope<'scope, 'env: 'scope> { pending: [Cell<Option<Box<dyn FnOnce() + 'scope>>>; MAX], n: Cell<usize>, _e: PhantomData<&'env ()> }
    pub struct ScopedJoinHandle<'scope, T> { scope: *const (), run: unsafe fn(*const ()), slot: *mut Option<T>, _s: PhantomData<&'scope ()> }
    unsafe fn finish(s: *const ()) {
        let s = &*(s as *const Scope<'_, '_>);
        let mut i = s.n.get();
        while i > 0 { i -= 1; if let Some(f) = s.pending[i].take() { f() } }
    }
    impl<'scope, 'env> Scope<'scope, 'env> {
        #[inline(always)]
        pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
            let slot: *mut Option<T> = Box::into_raw(Box::new(None));
            if unsafe { LAST_FIRST } {
                let i = self.n.get();
                self.n.set(i + 1);
                self.pending[i].set(Some(Box::new(move || unsafe { *slot = Some(f()); })));
            } else {
                unsafe { *slot = Some(f()); }
            }
            ScopedJoinHandle { scope: self as *const _ as *const (), run: finish, slot, _s: PhantomData }
        }
    }
    impl<'scope, T> ScopedJoinHandle<'scope, T> {
        #[inline(always)]
        pub fn join(self) -> Result<T, Box<dyn ::std::any::Any + Send + 'static>> {
            unsafe { (self.run)(self.scope); match (*self.slot).take() { Some(v) => Ok(v), None => ::std::hint::unreachable_unchecked() } }
        }
    }
    #[inline(always)]
    pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
        let s = Scope { pending: [const { Cell::new(None) }; MAX], n: Cell::new(0), _e: PhantomData };
        let r = f(unsafe { &*(&s as *const _) });
        unsafe { finish(&s as *const _ as *const ()) };
        r
    }
}
pub mod sync {
    pub use ::std::sync::*;
    pub use super::cells::{Mutex, MutexGuard, LockResult};
    pub mod mpsc { pub use super::super::cells::{channel, Receiver, Sender, RecvError, SendError}; }
    pub mod atomic {
        pub use ::std::sync::atomic::Ordering;
        pub use super::super::cells::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize};
    }
}
/// shared cells: between two steps of the model only one worker runs, so a lock is never contended
mod cells {
    use ::std::cell::UnsafeCell;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::Ordering;
    use ::std::vec::Vec;
    pub type LockResult<T> = Result<T, Poison>;
    #[derive(Debug)] pub struct Poison;
    #[derive(Default)] pub struct Mutex<T: ?Sized>(UnsafeCell<T>);
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a mut T);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self { Mutex(UnsafeCell::new(t)) }
        #[inline(always)] pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { Ok(MutexGuard(unsafe { &mut *self.0.get() })) }
        #[inline(always)] pub fn into_inner(self) -> LockResult<T> { Ok(self.0.into_inner()) }
        #[inline(always)] pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.0.get_mut()) }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; #[inline(always)] fn deref(&self) -> &T { self.0 } }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { #[inline(always)] fn deref_mut(&mut self) -> &mut T { self.0 } }
    struct Queue<T>(UnsafeCell<Vec<T>>);
    pub struct Sender<T>(*const Queue<T>);
    pub struct Receiver<T>(*const Queue<T>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    impl<T> Clone for Sender<T> { #[inline(always)] fn clone(&self) -> Self { Sender(self.0) } }
    #[derive(Debug)] pub struct SendError<T>(pub T);
    #[derive(Debug)] pub struct RecvError;
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let q = ::std::boxed::Box::into_raw(::std::boxed::Box::new(Queue(UnsafeCell::new(Vec::new())))); (Sender(q), Receiver(q)) }
    impl<T> Sender<T> { #[inline(always)] pub fn send(&self, t: T) -> Result<(), SendError<T>> { unsafe { (*(*self.0).0.get()).push(t) } Ok(()) } }
    impl<T> Receiver<T> {
        #[inline(always)] pub fn recv(&self) -> Result<T, RecvError> { unsafe { let q = &mut *(*self.0).0.get(); if q.is_empty() { Err(RecvError) } else { Ok(q.remove(0)) } } }
        #[inline(always)] pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
        #[inline(always)] pub fn try_recv(&self) -> Result<T, RecvError> { self.recv() }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> { type Item = T; #[inline(always)] fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> { type Item = T; #[inline(always)] fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; #[inline(always)] fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; #[inline(always)] fn into_iter(self) -> Iter<'a, T> { Iter(self) } }
    macro_rules! atomic { ($n:ident, $t:ty) => {
        #[derive(Default)] pub struct $n(UnsafeCell<$t>);
        unsafe impl Sync for $n {}
        impl $n {
            pub const fn new(t: $t) -> Self { $n(UnsafeCell::new(t)) }
            #[inline(always)] pub fn load(&self, _: Ordering) -> $t { unsafe { *self.0.get() } }
            #[inline(always)] pub fn store(&self, t: $t, _: Ordering) { unsafe { *self.0.get() = t } }
            #[inline(always)] pub fn swap(&self, t: $t, _: Ordering) -> $t { unsafe { let o = *self.0.get(); *self.0.get() = t; o } }
            #[inline(always)] pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { let o = self.load(Ordering::Relaxed); if o == a { self.store(b, Ordering::Relaxed); Ok(o) } else { Err(o) } }
            #[inline(always)] pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, x, y) }
        }
    } }
    macro_rules! counter { ($n:ident, $t:ty) => { impl $n {
        #[inline(always)] pub fn fetch_add(&self, t: $t, _: Ordering) -> $t { unsafe { let o = *self.0.get(); *self.0.get() = o.wrapping_add(t); o } }
        #[inline(always)] pub fn fetch_sub(&self, t: $t, _: Ordering) -> $t { unsafe { let o = *self.0.get(); *self.0.get() = o.wrapping_sub(t); o } }
        #[inline(always)] pub fn fetch_max(&self, t: $t, _: Ordering) -> $t { unsafe { let o = *self.0.get(); if t > o { *self.0.get() = t; } o } }
    } } }
    atomic!(AtomicBool, bool); atomic!(AtomicU32, u32); atomic!(AtomicU64, u64); atomic!(AtomicUsize, usize);
    counter!(AtomicU32, u32); counter!(AtomicU64, u64); counter!(AtomicUsize, usize);
}
