// stand-in for the V8 bindings: records what it is asked to do
#![allow(dead_code)]
use std::ffi::c_void;
use std::marker::PhantomData;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
pub struct Isolate { pub external: i64 }
impl Isolate {
    pub fn adjust_amount_of_external_allocated_memory(&mut self, d: i64) -> i64 { self.external += d; self.external }
}
#[derive(Clone)]
pub struct IsolateHandle(pub Arc<AtomicU64>);
impl IsolateHandle {
    pub fn terminate_execution(&self) -> bool { self.0.fetch_add(1, Ordering::SeqCst); true }
    pub fn cancel_terminate_execution(&self) -> bool { true }
    pub fn is_execution_terminating(&self) -> bool { self.0.load(Ordering::SeqCst) > 0 }
}
pub struct Global<T>(pub Arc<AtomicU64>, pub PhantomData<T>);
impl<T> Drop for Global<T> { fn drop(&mut self) { self.0.fetch_add(1, Ordering::SeqCst); } }
pub struct Allocator { pub alloc: Box<dyn Fn(usize) -> *mut c_void + Send + Sync>, pub alloc_uninit: Box<dyn Fn(usize) -> *mut c_void + Send + Sync>, pub free: Box<dyn Fn(*mut c_void, usize) + Send + Sync> }
pub struct UniqueRef<T>(pub T);
pub struct RustAllocatorVtable<T> {
    pub allocate: unsafe extern "C" fn(handle: &T, len: usize) -> *mut c_void,
    pub allocate_uninitialized: unsafe extern "C" fn(handle: &T, len: usize) -> *mut c_void,
    pub free: unsafe extern "C" fn(handle: &T, data: *mut c_void, len: usize),
    pub drop: unsafe extern "C" fn(handle: *const T),
}
/// # Safety
/// as in the real bindings
pub unsafe fn new_rust_allocator<T: Sized + Send + Sync + 'static>(handle: *const T, vtable: &'static RustAllocatorVtable<T>) -> UniqueRef<Allocator> {
    let h: &'static T = unsafe { &*handle };
    UniqueRef(Allocator {
        alloc: Box::new(move |n| unsafe { (vtable.allocate)(h, n) }),
        alloc_uninit: Box::new(move |n| unsafe { (vtable.allocate_uninitialized)(h, n) }),
        free: Box::new(move |p, n| unsafe { (vtable.free)(h, p, n) }),
    })
}
