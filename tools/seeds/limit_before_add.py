PROPERTY = 'P02'
NEEDS = 'an allocation that starts below the limit and ends above it'
BREAKS = 'the limit is compared with the usage before the allocation, so one allocation can overshoot it'
EDITS = [('src/security/array_buffer_allocator.rs', "    // Optimistically add n bytes to our running total (atomic, thread-safe)\n    allocator.count.fetch_add(n, Ordering::SeqCst);\n\n    // Read the new total to check against the limit\n    let count_loaded = allocator.count.load(Ordering::SeqCst);\n\n    // If we've exceeded the limit, reject the allocation\n    if count_loaded > allocator.max {", "    // Optimistically add n bytes to our running total (atomic, thread-safe)\n    let count_loaded = allocator.count.fetch_add(n, Ordering::SeqCst);\n\n    // If we've exceeded the limit, reject the allocation\n    if count_loaded > allocator.max || n > allocator.max {")]
LIBS = ['v8.rs']
DEMO = r'''#[path = "@REPO@/src/security/array_buffer_allocator.rs"]
mod aba;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let hit = Arc::new(AtomicBool::new(false));
    let a = aba::CustomAllocator::new(1000, hit.clone());
    let v = a.into_v8_allocator().0;
    assert!(!(v.alloc)(600).is_null());
    assert!(!hit.load(Ordering::SeqCst));
    let q = (v.alloc)(600);
    assert!(q.is_null(), "1200 bytes granted under a limit of 1000");
    assert!(hit.load(Ordering::SeqCst));
}
'''
