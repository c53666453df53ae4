PROPERTY = 'P10'
NEEDS = 'more than a thousand handles dropped between two lock acquisitions'
BREAKS = 'once the queue is long, further handles are destroyed at once, on a thread that does not hold the isolate lock'
EDITS = [('src/gc/deferred_destruction.rs', '        let deferred = DeferredHandle::new(handle);\n', '        // Bound the backlog\n        if self.len() >= 1024 {\n            return;\n        }\n\n        let deferred = DeferredHandle::new(handle);\n')]
LIBS = ['v8.rs', 'tracing.rs']
DEMO = r'''#[path = "@REPO@/src/gc/deferred_destruction.rs"]
mod dd;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
fn main() {
    let q = dd::DeferredDestructionQueue::new();
    let n = Arc::new(AtomicU64::new(0));
    for _ in 0..5000 { q.defer(v8::Global::<u8>(n.clone(), std::marker::PhantomData)); }
    assert_eq!(n.load(Ordering::SeqCst), 0, "handles destroyed without the lock");
    q.process_all();
    assert_eq!(n.load(Ordering::SeqCst), 5000);
    assert!(q.is_empty());
}
'''
