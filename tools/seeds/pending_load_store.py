PROPERTY = 'P09'
NEEDS = 'a guard dropped on another thread at the moment the isolate is locked'
BREAKS = 'the deferred total is read and then zeroed in two steps, so a change arriving in between is lost'
EDITS = [('src/gc/js_lock.rs', '        let pending = pending_delta.swap(0, Ordering::SeqCst);\n', '        let pending = pending_delta.load(Ordering::SeqCst);\n'), ('src/gc/js_lock.rs', '            isolate.adjust_amount_of_external_allocated_memory(pending);\n            tracing::trace!(\n                "Applied', '            isolate.adjust_amount_of_external_allocated_memory(pending);\n            pending_delta.store(0, Ordering::SeqCst);\n            tracing::trace!(\n                "Applied')]
LIBS = ['v8.rs', 'tracing.rs']
DEMO = r'''mod gc {
    #[path = "@REPO@/src/gc/js_lock.rs"]
    pub mod js_lock;
}
use gc::js_lock::JsLock;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
fn main() {
    let mut iso = v8::Isolate { external: 0 };
    let pend = Arc::new(AtomicI64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let ts: Vec<_> = (0..3).map(|_| { let p = pend.clone(); std::thread::spawn(move || { for _ in 0..300_000 { p.fetch_add(1, Ordering::SeqCst); } }) }).collect();
    let mut done = false;
    while !done {
        done = ts.iter().all(|t| t.is_finished());
        drop(JsLock::new(&mut iso, &pend));
    }
    for t in ts { t.join().unwrap(); }
    drop(JsLock::new(&mut iso, &pend));
    assert_eq!(iso.external, 900_000, "deferred changes lost");
    let _ = stop;
}
'''
