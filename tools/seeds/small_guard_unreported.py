PROPERTY = 'P08'
NEEDS = 'a guard for a small buffer'
BREAKS = 'guards for small amounts are not reported when created but still taken back when dropped, so usage drifts below the truth'
EDITS = [('src/gc/external_memory.rs', '            if amount != 0 {\n                lock.adjust_external_memory(amount);\n            }\n', '            if amount >= 64 {\n                lock.adjust_external_memory(amount);\n            }\n')]
LIBS = ['v8.rs', 'tracing.rs']
DEMO = r'''mod gc {
    #[path = "@REPO@/src/gc/js_lock.rs"]
    pub mod js_lock;
    #[path = "@REPO@/src/gc/external_memory.rs"]
    pub mod external_memory;
}
use gc::external_memory::ExternalMemoryGuard;
use gc::js_lock::JsLock;
use std::sync::Arc;
use std::sync::atomic::AtomicI64;
fn main() {
    let mut iso = v8::Isolate { external: 0 };
    let pend = Arc::new(AtomicI64::new(0));
    let p: *mut v8::Isolate = &mut iso;
    let lock = JsLock::new(unsafe { &mut *p }, &pend);
    let g: Vec<_> = [8, 63, 64, 4096].into_iter().map(ExternalMemoryGuard::new).collect();
    assert_eq!(unsafe { (*p).external }, 8 + 63 + 64 + 4096, "reported");
    drop(g);
    assert_eq!(unsafe { (*p).external }, 0, "after all guards are gone");
    drop(lock);
}
'''
