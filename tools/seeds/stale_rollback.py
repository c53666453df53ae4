PROPERTY = 'P01'
NEEDS = 'a refused allocation racing with a free on another thread'
BREAKS = 'a refused uninitialized allocation writes back a stale total, so a free that happens in between is lost and usage drifts'
EDITS = [('src/security/array_buffer_allocator.rs', '        allocator.memory_limit_hit.store(true, Ordering::SeqCst);\n        allocator.count.fetch_sub(n, Ordering::SeqCst);\n        return', '        allocator.memory_limit_hit.store(true, Ordering::SeqCst);\n        allocator.count.store(count_loaded - n, Ordering::SeqCst);\n        return')]
LIBS = ['v8.rs']
DEMO = r'''#[path = "@REPO@/src/security/array_buffer_allocator.rs"]
mod aba;
use std::sync::Arc;
use std::sync::atomic::AtomicBool;
struct P(*mut std::ffi::c_void);
unsafe impl Send for P {}
fn main() {
    let max = 1 << 20;
    let a = aba::CustomAllocator::new(max, Arc::new(AtomicBool::new(false)));
    let u = a.clone();
    let v8a = Arc::new(a.into_v8_allocator().0);
    for round in 0..40 {
        let small: Vec<P> = (0..400).map(|_| P((v8a.alloc)(16))).collect();
        let (x, y) = (v8a.clone(), v8a.clone());
        let t1 = std::thread::spawn(move || { for _ in 0..400 { assert!((x.alloc_uninit)(2 << 20).is_null()); } });
        let t2 = std::thread::spawn(move || { for p in small { (y.free)(p.0, 16); std::thread::yield_now(); } });
        t1.join().unwrap();
        t2.join().unwrap();
        if u.current_usage() != 0 {
            println!("round {round}: {} bytes still accounted with nothing allocated", u.current_usage());
            std::process::exit(1);
        }
    }
}
'''
