PROPERTY = 'P04'
NEEDS = 'a limit that is not a whole number of seconds'
BREAKS = 'the watchdog waits for the limit rounded up to whole seconds, so a script overruns its wall-clock limit'
EDITS = [('src/security/timeout_guard.rs', 'let timeout = Duration::from_millis(timeout_ms);', 'let timeout = Duration::from_secs(timeout_ms.div_ceil(1000));')]
LIBS = ['v8.rs']
DEMO = r'''#[path = "@REPO@/src/security/timeout_guard.rs"]
mod tg;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
fn main() {
    let n = Arc::new(AtomicU64::new(0));
    let g = tg::TimeoutGuard::new(v8::IsolateHandle(n.clone()), 1100);
    std::thread::sleep(Duration::from_millis(1650));
    assert!(n.load(Ordering::SeqCst) == 1 && g.was_triggered(), "not terminated 550 ms after the limit");
    drop(g);
    let t = Instant::now();
    let g = tg::TimeoutGuard::new(v8::IsolateHandle(n.clone()), 60_000);
    drop(g);
    assert!(t.elapsed() < Duration::from_secs(20) && n.load(Ordering::SeqCst) == 1);
}
'''
