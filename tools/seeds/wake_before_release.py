PROPERTY = 'P12'
NEEDS = 'a waiter that runs as soon as it is woken, before the releasing call goes on'
BREAKS = 'the next waiter is woken while the turn is still taken, so it can be refused, queue itself again and never be woken'
EDITS = [('src/async_waiter.rs', '        self.locked.store(false, Ordering::Release);\n\n        // The queue is unlocked', '        // The queue is unlocked'), ('src/async_waiter.rs', '            waker.wake();\n        }\n    }\n', '            waker.wake();\n        }\n\n        self.locked.store(false, Ordering::Release);\n    }\n')]
LIBS = []
DEMO = r'''#[path = "@REPO@/src/async_waiter.rs"]
mod aw;
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};
struct W { w: Arc<aw::AsyncWaiter>, got: Arc<Mutex<Option<bool>>> }
impl Wake for W {
    fn wake(self: Arc<Self>) {
        // another thread polls the waiter right away
        let me = self.clone();
        std::thread::spawn(move || {
            let k: Waker = me.clone().into();
            *me.got.lock().unwrap() = Some(me.w.try_lock(&mut Context::from_waker(&k)));
        });
        for _ in 0..200 {
            if self.got.lock().unwrap().is_some() { break; }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
}
fn main() {
    let w = Arc::new(aw::AsyncWaiter::new());
    let got = Arc::new(Mutex::new(None));
    let k: Waker = Arc::new(W { w: w.clone(), got: got.clone() }).into();
    let mut cx = Context::from_waker(&k);
    assert!(w.try_lock(&mut Context::from_waker(Waker::noop())));
    assert!(!w.try_lock(&mut cx));
    w.unlock();
    assert_eq!(*got.lock().unwrap(), Some(true), "the woken waiter was refused its turn");
}
'''
