PROPERTY = 'P18'
NEEDS = 'two streams created at the same moment on different threads'
BREAKS = 'the id is read and advanced under two separate locks, so concurrent creations can get the same id'
EDITS = [('src/runtime/stream_manager.rs', '        let mut next_id = self.next_id.lock().unwrap();\n        let id = *next_id;\n        *next_id += 1;\n', '        let id = *self.next_id.lock().unwrap();\n        *self.next_id.lock().unwrap() = id + 1;\n')]
LIBS = []
DEMO = r'''#[path = "@REPO@/src/runtime/stream_manager.rs"]
mod sm;
use sm::*;
use std::collections::HashSet;
fn main() {
    let _ = tokio::sync::mpsc::channel::<u8>(1);
    for _ in 0..50 {
        let m = StreamManager::new();
        let hs: Vec<_> = (0..8).map(|_| { let m = m.clone(); std::thread::spawn(move || (0..400).map(|_| m.create_stream(String::new())).collect::<Vec<_>>()) }).collect();
        let mut seen = HashSet::new();
        for h in hs { for id in h.join().unwrap() { assert!(seen.insert(id), "id {id} issued twice"); } }
    }
}
'''
