PROPERTY = 'P19'
NEEDS = 'closing a stream whose reader had gone away before'
BREAKS = 'closing a stream whose sender was already removed (client disconnected) leaves its other records behind'
EDITS = [('src/runtime/stream_manager.rs', '        self.senders.lock().unwrap().remove(&stream_id);\n        self.receivers.lock().unwrap().remove(&stream_id);\n        self.metadata', '        if self.senders.lock().unwrap().remove(&stream_id).is_none() {\n            // Already closed\n            return;\n        }\n\n        self.receivers.lock().unwrap().remove(&stream_id);\n        self.metadata')]
LIBS = []
DEMO = r'''#[path = "@REPO@/src/runtime/stream_manager.rs"]
mod sm;
use sm::*;
fn main() {
    let m = StreamManager::new();
    let id = m.create_stream("u".into());
    drop(m.take_receiver(id).unwrap());
    assert!(m.try_write_chunk(id, StreamChunk::Done).is_err());
    assert!(!m.has_sender(id));
    m.close_stream(id);
    assert_eq!(m.get_stream_info(id), None, "a closed stream is still described");
    let _ = tokio::sync::mpsc::channel::<u8>(1);
}
'''
