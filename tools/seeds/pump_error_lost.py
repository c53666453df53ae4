PROPERTY = 'P20'
NEEDS = "a body that fails while the stream's buffer is full"
BREAKS = 'the pump does not wait to pass an error on: if the buffer is full the error is lost and the truncated body ends as if complete'
EDITS = [('src/runtime/stream_manager.rs', '                        let _ = stream_manager\n                            .write_chunk(stream_id, StreamChunk::Error(e))\n                            .await;\n                        break;', '                        let _ = stream_manager.try_write_chunk(stream_id, StreamChunk::Error(e));\n                        break;')]
LIBS = []
DEMO = r'''#[path = "@REPO@/src/runtime/stream_manager.rs"]
mod sm;
use sm::*;
use bytes::Bytes;
use std::sync::Arc;
fn main() {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let m = Arc::new(StreamManager::with_high_water_mark(1));
        let (tx, rx) = tokio::sync::mpsc::channel(8);
        let id = m.pump_request_body(rx);
        tx.send(Ok(Bytes::from("a"))).await.unwrap();
        tx.send(Err("reset by peer".to_string())).await.unwrap();
        drop(tx);
        for _ in 0..50 { tokio::task::yield_now().await; }
        assert!(matches!(m.read_chunk(id).await, Ok(StreamChunk::Data(_))));
        let r = tokio::time::timeout(std::time::Duration::from_secs(5), m.read_chunk(id)).await.unwrap();
        assert!(matches!(r, Ok(StreamChunk::Error(_))), "a failed body ends with {r:?}");
    });
}
'''
