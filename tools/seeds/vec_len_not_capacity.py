PROPERTY = 'P11'
NEEDS = 'a vector of tracked values with spare capacity'
BREAKS = 'the memory of a vector of tracked values is counted by its length instead of its capacity'
EDITS = [('src/gc/traceable.rs', 'let base = self.capacity() * std::mem::size_of::<T>();', 'let base = self.len() * std::mem::size_of::<T>();')]
LIBS = []
DEMO = r'''mod gc {
    pub mod external_memory { pub struct ExternalMemoryGuard; impl ExternalMemoryGuard { pub fn new(_: i64) -> Self { Self } pub fn set(&mut self, _: i64) {} pub fn adjust(&mut self, _: i64) {} pub fn amount(&self) -> i64 { 0 } } }
    pub use external_memory::ExternalMemoryGuard;
    #[path = "@REPO@/src/gc/traceable.rs"]
    pub mod traceable;
}
use gc::traceable::GcTraceable;
fn main() {
    let _ = tokio::sync::mpsc::channel::<u8>(1);
    let mut v: Vec<String> = Vec::with_capacity(64);
    v.push(String::with_capacity(10));
    assert_eq!(v.external_memory_size(), 64 * std::mem::size_of::<String>() + 10);
}
'''
