//! Type-level stand-in for the `openworkers-core` v0.14.0 crate, which cannot be fetched here.
//!
//! It exists only so that rustc can type-check /repo's sources and emit MIR for the static
//! analyses; nothing in it is ever executed. Shapes are read off their uses in /repo
//! (src, tests, examples). Bodies are `unimplemented!()` where behaviour does not matter.
#![allow(dead_code)]
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use tokio::sync::{mpsc, oneshot};

pub type WebSocketId = u64;
pub type ResponseSender = oneshot::Sender<HttpResponse>;
pub type OpFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub type OperationsHandle = Arc<dyn OperationsHandler>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum HttpMethod { Get, Post, Put, Delete, Patch, Head, Options }
impl HttpMethod {
    pub fn as_str(&self) -> &'static str { unimplemented!() }
}
impl std::fmt::Display for HttpMethod {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl std::str::FromStr for HttpMethod {
    type Err = ();
    fn from_str(_: &str) -> Result<Self, ()> { unimplemented!() }
}

#[derive(Debug, Default)]
pub enum RequestBody { #[default] None, Bytes(bytes::Bytes), Stream(mpsc::Receiver<Result<bytes::Bytes, String>>) }
impl RequestBody {
    pub fn is_none(&self) -> bool { unimplemented!() }
    pub fn is_stream(&self) -> bool { unimplemented!() }
    pub fn as_bytes(&self) -> Option<&bytes::Bytes> { unimplemented!() }
}
#[derive(Debug, Default)]
pub enum ResponseBody { #[default] None, Bytes(bytes::Bytes), Stream(mpsc::Receiver<Result<bytes::Bytes, String>>) }
impl ResponseBody {
    pub fn is_none(&self) -> bool { unimplemented!() }
    pub fn is_stream(&self) -> bool { unimplemented!() }
    pub async fn collect(self) -> Option<bytes::Bytes> { unimplemented!() }
}
#[derive(Debug)]
pub struct HttpRequest { pub method: HttpMethod, pub url: String, pub headers: HashMap<String, String>, pub body: RequestBody }
#[derive(Debug)]
pub struct HttpResponse { pub status: u16, pub headers: Vec<(String, String)>, pub body: ResponseBody }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct HttpResponseMeta { pub status: u16, pub status_text: String, pub headers: HashMap<String, String> }

#[derive(Debug)]
pub struct FetchInit { pub req: HttpRequest, pub res_tx: ResponseSender }
impl FetchInit { pub fn new(req: HttpRequest, res_tx: ResponseSender) -> Self { Self { req, res_tx } } }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum TaskSource { Schedule { time: u64 }, Invoke { origin: Option<String> }, Worker { origin: Option<String> } }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TaskResult { pub success: bool, pub data: Option<serde_json::Value>, pub error: Option<String> }
impl TaskResult {
    pub fn success() -> Self { unimplemented!() }
    pub fn success_with_data(_: serde_json::Value) -> Self { unimplemented!() }
    pub fn error(_: impl Into<String>) -> Self { unimplemented!() }
}
#[derive(Debug)]
pub struct TaskInit {
    pub task_id: String,
    pub payload: Option<serde_json::Value>,
    pub source: Option<TaskSource>,
    pub attempt: u32,
    pub res_tx: oneshot::Sender<TaskResult>,
}
#[derive(Debug)]
pub enum Event { Fetch(Option<FetchInit>), Task(Option<TaskInit>) }
impl Event {
    pub fn fetch(_: HttpRequest) -> (Self, oneshot::Receiver<HttpResponse>) { unimplemented!() }
    pub fn event_type(&self) -> EventType { unimplemented!() }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum EventType { Fetch, Task }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum LogLevel { Error, Warn, Info, Log, Debug, Trace }
impl LogLevel { pub fn as_str(&self) -> &'static str { unimplemented!() } }
impl std::fmt::Display for LogLevel {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
#[derive(Debug, Clone)]
pub struct LogEvent { pub level: LogLevel, pub message: String }

#[derive(Debug, Clone, PartialEq)]
pub enum TerminationReason {
    Success, CpuTimeLimit, WallClockTimeout, MemoryLimit, Exception(String), MaxIterationsReached,
    InitializationError(String), Terminated, Aborted, Other(String),
}
impl std::fmt::Display for TerminationReason {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl std::error::Error for TerminationReason {}

#[derive(Debug, Clone)]
pub struct RuntimeLimits {
    pub heap_initial_mb: usize,
    pub heap_max_mb: usize,
    pub max_cpu_time_ms: u64,
    pub max_wall_clock_time_ms: u64,
    pub stream_buffer_size: usize,
}
impl Default for RuntimeLimits { fn default() -> Self { unimplemented!() } }

#[derive(Debug, Clone)]
pub enum WorkerCode { JavaScript(String), Snapshot(Vec<u8>), Wasm(Vec<u8>) }
impl WorkerCode {
    pub fn snapshot(_: Vec<u8>) -> Self { unimplemented!() }
    pub fn js(_: impl Into<String>) -> Self { unimplemented!() }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BindingType { Assets, Storage, Kv, Database, Worker }
#[derive(Debug, Clone)]
pub struct BindingInfo { pub name: String, pub binding_type: BindingType }
#[derive(Debug, Clone)]
pub struct Script { pub code: WorkerCode, pub env: Option<HashMap<String, String>>, pub bindings: Vec<BindingInfo> }
impl Script {
    pub fn new(_: impl Into<String>) -> Self { unimplemented!() }
    pub fn with_env(_: impl Into<String>, _: HashMap<String, String>) -> Self { unimplemented!() }
}

#[derive(Debug, Clone)]
pub enum StorageOp {
    Get { key: String }, Put { key: String, body: Vec<u8> }, Head { key: String },
    List { prefix: Option<String>, limit: Option<u32> }, Delete { key: String }, Fetch { key: String },
}
#[derive(Debug)]
pub enum StorageResult {
    Body(Option<Vec<u8>>), Head { size: u64, etag: Option<String> },
    List { keys: Vec<String>, truncated: bool }, Response(HttpResponse), Error(String),
}
#[derive(Debug, Clone)]
pub enum KvOp {
    Get { key: String }, Put { key: String, value: serde_json::Value, expires_in: Option<u64> },
    Delete { key: String }, List { prefix: Option<String>, limit: Option<u32> },
}
#[derive(Debug, Clone)]
pub enum KvResult { Value(Option<serde_json::Value>), Keys(Vec<String>), Ok, Error(String) }
#[derive(Debug, Clone)]
pub enum DatabaseOp { Query { sql: String, params: Vec<SqlParam> } }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SqlPrimitive { Null, Bool(bool), Int(i64), Float(f64), String(String) }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SqlParam { Primitive(SqlPrimitive), Array(Vec<SqlPrimitive>) }
#[derive(Debug, Clone)]
pub enum DatabaseResult { Rows(String), Error(String) }

#[derive(Debug)]
pub enum WebSocketOutgoing { Text(String), Binary(Vec<u8>), Close { code: u16, reason: String } }
#[derive(Debug)]
pub enum WebSocketIncoming { Text(String), Binary(Vec<u8>), Closed { code: u16, reason: String }, Error(String) }
#[derive(Debug)]
pub struct WebSocketConnection {
    pub send_tx: mpsc::UnboundedSender<WebSocketOutgoing>,
    pub recv_rx: mpsc::UnboundedReceiver<WebSocketIncoming>,
}
#[derive(Debug)]
pub enum Operation {
    Fetch(HttpRequest),
    BindingFetch { binding: String, request: HttpRequest },
    BindingStorage { binding: String, op: StorageOp },
    BindingKv { binding: String, op: KvOp },
    BindingDatabase { binding: String, op: DatabaseOp },
    BindingWorker { binding: String, request: HttpRequest },
    WebSocketConnect { url: String, headers: HashMap<String, String> },
    Log { level: LogLevel, message: String },
}
#[derive(Debug)]
pub enum OperationResult {
    Http(Result<HttpResponse, String>),
    Storage(StorageResult),
    Kv(KvResult),
    Database(DatabaseResult),
    WebSocket(Result<WebSocketConnection, String>),
    Ack,
}
pub trait OperationsHandler: Send + Sync {
    fn handle_fetch(&self, _: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> { unimplemented!() }
    fn handle_binding_fetch(&self, _: &str, _: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> { unimplemented!() }
    fn handle_binding_storage(&self, _: &str, _: StorageOp) -> OpFuture<'_, StorageResult> { unimplemented!() }
    fn handle_binding_kv(&self, _: &str, _: KvOp) -> OpFuture<'_, KvResult> { unimplemented!() }
    fn handle_binding_database(&self, _: &str, _: DatabaseOp) -> OpFuture<'_, DatabaseResult> { unimplemented!() }
    fn handle_binding_worker(&self, _: &str, _: HttpRequest) -> OpFuture<'_, Result<HttpResponse, String>> { unimplemented!() }
    fn handle_log(&self, _: LogLevel, _: String) {}
    fn handle(&self, _: Operation) -> OpFuture<'_, OperationResult> { unimplemented!() }
}
#[derive(Debug, Default, Clone, Copy)]
pub struct DefaultOps;
impl OperationsHandler for DefaultOps {}

#[allow(async_fn_in_trait)]
pub trait Worker: Sized {
    async fn new(script: Script, limits: Option<RuntimeLimits>) -> Result<Self, TerminationReason>;
    async fn exec(&mut self, task: Event) -> Result<(), TerminationReason>;
    fn abort(&mut self);
}
