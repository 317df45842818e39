//! Stand-in for `lsp-server` 0.6: same message types; the stdio transport is a pair of channels the
//! harness holds the other end of.
use crossbeam_channel::{bounded, Receiver, Sender};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Mutex;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(untagged)]
enum IdRepr {
    I32(i32),
    Str(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(transparent)]
pub struct RequestId(IdRepr);

impl From<i32> for RequestId {
    fn from(i: i32) -> Self {
        RequestId(IdRepr::I32(i))
    }
}
impl From<String> for RequestId {
    fn from(i: String) -> Self {
        RequestId(IdRepr::Str(i))
    }
}
impl std::fmt::Display for RequestId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            IdRepr::I32(x) => x.fmt(f),
            IdRepr::Str(x) => std::fmt::Debug::fmt(x, f),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Message {
    Request(Request),
    Response(Response),
    Notification(Notification),
}
impl From<Request> for Message {
    fn from(x: Request) -> Self {
        Message::Request(x)
    }
}
impl From<Response> for Message {
    fn from(x: Response) -> Self {
        Message::Response(x)
    }
}
impl From<Notification> for Message {
    fn from(x: Notification) -> Self {
        Message::Notification(x)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Request {
    pub id: RequestId,
    pub method: String,
    #[serde(default = "Value::default")]
    #[serde(skip_serializing_if = "Value::is_null")]
    pub params: Value,
}
impl Request {
    pub fn new<P: Serialize>(id: RequestId, method: String, params: P) -> Request {
        Request { id, method, params: serde_json::to_value(params).unwrap() }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Response {
    pub id: RequestId,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub error: Option<ResponseError>,
}
impl Response {
    pub fn new_ok<R: Serialize>(id: RequestId, result: R) -> Response {
        Response { id, result: Some(serde_json::to_value(result).unwrap()), error: None }
    }
    pub fn new_err(id: RequestId, code: i32, message: String) -> Response {
        let error = ResponseError { code, message, data: None };
        Response { id, result: None, error: Some(error) }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ResponseError {
    pub code: i32,
    pub message: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}

#[derive(Clone, Copy, Debug)]
#[non_exhaustive]
pub enum ErrorCode {
    ParseError = -32700,
    InvalidRequest = -32600,
    MethodNotFound = -32601,
    InvalidParams = -32602,
    InternalError = -32603,
    ServerErrorStart = -32099,
    ServerErrorEnd = -32000,
    ServerNotInitialized = -32002,
    UnknownErrorCode = -32001,
    RequestCanceled = -32800,
    ContentModified = -32801,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Notification {
    pub method: String,
    #[serde(default = "Value::default")]
    #[serde(skip_serializing_if = "Value::is_null")]
    pub params: Value,
}
impl Notification {
    pub fn new(method: String, params: impl Serialize) -> Self {
        Notification { method, params: serde_json::to_value(params).unwrap() }
    }
}

pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}
pub struct IoThreads;
impl IoThreads {
    pub fn join(self) -> std::io::Result<()> {
        Ok(())
    }
}

static NEXT: Mutex<Option<Connection>> = Mutex::new(None);

impl Connection {
    pub fn stdio() -> (Connection, IoThreads) {
        let c = NEXT.lock().unwrap().take().expect("the harness set no transport");
        (c, IoThreads)
    }
}

/// Harness side: install the next `stdio()` connection and return the client's end.
/// Rendezvous channels, as the real transport uses.
pub fn sim_client() -> (Sender<Message>, Receiver<Message>) {
    let (tx, server_rx) = bounded(0);
    let (server_tx, rx) = bounded(0);
    *NEXT.lock().unwrap() = Some(Connection { sender: server_tx, receiver: server_rx });
    (tx, rx)
}
