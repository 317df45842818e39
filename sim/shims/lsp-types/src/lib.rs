//! Stand-in for the part of `lsp-types` 0.93 a small language server uses.
use serde::{Deserialize, Serialize};
pub use url::Url;

macro_rules! rec {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        $(#[$m])*
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
    };
}
macro_rules! kind {
    ($n:ident : $t:ty { $($c:ident = $v:expr),* $(,)? }) => {
        #[derive(Debug, Eq, PartialEq, Copy, Clone, Serialize, Deserialize)]
        #[serde(transparent)]
        pub struct $n($t);
        impl $n { $(pub const $c: $n = $n($v);)* }
    };
}

#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Default, Hash, Serialize, Deserialize)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub fn new(line: u32, character: u32) -> Self { Position { line, character } } }
#[derive(Debug, Eq, PartialEq, Copy, Clone, Default, Hash, Serialize, Deserialize)]
pub struct Range { pub start: Position, pub end: Position }
impl Range { pub fn new(start: Position, end: Position) -> Self { Range { start, end } } }

rec!(Location { uri: Url, range: Range });
rec!(TextDocumentItem { uri: Url, language_id: String, version: i32, text: String });
rec!(TextDocumentIdentifier { uri: Url });
rec!(VersionedTextDocumentIdentifier { uri: Url, version: i32 });
rec!(TextDocumentContentChangeEvent {
    #[serde(default, skip_serializing_if = "Option::is_none")] range: Option<Range>,
    #[serde(default, skip_serializing_if = "Option::is_none")] range_length: Option<u32>,
    text: String,
});
rec!(DidOpenTextDocumentParams { text_document: TextDocumentItem });
rec!(DidChangeTextDocumentParams {
    text_document: VersionedTextDocumentIdentifier,
    content_changes: Vec<TextDocumentContentChangeEvent>,
});
rec!(DidSaveTextDocumentParams {
    text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")] text: Option<String>,
});
rec!(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier });
rec!(TextDocumentPositionParams { text_document: TextDocumentIdentifier, position: Position });
rec!(CompletionParams { #[serde(flatten)] text_document_position: TextDocumentPositionParams });
rec!(HoverParams { #[serde(flatten)] text_document_position_params: TextDocumentPositionParams });
rec!(GotoDefinitionParams { #[serde(flatten)] text_document_position_params: TextDocumentPositionParams });

kind!(CompletionItemKind: i32 {
    TEXT = 1, METHOD = 2, FUNCTION = 3, CONSTRUCTOR = 4, FIELD = 5, VARIABLE = 6, CLASS = 7,
    INTERFACE = 8, MODULE = 9, PROPERTY = 10, UNIT = 11, VALUE = 12, ENUM = 13, KEYWORD = 14,
    SNIPPET = 15, COLOR = 16, FILE = 17, REFERENCE = 18, FOLDER = 19, ENUM_MEMBER = 20,
    CONSTANT = 21, STRUCT = 22, EVENT = 23, OPERATOR = 24, TYPE_PARAMETER = 25,
});
kind!(TextDocumentSyncKind: i32 { NONE = 0, FULL = 1, INCREMENTAL = 2 });

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItem {
    pub label: String,
    #[serde(skip_serializing_if = "Option::is_none")] pub kind: Option<CompletionItemKind>,
    #[serde(skip_serializing_if = "Option::is_none")] pub detail: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")] pub documentation: Option<Documentation>,
    #[serde(skip_serializing_if = "Option::is_none")] pub insert_text: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Documentation { String(String), MarkupContent(MarkupContent) }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum MarkupKind { PlainText, Markdown }
rec!(MarkupContent { kind: MarkupKind, value: String });
rec!(CompletionList { is_incomplete: bool, items: Vec<CompletionItem> });
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionResponse { Array(Vec<CompletionItem>), List(CompletionList) }
impl From<Vec<CompletionItem>> for CompletionResponse {
    fn from(x: Vec<CompletionItem>) -> Self { CompletionResponse::Array(x) }
}

rec!(LanguageString { language: String, value: String });
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum MarkedString { String(String), LanguageString(LanguageString) }
impl MarkedString {
    pub fn from_markdown(s: String) -> Self { MarkedString::String(s) }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverContents { Scalar(MarkedString), Array(Vec<MarkedString>), Markup(MarkupContent) }
rec!(Hover { contents: HoverContents, #[serde(skip_serializing_if = "Option::is_none")] range: Option<Range> });

#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InitializeParams {
    #[serde(default)] pub process_id: Option<u32>,
    #[serde(default)] pub root_uri: Option<Url>,
    #[serde(default)] pub capabilities: serde_json::Value,
}
#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
pub struct InitializeError { pub retry: bool }
#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
pub struct ServerInfo { pub name: String, #[serde(skip_serializing_if = "Option::is_none")] pub version: Option<String> }
#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    #[serde(skip_serializing_if = "Option::is_none")] pub server_info: Option<ServerInfo>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum OneOf<A, B> { Left(A), Right(B) }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind) }
impl From<TextDocumentSyncKind> for TextDocumentSyncCapability {
    fn from(x: TextDocumentSyncKind) -> Self { TextDocumentSyncCapability::Kind(x) }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverProviderCapability { Simple(bool) }
impl From<bool> for HoverProviderCapability {
    fn from(x: bool) -> Self { HoverProviderCapability::Simple(x) }
}
rec!(DefinitionOptions { work_done_progress: Option<bool> });
#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CompletionOptions {
    #[serde(skip_serializing_if = "Option::is_none")] pub resolve_provider: Option<bool>,
    #[serde(skip_serializing_if = "Option::is_none")] pub trigger_characters: Option<Vec<String>>,
}
#[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ServerCapabilities {
    #[serde(skip_serializing_if = "Option::is_none")] pub text_document_sync: Option<TextDocumentSyncCapability>,
    #[serde(skip_serializing_if = "Option::is_none")] pub hover_provider: Option<HoverProviderCapability>,
    #[serde(skip_serializing_if = "Option::is_none")] pub completion_provider: Option<CompletionOptions>,
    #[serde(skip_serializing_if = "Option::is_none")] pub definition_provider: Option<OneOf<bool, DefinitionOptions>>,
}

pub mod request {
    use super::*;
    use serde::de::DeserializeOwned;
    pub trait Request {
        type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
        type Result: DeserializeOwned + Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }
    macro_rules! req { ($n:ident, $p:ty, $r:ty, $m:expr) => {
        pub enum $n {}
        impl Request for $n { type Params = $p; type Result = $r; const METHOD: &'static str = $m; }
    } }
    req!(Initialize, InitializeParams, InitializeResult, "initialize");
    req!(Shutdown, (), (), "shutdown");
    req!(Completion, CompletionParams, Option<CompletionResponse>, "textDocument/completion");
    req!(HoverRequest, HoverParams, Option<Hover>, "textDocument/hover");
    req!(GotoDefinition, GotoDefinitionParams, serde_json::Value, "textDocument/definition");
}
pub mod notification {
    use super::*;
    use serde::de::DeserializeOwned;
    pub trait Notification {
        type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }
    macro_rules! ntf { ($n:ident, $p:ty, $m:expr) => {
        pub enum $n {}
        impl Notification for $n { type Params = $p; const METHOD: &'static str = $m; }
    } }
    ntf!(Exit, (), "exit");
    ntf!(DidOpenTextDocument, DidOpenTextDocumentParams, "textDocument/didOpen");
    ntf!(DidChangeTextDocument, DidChangeTextDocumentParams, "textDocument/didChange");
    ntf!(DidSaveTextDocument, DidSaveTextDocumentParams, "textDocument/didSave");
    ntf!(DidCloseTextDocument, DidCloseTextDocumentParams, "textDocument/didClose");
}

#[macro_export]
macro_rules! lsp_request {
    ("initialize") => { $crate::request::Initialize };
    ("shutdown") => { $crate::request::Shutdown };
    ("textDocument/completion") => { $crate::request::Completion };
    ("textDocument/hover") => { $crate::request::HoverRequest };
    ("textDocument/definition") => { $crate::request::GotoDefinition };
}
#[macro_export]
macro_rules! lsp_notification {
    ("exit") => { $crate::notification::Exit };
    ("textDocument/didOpen") => { $crate::notification::DidOpenTextDocument };
    ("textDocument/didChange") => { $crate::notification::DidChangeTextDocument };
    ("textDocument/didSave") => { $crate::notification::DidSaveTextDocument };
    ("textDocument/didClose") => { $crate::notification::DidCloseTextDocument };
}
