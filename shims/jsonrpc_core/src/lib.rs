//! Stand-in for jsonrpc-core: parameters, errors and results.
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
pub use serde_json::Value;
use std::fmt;

pub type Result<T> = std::result::Result<T, Error>;
pub type BoxFuture<T> = std::pin::Pin<Box<dyn std::future::Future<Output = T> + Send>>;

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum ErrorCode {
    ParseError,
    InvalidRequest,
    MethodNotFound,
    InvalidParams,
    InternalError,
    ServerError(i64),
}
impl ErrorCode {
    pub fn code(&self) -> i64 {
        match *self {
            ErrorCode::ParseError => -32700,
            ErrorCode::InvalidRequest => -32600,
            ErrorCode::MethodNotFound => -32601,
            ErrorCode::InvalidParams => -32602,
            ErrorCode::InternalError => -32603,
            ErrorCode::ServerError(c) => c,
        }
    }
    pub fn description(&self) -> String {
        match self {
            ErrorCode::ParseError => "Parse error",
            ErrorCode::InvalidRequest => "Invalid request",
            ErrorCode::MethodNotFound => "Method not found",
            ErrorCode::InvalidParams => "Invalid params",
            ErrorCode::InternalError => "Internal error",
            ErrorCode::ServerError(_) => "Server error",
        }
        .to_string()
    }
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Error {
    pub code: ErrorCode,
    pub message: String,
    pub data: Option<Value>,
}
impl Error {
    pub fn new(code: ErrorCode) -> Self {
        Error { message: code.description(), code, data: None }
    }
    pub fn internal_error() -> Self {
        Self::new(ErrorCode::InternalError)
    }
    pub fn method_not_found() -> Self {
        Self::new(ErrorCode::MethodNotFound)
    }
    pub fn invalid_params<M: Into<String>>(message: M) -> Self {
        Error { code: ErrorCode::InvalidParams, message: message.into(), data: None }
    }
    pub fn invalid_params_with_details<M: Into<String>, T: fmt::Debug>(message: M, details: T) -> Self {
        Error {
            code: ErrorCode::InvalidParams,
            message: format!("Invalid parameters: {}", message.into()),
            data: Some(Value::String(format!("{details:?}"))),
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.code.description(), self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Params {
    Array(Vec<Value>),
    Map(serde_json::Map<String, Value>),
    None,
}
impl Params {
    pub fn parse<D: DeserializeOwned>(self) -> Result<D> {
        let value: Value = self.into();
        serde_json::from_value(value).map_err(|e| Error::invalid_params(format!("Invalid params: {e}.")))
    }
    pub fn expect_no_params(self) -> Result<()> {
        match self {
            Params::None => Ok(()),
            Params::Array(ref v) if v.is_empty() => Ok(()),
            p => Err(Error::invalid_params_with_details("No parameters were expected", p)),
        }
    }
}
impl From<Params> for Value {
    fn from(p: Params) -> Value {
        match p {
            Params::Array(v) => Value::Array(v),
            Params::Map(m) => Value::Object(m),
            Params::None => Value::Null,
        }
    }
}
