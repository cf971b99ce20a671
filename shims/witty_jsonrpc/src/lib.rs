//! Stand-in for witty-jsonrpc: methods are registered by name and called directly, without a transport.
use jsonrpc_core::{BoxFuture, Error, Params, Value};
use jsonrpc_pubsub::{Subscriber, SubscriptionId};
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

pub mod handler {
    pub trait Handler {
        type Metadata: Clone + std::fmt::Debug + Default + Send + Sync + 'static;
    }
    #[derive(Clone, Debug, Default)]
    pub struct Session;
    pub type NoMeta = Session;
    impl Session {
        pub fn mock() -> Self {
            Session
        }
    }
    impl Handler for Session {
        type Metadata = NoMeta;
    }
}
use handler::Handler;

type Answer = BoxFuture<Result<Value, Error>>;
pub mod server {
    use super::*;
    pub trait ActixServer<H: Handler> {
        fn add_actix_method<F>(&mut self, system: &Option<actix::System>, name: &str, method: F)
        where
            F: Fn(Params) -> Answer + Send + Sync + 'static;
        fn add_actix_subscription<S, U>(
            &mut self,
            system: &Option<actix::System>,
            notification: &str,
            subscribe: (&str, Arc<S>),
            unsubscribe: (&str, Arc<U>),
        ) where
            S: Fn(Params, H::Metadata, Subscriber) + Send + Sync + 'static,
            U: Fn(SubscriptionId, Option<H::Metadata>) -> Answer + Send + Sync + 'static;
    }
}
type Method = Box<dyn Fn(Params) -> Answer + Send + Sync>;
type Sub = Box<dyn Fn(Params, Subscriber) + Send + Sync>;
type Unsub = Box<dyn Fn(SubscriptionId) -> Answer + Send + Sync>;
#[derive(Default)]
pub struct WittyMultiServer {
    pub methods: BTreeMap<String, Method>,
    pub subscribe: BTreeMap<String, Sub>,
    pub unsubscribe: BTreeMap<String, Unsub>,
}
#[derive(Debug)]
pub struct ServerError;
impl fmt::Display for ServerError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("server error")
    }
}
impl std::error::Error for ServerError {}
impl WittyMultiServer {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_runtime(self, _r: tokio::runtime::Handle) -> Self {
        self
    }
    pub fn add_transport<T>(&mut self, _t: T) {}
    pub fn start(&mut self) -> Result<(), ServerError> {
        Ok(())
    }
    pub fn call(&self, name: &str, p: Params) -> Option<Answer> {
        self.methods.get(name).map(|m| m(p))
    }
}
impl WittyMultiServer {
    pub fn describe_api(&self) -> Vec<String> {
        let mut v: Vec<String> =
            self.methods.keys().chain(self.subscribe.keys()).chain(self.unsubscribe.keys()).cloned().collect();
        v.sort();
        v
    }
    /// One request, as text. The future must run inside the actor system.
    pub fn handle_request(&self, text: &str) -> std::pin::Pin<Box<dyn std::future::Future<Output = Option<String>>>> {
        let v: Value = match serde_json::from_str(text) {
            Ok(v) => v,
            Err(_) => {
                return Box::pin(std::future::ready(Some(show(
                    Err(Error::new(jsonrpc_core::ErrorCode::ParseError)),
                    &Value::Null,
                ))))
            }
        };
        let id = v.get("id").cloned();
        let params = match v.get("params") {
            None | Some(Value::Null) => Params::None,
            Some(Value::Array(a)) => Params::Array(a.clone()),
            Some(Value::Object(o)) => Params::Map(o.clone()),
            Some(_) => {
                return Box::pin(std::future::ready(Some(show(
                    Err(Error::new(jsonrpc_core::ErrorCode::InvalidRequest)),
                    &Value::Null,
                ))))
            }
        };
        let name = v.get("method").and_then(|m| m.as_str()).unwrap_or("").to_string();
        if let Some(sub) = self.subscribe.get(&name) {
            let rec = jsonrpc_pubsub::Shared::default();
            sub(params, Subscriber::new_recorded(&rec));
            let r = rec.lock().unwrap();
            let out = match (r.assigned.first(), r.rejected.first()) {
                (Some(SubscriptionId::String(s)), _) => Ok(Value::String(s.clone())),
                (Some(SubscriptionId::Number(n)), _) => Ok(Value::from(*n)),
                (None, Some(e)) => Err(e.clone()),
                (None, None) => Err(Error::internal_error()),
            };
            let out = id.map(|id| show(out, &id));
            return Box::pin(std::future::ready(out));
        }
        if let Some(unsub) = self.unsubscribe.get(&name) {
            let sid = match &params {
                Params::Array(v) => match v.first() {
                    Some(Value::String(s)) => Some(SubscriptionId::String(s.clone())),
                    Some(Value::Number(n)) => n.as_u64().map(SubscriptionId::Number),
                    _ => None,
                },
                _ => None,
            };
            return match sid {
                Some(sid) => {
                    let f = unsub(sid);
                    Box::pin(async move {
                        let r = f.await;
                        id.map(|id| show(r, &id))
                    })
                }
                None => Box::pin(std::future::ready(
                    id.map(|id| show(Err(Error::invalid_params("Expected a subscription id.")), &id)),
                )),
            };
        }
        match self.methods.get(&name) {
            None => Box::pin(std::future::ready(
                id.map(|id| show(Err(Error::new(jsonrpc_core::ErrorCode::MethodNotFound)), &id)),
            )),
            Some(m) => {
                let f = m(params);
                Box::pin(async move {
                    let r = f.await;
                    id.map(|id| show(r, &id))
                })
            }
        }
    }
    pub fn handle_request_sync(&self, text: &str, _session: handler::NoMeta) -> Option<String> {
        use std::future::Future;
        let mut f = self.handle_request(text);
        let w = std::task::Waker::noop();
        let mut cx = std::task::Context::from_waker(w);
        loop {
            if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                return r;
            }
        }
    }
}
fn show(r: Result<Value, Error>, id: &Value) -> String {
    let q = |s: &str| Value::String(s.to_string()).to_string();
    match r {
        Ok(v) => format!("{{\"jsonrpc\":\"2.0\",\"result\":{v},\"id\":{id}}}"),
        Err(e) => {
            let data = e.data.map(|d| format!(",\"data\":{d}")).unwrap_or_default();
            format!(
                "{{\"jsonrpc\":\"2.0\",\"error\":{{\"code\":{},\"message\":{}{data}}},\"id\":{id}}}",
                e.code.code(),
                q(&e.message)
            )
        }
    }
}
impl server::ActixServer<handler::Session> for WittyMultiServer {
    fn add_actix_method<F>(&mut self, _system: &Option<actix::System>, name: &str, method: F)
    where
        F: Fn(Params) -> Answer + Send + Sync + 'static,
    {
        self.methods.insert(name.to_string(), Box::new(method));
    }
    fn add_actix_subscription<S, U>(
        &mut self,
        _system: &Option<actix::System>,
        _notification: &str,
        subscribe: (&str, Arc<S>),
        unsubscribe: (&str, Arc<U>),
    ) where
        S: Fn(Params, handler::NoMeta, Subscriber) + Send + Sync + 'static,
        U: Fn(SubscriptionId, Option<handler::NoMeta>) -> Answer + Send + Sync + 'static,
    {
        let s = subscribe.1;
        self.subscribe.insert(subscribe.0.to_string(), Box::new(move |p, sub| s(p, handler::Session, sub)));
        let u = unsubscribe.1;
        self.unsubscribe.insert(unsubscribe.0.to_string(), Box::new(move |id| u(id, None)));
    }
}
pub mod transports {
    pub mod http {
        pub struct HttpTransportSettings {
            pub address: String,
        }
        pub struct HttpTransport;
        impl HttpTransport {
            pub fn new(_s: HttpTransportSettings) -> Self {
                Self
            }
        }
    }
    pub mod tcp {
        pub struct TcpTransportSettings {
            pub address: String,
        }
        pub struct TcpTransport;
        impl TcpTransport {
            pub fn new(_s: TcpTransportSettings) -> Self {
                Self
            }
        }
    }
    pub mod ws {
        pub struct WsTransportSettings {
            pub address: String,
        }
        pub struct WsTransport;
        impl WsTransport {
            pub fn new(_s: WsTransportSettings) -> Self {
                Self
            }
        }
    }
}
pub mod prelude {
    pub use crate::handler::Session;
    pub use crate::server::ActixServer;
    pub use crate::WittyMultiServer;
}
