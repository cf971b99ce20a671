//! The real `client::http` module of witnet_net, without the actix and JSON-RPC parts of the crate.
pub type Uri = reqwest::Url;
pub mod client {
    #[path = "/repo/net/src/client/http/mod.rs"]
    pub mod http;
}
