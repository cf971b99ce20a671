//! Stand-in for reqwest: the same API shape over an in-process handler instead of the network.
//! `mock::set` installs the handler that answers every request; without one, every request fails.
pub use http::{header, Method, StatusCode, Version};
pub use url::Url;

use header::HeaderMap;
use std::fmt;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod mock {
    use super::*;
    use std::cell::RefCell;
    use std::rc::Rc;
    #[derive(Clone, Debug)]
    pub struct Seen {
        pub method: Method,
        pub url: String,
        pub headers: HeaderMap,
        pub body: Vec<u8>,
        /// The proxy that the request goes through, given its scheme
        pub proxy: Option<String>,
        pub redirects: usize,
        pub timeout: Option<Duration>,
    }
    #[derive(Clone, Debug)]
    pub struct Answer {
        pub status: u16,
        pub headers: HeaderMap,
        pub body: Vec<u8>,
        /// Fail while the body is being read
        pub broken_body: bool,
        pub delay: Duration,
    }
    pub type Handler = Rc<dyn Fn(&Seen) -> std::result::Result<Answer, String>>;
    thread_local!(static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) });
    /// For requests made by this thread
    pub fn set(h: Option<Handler>) {
        HANDLER.with(|x| *x.borrow_mut() = h)
    }
    pub(crate) fn call(s: &Seen) -> std::result::Result<Answer, String> {
        let h = HANDLER.with(|x| x.borrow().clone());
        match h {
            Some(h) => h(s),
            None => Err("no network".into()),
        }
    }
}
pub mod redirect {
    #[derive(Clone, Debug)]
    pub struct Policy(pub usize);
    impl Policy {
        pub fn limited(n: usize) -> Policy {
            Policy(n)
        }
        pub fn none() -> Policy {
            Policy(0)
        }
    }
}
#[derive(Clone, Debug)]
pub struct Proxy(String, &'static str);
impl Proxy {
    pub fn http<U: AsRef<str>>(u: U) -> Result<Proxy> {
        Ok(Proxy(u.as_ref().to_string(), "http"))
    }
    pub fn https<U: AsRef<str>>(u: U) -> Result<Proxy> {
        Ok(Proxy(u.as_ref().to_string(), "https"))
    }
    pub fn all<U: AsRef<str>>(u: U) -> Result<Proxy> {
        Ok(Proxy(u.as_ref().to_string(), ""))
    }
}
#[derive(Clone, Debug, Default)]
pub struct Body(Vec<u8>);
macro_rules! body { ($($t:ty),*) => { $( impl From<$t> for Body { fn from(x: $t) -> Body { let x: Vec<u8> = x.into(); Body(x) } } )* } }
body!(Vec<u8>, String, &'static str);
#[derive(Clone, Debug, Default)]
pub struct ClientBuilder {
    proxies: Vec<Proxy>,
    redirects: Option<redirect::Policy>,
}
impl ClientBuilder {
    pub fn proxy(mut self, p: Proxy) -> Self {
        self.proxies.push(p);
        self
    }
    pub fn redirect(mut self, p: redirect::Policy) -> Self {
        self.redirects = Some(p);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client { proxies: self.proxies, redirects: self.redirects.map_or(10, |p| p.0) })
    }
}
#[derive(Clone, Debug)]
pub struct Client {
    proxies: Vec<Proxy>,
    redirects: usize,
}
impl Client {
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    fn req(&self, m: Method, u: Url) -> RequestBuilder {
        RequestBuilder(Ok(Request { method: m, url: u, headers: HeaderMap::new(), body: Body::default(), timeout: None }))
    }
    pub fn get(&self, u: Url) -> RequestBuilder {
        self.req(Method::GET, u)
    }
    pub fn post(&self, u: Url) -> RequestBuilder {
        self.req(Method::POST, u)
    }
    pub fn head(&self, u: Url) -> RequestBuilder {
        self.req(Method::HEAD, u)
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        let s = mock::Seen {
            method: r.method,
            url: r.url.to_string(),
            headers: r.headers,
            body: r.body.0,
            proxy: self.proxies.iter().find(|p| p.1.is_empty() || p.1 == r.url.scheme()).map(|p| p.0.clone()),
            redirects: self.redirects,
            timeout: r.timeout,
        };
        let a = mock::call(&s).map_err(Error)?;
        if !a.delay.is_zero() {
            tokio::time::sleep(a.delay).await;
        }
        Ok(Response { status: StatusCode::from_u16(a.status).map_err(|e| Error(e.to_string()))?, a })
    }
}
#[derive(Clone, Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: HeaderMap,
    body: Body,
    timeout: Option<Duration>,
}
#[derive(Debug)]
pub struct RequestBuilder(Result<Request>);
impl RequestBuilder {
    pub fn headers(mut self, h: HeaderMap) -> Self {
        if let Ok(r) = &mut self.0 {
            r.headers.extend(h)
        }
        self
    }
    pub fn body<T: Into<Body>>(mut self, b: T) -> Self {
        if let Ok(r) = &mut self.0 {
            r.body = b.into()
        }
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        if let Ok(r) = &mut self.0 {
            r.timeout = Some(t)
        }
        self
    }
    pub fn build(self) -> Result<Request> {
        self.0
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    a: mock::Answer,
}
pub struct Bytes(Vec<u8>);
impl Bytes {
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.clone()
    }
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.a.headers
    }
    pub async fn bytes(self) -> Result<Bytes> {
        if self.a.broken_body {
            return Err(Error("connection reset".into()));
        }
        Ok(Bytes(self.a.body))
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?.0).into_owned())
    }
}
