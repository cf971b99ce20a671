//! Stand-in for trust-dns-resolver: no name resolves.
pub mod config {
    #[derive(Clone, Default)]
    pub struct ResolverConfig;
    #[derive(Clone, Default)]
    pub struct ResolverOpts;
}
pub mod error {
    use std::fmt;
    #[derive(Debug, Clone)]
    pub struct ResolveError;
    impl fmt::Display for ResolveError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("no record found")
        }
    }
    impl std::error::Error for ResolveError {}
}
pub mod lookup_ip {
    pub struct LookupIp(pub Vec<std::net::IpAddr>);
    impl LookupIp {
        pub fn iter(&self) -> impl Iterator<Item = std::net::IpAddr> + '_ {
            self.0.iter().copied()
        }
    }
}
#[derive(Clone)]
pub struct TokioAsyncResolver;
impl TokioAsyncResolver {
    pub fn tokio(_c: config::ResolverConfig, _o: config::ResolverOpts) -> Result<Self, error::ResolveError> {
        Ok(Self)
    }
    pub fn tokio_from_system_conf() -> Result<Self, error::ResolveError> {
        Ok(Self)
    }
    pub async fn lookup_ip(&self, _host: String) -> Result<lookup_ip::LookupIp, error::ResolveError> {
        Err(error::ResolveError)
    }
}
