//! Stand-in for jsonrpc-pubsub: what a subscriber was told is recorded.
use jsonrpc_core::{Error, Params};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SubscriptionId {
    Number(u64),
    String(String),
}
#[derive(Default, Debug)]
pub struct Record {
    pub assigned: Vec<SubscriptionId>,
    pub rejected: Vec<Error>,
    pub notified: Vec<Params>,
    pub closed: bool,
}
pub type Shared = Arc<Mutex<Record>>;
#[derive(Debug, Clone)]
pub struct Sink(Shared);
impl Sink {
    pub fn notify(&self, p: Params) -> Result<(), String> {
        let mut r = self.0.lock().unwrap();
        if r.closed {
            return Err("closed".into());
        }
        r.notified.push(p);
        Ok(())
    }
}
#[derive(Debug)]
pub struct Subscriber(Shared);
impl Subscriber {
    pub fn new_recorded(r: &Shared) -> Self {
        Self(r.clone())
    }
    pub fn assign_id(self, id: SubscriptionId) -> Result<Sink, ()> {
        let mut r = self.0.lock().unwrap();
        if r.closed {
            return Err(());
        }
        r.assigned.push(id);
        drop(r);
        Ok(Sink(self.0))
    }
    pub fn reject(self, e: Error) -> Result<(), ()> {
        self.0.lock().unwrap().rejected.push(e);
        Ok(())
    }
}
