use std::any::{Any, TypeId};
use std::future::Future;

use crate::actor::{Actor, Supervised};
use crate::address::Addr;
use crate::context::Context;
use crate::sim;

pub trait SystemService: Actor<Context = Context<Self>> + Supervised + Default {
    fn start_service() -> Addr<Self> {
        let a = Self::default().start();
        SystemRegistry::set(a.clone());
        a
    }
    fn service_started(&mut self, _ctx: &mut Context<Self>) {}
    fn from_registry() -> Addr<Self> {
        let found = sim::with(|s| {
            s.registry.borrow().get(&(sim::node(), TypeId::of::<Self>())).and_then(|a: &Box<dyn Any>| a.downcast_ref::<Addr<Self>>().cloned())
        });
        match found {
            Some(Some(a)) => a,
            Some(None) => Self::start_service(),
            None => panic!("System is not running"),
        }
    }
}

pub struct SystemRegistry;
impl SystemRegistry {
    pub fn set<A: SystemService>(addr: Addr<A>) {
        let old = sim::with(|s| s.registry.borrow_mut().insert((sim::node(), TypeId::of::<A>()), Box::new(addr)));
        drop(old);
    }
}

#[derive(Clone, Debug)]
pub struct System {
    id: usize,
}
impl System {
    /// A system run by hand (`block_on`, then `run`), on virtual time.
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        sim::install();
        System { id: 0 }
    }
    pub fn current() -> Self {
        Self::try_current().expect("System is not running")
    }
    pub fn try_current() -> Option<Self> {
        sim::with(|_| System { id: 0 })
    }
    pub fn id(&self) -> usize {
        self.id
    }
    pub fn stop(&self) {
        self.stop_with_code(0)
    }
    /// Recorded: the simulation looks at it.
    pub fn stop_with_code(&self, code: i32) {
        sim::with(|s| {
            s.stops.borrow_mut().push((sim::node(), code));
            if s.stopped.get().is_none() {
                s.stopped.set(Some(code))
            }
        });
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        sim::block_on_installed(f)
    }
    pub fn run(self) -> std::io::Result<()> {
        let code = sim::run_installed();
        if code == 0 { Ok(()) } else { Err(std::io::Error::other(format!("Non-zero exit code: {code}"))) }
    }
}
