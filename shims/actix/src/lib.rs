//! Stand-in for actix 0.13 on one thread of tokio: actors, contexts, addresses, the system registry and
//! actor futures, with actix's own scheduling order (futures waited for, most recent first; then the mailbox;
//! then the spawned futures). Nothing here runs in parallel; `sim` adds what a test needs: a fresh system
//! for every run, virtual time, and seeded perturbation of the order in which actors get to run.
pub mod actor;
pub mod address;
pub mod context;
pub mod fut;
pub mod io;
pub mod registry;
pub mod sim;

pub use actor::{Actor, ActorContext, AsyncContext, Handler, Message, Running, StreamHandler, Supervised};
pub use address::{Addr, MailboxError, Recipient, Request, SendError};
pub use context::{Context, ContextFutureSpawner, SpawnHandle, SyncArbiter, SyncContext};
pub use fut::{ActorFuture, ActorFutureExt, ActorStreamExt, ActorTryFuture, ActorTryFutureExt, WrapFuture, WrapStream};
pub use registry::{System, SystemRegistry, SystemService};

pub use actor::{MessageResult, ResponseActFuture, ResponseFuture};

pub mod clock {
    pub use tokio::time::{sleep, sleep_until, Duration, Instant, Sleep};
}

pub mod dev {
    pub use crate::actor::{MessageResponse, OneshotSender, ToEnvelope};
    pub use crate::{Actor, Addr, Message};
}

pub mod prelude {
    pub use crate::actor::{
        Actor, ActorContext, AsyncContext, Handler, Message, MessageResult, ResponseActFuture, ResponseFuture, Running,
        StreamHandler, Supervised,
    };
    pub use crate::address::{Addr, MailboxError, Recipient, Request, SendError};
    pub use crate::context::{Context, ContextFutureSpawner, SpawnHandle, SyncArbiter, SyncContext};
    pub use crate::fut::{
        ActorFuture, ActorFutureExt, ActorStreamExt, ActorTryFuture, ActorTryFutureExt, WrapFuture, WrapStream,
    };
    pub use crate::registry::{System, SystemRegistry, SystemService};
    pub mod fut {
        pub use crate::fut::*;
    }
}
