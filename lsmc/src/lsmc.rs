//! Exploration of the language server (C19 to C22), in process where that is possible, else over the wire.
#[cfg(feature = "inproc")]
#[path = "inproc.rs"]
pub mod inproc;
#[path = "outline.rs"]
pub mod outline;
#[path = "protocol.rs"]
pub mod protocol;
#[path = "publish.rs"]
pub mod publish;
#[path = "queries.rs"]
pub mod queries;
#[path = "session.rs"]
pub mod session;

pub fn main() -> ! {
    mc::engine::main_with(&[&protocol::Protocol, &publish::Publish, &queries::Queries, &outline::Outline])
}
