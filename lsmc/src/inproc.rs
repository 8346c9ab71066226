//! The server in this process, with control over who runs when.
use super::session::Session;
use crate::server::Backend;
use futures_util::{Sink, Stream};
use serde_json::Value;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{ClientSocket, ExitedError, LspService};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// The handler of a message
pub struct Task {
    fut: Pin<Box<dyn Future<Output = Result<Option<Response>, ExitedError>> + Send>>,
    flag: Arc<Flag>,
}

impl Task {
    pub fn woken(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }
    /// Runs the handler until it waits for something. Some: it is done.
    pub fn step(&mut self) -> Option<Result<Option<Value>, ()>> {
        self.flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(self.flag.clone());
        match self.fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Pending => None,
            Poll::Ready(Ok(r)) => Some(Ok(r.map(|r| serde_json::to_value(r).unwrap()))),
            Poll::Ready(Err(_)) => Some(Err(())),
        }
    }
}

fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap())
}

pub struct InProc {
    service: LspService<Backend>,
    socket: ClientSocket,
    pub exited: bool,
}

impl InProc {
    pub fn new() -> InProc {
        let (service, socket) = LspService::new(|client| Backend::new(client, vec![]));
        InProc { service, socket, exited: false }
    }
    pub fn with_paths(paths: Vec<String>) -> InProc {
        let (service, socket) = LspService::new(|client| Backend::new(client, paths));
        InProc { service, socket, exited: false }
    }
    /// Hands a message to the server without running its handler.
    pub fn begin(&mut self, v: &Value) -> Result<Task, String> {
        let req: Request = serde_json::from_value(v.clone()).map_err(|e| format!("not a message: {e}"))?;
        let waker = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
        match self.service.poll_ready(&mut Context::from_waker(&waker)) {
            Poll::Ready(_) => {}
            Poll::Pending => return Err("the server does not accept messages".into()),
        }
        Ok(Task { fut: self.service.call(req), flag: Arc::new(Flag(AtomicBool::new(true))) })
    }
    /// Takes one message of the server out of the channel to the client.
    pub fn drain(&mut self) -> Option<Value> {
        let waker = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
        let mut cx = Context::from_waker(&waker);
        match Pin::new(&mut self.socket).poll_next(&mut cx) {
            Poll::Ready(Some(r)) => {
                if let Some(id) = r.id() {
                    let res = Response::from_ok(id.clone(), Value::Null);
                    let _ = Pin::new(&mut self.socket).start_send(res);
                }
                Some(serde_json::to_value(r).unwrap())
            }
            _ => None,
        }
    }
    pub fn enter() -> tokio::runtime::EnterGuard<'static> {
        runtime().enter()
    }
}

impl Session for InProc {
    fn send(&mut self, v: &Value) -> Result<Vec<Value>, String> {
        let _rt = InProc::enter();
        let mut task = self.begin(v)?;
        let mut out = vec![];
        let mut idle = 0;
        loop {
            if task.woken() {
                idle = 0;
                if let Some(r) = task.step() {
                    while let Some(m) = self.drain() {
                        out.push(m);
                    }
                    match r {
                        Ok(r) => out.extend(r),
                        Err(()) => self.exited = true,
                    }
                    return Ok(out);
                }
            }
            match self.drain() {
                Some(m) => {
                    out.push(m);
                    idle = 0;
                }
                None if task.woken() => {}
                None => {
                    idle += 1;
                    if idle > 5000 {
                        return Err(format!("the handler of {v} waits forever"));
                    }
                    std::thread::sleep(Duration::from_micros(if idle < 100 { 20 } else { 1000 }));
                }
            }
        }
    }
}
