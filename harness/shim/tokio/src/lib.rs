//! A stand-in for the asynchronous runtime: it polls one future on the calling thread until it is done.
pub mod runtime {
    use std::{future::Future, io, pin::pin, sync::Arc, task::{Context, Poll, Wake, Waker}};
    pub struct Runtime;
    pub struct Builder;
    struct W; impl Wake for W { fn wake(self: Arc<Self>) {} }
    impl Runtime {
        pub fn new() -> io::Result<Runtime> { Ok(Runtime) }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output { let mut f = pin!(f); let w = Waker::from(Arc::new(W)); let mut c = Context::from_waker(&w); loop { if let Poll::Ready(r) = f.as_mut().poll(&mut c) { return r; } } }
    }
    impl Builder { pub fn new_multi_thread() -> Self { Builder } pub fn new_current_thread() -> Self { Builder } pub fn enable_all(&mut self) -> &mut Self { self } pub fn worker_threads(&mut self, _: usize) -> &mut Self { self } pub fn build(&mut self) -> io::Result<Runtime> { Ok(Runtime) } }
}
