//! A stand-in for the HTTP client: requests go to a function the harness sets (`serve`). No network is reached.
use std::{fmt, future::Future, io, pin::Pin, task::{Context, Poll}};
/// what a server answers: nothing (a network error), or a status and a body; `broken` means the connection fails in the middle of the body; `delay`: how often the answer is not there yet
pub struct Answer { pub status: Option<u16>, pub body: Vec<u8>, pub broken: bool, pub delay: u32 }
static mut SERVE: Option<fn(&str, &str) -> Answer> = None;
pub fn serve(f: fn(&str, &str) -> Answer) { unsafe { SERVE = Some(f); } }
fn ask(method: &str, url: &str) -> Answer { match unsafe { SERVE } { Some(f) => f(method, url), None => Answer { status: None, body: vec![], broken: false, delay: 0 } } }
#[derive(Debug)]
pub struct Error(pub Option<u16>);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("request failed") } }
impl std::error::Error for Error {}
impl Error { pub fn status(&self) -> Option<StatusCode> { self.0.map(StatusCode) } pub fn is_status(&self) -> bool { self.0.is_some() } }
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl StatusCode { pub const OK: StatusCode = StatusCode(200); pub const NOT_FOUND: StatusCode = StatusCode(404); pub fn as_u16(&self) -> u16 { self.0 } pub fn is_success(&self) -> bool { self.0 >= 200 && self.0 < 300 } pub fn is_client_error(&self) -> bool { self.0 >= 400 && self.0 < 500 } pub const FORBIDDEN: StatusCode = StatusCode(403); pub const NO_CONTENT: StatusCode = StatusCode(204); pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500); pub fn is_informational(&self) -> bool { self.0 >= 100 && self.0 < 200 } pub fn is_redirection(&self) -> bool { self.0 >= 300 && self.0 < 400 } pub fn is_server_error(&self) -> bool { self.0 >= 500 && self.0 < 600 } }
impl PartialEq<StatusCode> for u16 { fn eq(&self, o: &StatusCode) -> bool { *self == o.0 } }
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
pub mod header { pub const USER_AGENT: &str = "user-agent"; pub const ACCEPT: &str = "accept"; pub const CONTENT_LENGTH: &str = "content-length"; }
#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self { Client }
    pub fn head<U: AsRef<str>>(&self, u: U) -> RequestBuilder { RequestBuilder { method: "HEAD", url: u.as_ref().to_string() } }
    pub fn get<U: AsRef<str>>(&self, u: U) -> RequestBuilder { RequestBuilder { method: "GET", url: u.as_ref().to_string() } }
}
pub struct RequestBuilder { method: &'static str, url: String }
impl RequestBuilder { pub fn header(self, _: &str, _: &str) -> Self { self } pub fn send(self) -> Send { Send { r: Some(self), a: None } } }
pub struct Send { r: Option<RequestBuilder>, a: Option<Answer> }
impl Future for Send {
    type Output = Result<Response>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(r) = self.r.take() { self.a = Some(ask(r.method, &r.url)); }
        let a = self.a.as_mut().unwrap(); if a.delay > 0 { a.delay -= 1; cx.waker().wake_by_ref(); return Poll::Pending; }
        let a = self.a.take().unwrap(); Poll::Ready(match a.status { Some(s) => Ok(Response { status: s, body: a.body, broken: a.broken }), None => Err(Error(None)) })
    }
}
pub struct Response { status: u16, body: Vec<u8>, broken: bool }
impl Response {
    pub fn status(&self) -> StatusCode { StatusCode(self.status) }
    pub fn content_length(&self) -> Option<u64> { Some(self.body.len() as u64 + self.broken as u64) }
        pub fn error_for_status_ref(&self) -> Result<&Self> { if self.status >= 400 { Err(Error(Some(self.status))) } else { Ok(self) } }
        pub fn error_for_status(self) -> Result<Self> { if self.status >= 400 { Err(Error(Some(self.status))) } else { Ok(self) } }
    pub async fn bytes(self) -> Result<Vec<u8>> { if self.broken { Err(Error(None)) } else { Ok(self.body) } }
}
pub mod blocking {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct Client;
    impl Client {
        pub fn new() -> Self { Client }
        pub fn head<U: AsRef<str>>(&self, u: U) -> RequestBuilder { RequestBuilder { method: "HEAD", url: u.as_ref().to_string() } }
        pub fn get<U: AsRef<str>>(&self, u: U) -> RequestBuilder { RequestBuilder { method: "GET", url: u.as_ref().to_string() } }
    }
    pub fn get<U: AsRef<str>>(u: U) -> Result<Response> { Client::new().get(u).send() }
    pub struct RequestBuilder { method: &'static str, url: String }
    impl RequestBuilder { pub fn header(self, _: &str, _: &str) -> Self { self } pub fn send(self) -> Result<Response> { let a = ask(self.method, &self.url); match a.status { Some(s) => Ok(Response { status: s, body: a.body, broken: a.broken, at: 0 }), None => Err(Error(None)) } } }
    pub struct Response { status: u16, body: Vec<u8>, broken: bool, at: usize }
    impl Response {
        pub fn status(&self) -> StatusCode { StatusCode(self.status) }
        pub fn content_length(&self) -> Option<u64> { Some(self.body.len() as u64 + self.broken as u64) }
        pub fn error_for_status_ref(&self) -> Result<&Self> { if self.status >= 400 { Err(Error(Some(self.status))) } else { Ok(self) } }
        pub fn error_for_status(self) -> Result<Self> { if self.status >= 400 { Err(Error(Some(self.status))) } else { Ok(self) } }
        pub fn copy_to<W: ?Sized + io::Write>(&mut self, w: &mut W) -> Result<u64> { let n = self.body.len(); w.write_all(&self.body).map_err(|_| Error(None))?; if self.broken { Err(Error(None)) } else { Ok(n as u64) } }
        pub fn bytes(self) -> Result<Vec<u8>> { if self.broken { Err(Error(None)) } else { Ok(self.body) } }
    }
    impl io::Read for Response { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(self.body.len() - self.at); if n == 0 && self.broken && !b.is_empty() { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); } b[..n].copy_from_slice(&self.body[self.at..self.at + n]); self.at += n; Ok(n) } }
}
