//! reqwest on the simulated loopback.
use model::net::{self, NetError};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

type Outcome = std::result::Result<net::Response, NetError>;
type Slot = Arc<Mutex<(Option<Outcome>, Option<Waker>)>>;
struct Reply(Slot);
impl Future for Reply {
    type Output = Outcome;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Outcome> {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        match s.0.take() {
            Some(r) => Poll::Ready(r),
            None => {
                s.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub struct Error {
    kind: Kind,
}
#[derive(Debug, Clone, PartialEq, Eq)]
enum Kind {
    Net(NetError),
    Status(u16),
    Decode,
    Builder,
}
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "reqwest::Error {{ kind: {:?} }}", self.kind)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Net(NetError::Connect)
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Net(NetError::Timeout)
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Net(_))
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(StatusCode(s)),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: Self = StatusCode(200);
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        (500..600).contains(&self.0)
    }
    pub fn as_u16(&self) -> u16 {
        self.0
    }
}
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Clone, Default)]
pub struct Client {
    timeout: Option<Duration>,
}
#[derive(Default)]
pub struct ClientBuilder {
    timeout: Option<Duration>,
}
impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.timeout = Some(d);
        self
    }
    pub fn connect_timeout(self, _d: Duration) -> Self {
        self
    }
    pub fn no_proxy(self) -> Self {
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client { timeout: self.timeout })
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    fn req(&self, m: &'static str, url: String) -> RequestBuilder {
        RequestBuilder { method: m, url, body: Ok(vec![]), timeout: self.timeout }
    }
    pub fn get<U: ToString>(&self, u: U) -> RequestBuilder {
        self.req("GET", u.to_string())
    }
    pub fn post<U: ToString>(&self, u: U) -> RequestBuilder {
        self.req("POST", u.to_string())
    }
}
pub struct RequestBuilder {
    method: &'static str,
    url: String,
    body: std::result::Result<Vec<u8>, ()>,
    timeout: Option<Duration>,
}
impl RequestBuilder {
    pub fn json<T: serde::Serialize + ?Sized>(mut self, x: &T) -> Self {
        self.body = serde_json::to_vec(x).map_err(|_| ());
        self
    }
    pub fn body<T: Into<Vec<u8>>>(mut self, x: T) -> Self {
        self.body = Ok(x.into());
        self
    }
    pub fn header<K, V>(self, _k: K, _v: V) -> Self {
        self
    }
    pub fn timeout(mut self, d: Duration) -> Self {
        self.timeout = Some(d);
        self
    }
    pub async fn send(self) -> Result<Response> {
        let body = self.body.map_err(|_| Error { kind: Kind::Builder })?;
        let rest = self.url.strip_prefix("http://").ok_or(Error { kind: Kind::Builder })?;
        let (host, path) = match rest.find('/') {
            Some(i) => (&rest[..i], &rest[i..]),
            None => (rest, "/"),
        };
        let port: u16 = match host.rsplit_once(':') {
            Some((_, p)) => p.parse().map_err(|_| Error { kind: Kind::Builder })?,
            None => 80,
        };
        let path = path.to_string();
        let method = self.method;
        let t = self.timeout.map(|d| d.as_nanos() as u64);
        // the exchange runs on its own task so that other futures of the caller progress; it is
        // no task of the runtime, which does not wait for it when it shuts down
        let slot: Slot = Default::default();
        let s2 = slot.clone();
        simrt::spawn(simrt::current_proc(), "connection", move || {
            let r = net::call(method, port, &path, body, t);
            let w = {
                let mut s = s2.lock().unwrap_or_else(|e| e.into_inner());
                s.0 = Some(r);
                s.1.take()
            };
            if let Some(w) = w {
                w.wake();
            }
            simrt::bump();
        });
        match Reply(slot).await {
            Ok(r) => Ok(Response { status: r.status, body: r.body }),
            Err(e) => Err(Error { kind: Kind::Net(e) }),
        }
    }
}
#[derive(Debug)]
pub struct Response {
    status: u16,
    body: Vec<u8>,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(self.status)
    }
    pub async fn text(self) -> Result<String> {
        String::from_utf8(self.body).map_err(|_| Error { kind: Kind::Decode })
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|_| Error { kind: Kind::Decode })
    }
    pub fn error_for_status(self) -> Result<Self> {
        if StatusCode(self.status).is_client_error() || StatusCode(self.status).is_server_error() {
            Err(Error { kind: Kind::Status(self.status) })
        } else {
            Ok(self)
        }
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if StatusCode(self.status).is_client_error() || StatusCode(self.status).is_server_error() {
            Err(Error { kind: Kind::Status(self.status) })
        } else {
            Ok(self)
        }
    }
}
