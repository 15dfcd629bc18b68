//! axum on the simulated loopback: one task per connection, graceful shutdown.
use std::future::{Future, IntoFuture};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

pub type BoxFuture<T> = Pin<Box<dyn Future<Output = T> + Send>>;
pub use model::net::{Request as RawRequest, Response as RawResponse};

pub mod http {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct StatusCode(pub u16);
    impl StatusCode {
        pub const OK: Self = StatusCode(200);
        pub const ACCEPTED: Self = StatusCode(202);
        pub const BAD_REQUEST: Self = StatusCode(400);
        pub const NOT_FOUND: Self = StatusCode(404);
        pub const CONFLICT: Self = StatusCode(409);
        pub const UNPROCESSABLE_ENTITY: Self = StatusCode(422);
        pub const INTERNAL_SERVER_ERROR: Self = StatusCode(500);
        pub const SERVICE_UNAVAILABLE: Self = StatusCode(503);
    }
}
pub use http::StatusCode;

pub mod response {
    pub use super::{IntoResponse, RawResponse as Response};
}
pub trait IntoResponse {
    fn into_response(self) -> RawResponse;
}
impl IntoResponse for RawResponse {
    fn into_response(self) -> RawResponse {
        self
    }
}
impl IntoResponse for () {
    fn into_response(self) -> RawResponse {
        RawResponse { status: 200, body: vec![] }
    }
}
impl IntoResponse for &'static str {
    fn into_response(self) -> RawResponse {
        RawResponse { status: 200, body: self.as_bytes().to_vec() }
    }
}
impl IntoResponse for String {
    fn into_response(self) -> RawResponse {
        RawResponse { status: 200, body: self.into_bytes() }
    }
}
impl IntoResponse for StatusCode {
    fn into_response(self) -> RawResponse {
        RawResponse { status: self.0, body: vec![] }
    }
}
impl<T: IntoResponse> IntoResponse for (StatusCode, T) {
    fn into_response(self) -> RawResponse {
        let mut r = self.1.into_response();
        r.status = self.0 .0;
        r
    }
}
impl<A: IntoResponse, B: IntoResponse> IntoResponse for Result<A, B> {
    fn into_response(self) -> RawResponse {
        match self {
            Ok(a) => a.into_response(),
            Err(b) => b.into_response(),
        }
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Json<T>(pub T);
impl<T: serde::Serialize> IntoResponse for Json<T> {
    fn into_response(self) -> RawResponse {
        match serde_json::to_vec(&self.0) {
            Ok(b) => RawResponse { status: 200, body: b },
            Err(_) => RawResponse { status: 500, body: vec![] },
        }
    }
}

pub mod extract {
    pub use super::Json;
    #[derive(Debug, Clone, Copy, Default)]
    pub struct State<S>(pub S);
}
pub trait FromRequest<S>: Sized {
    fn from_request(r: &RawRequest, s: &S) -> Result<Self, RawResponse>;
}
impl<S: Clone> FromRequest<S> for extract::State<S> {
    fn from_request(_: &RawRequest, s: &S) -> Result<Self, RawResponse> {
        Ok(extract::State(s.clone()))
    }
}
impl<S, T: serde::de::DeserializeOwned> FromRequest<S> for Json<T> {
    fn from_request(r: &RawRequest, _: &S) -> Result<Self, RawResponse> {
        match serde_json::from_slice(&r.body) {
            Ok(x) => Ok(Json(x)),
            Err(e) if e.is_syntax() || e.is_eof() => {
                Err(RawResponse { status: 400, body: e.to_string().into_bytes() })
            }
            Err(e) => Err(RawResponse { status: 422, body: e.to_string().into_bytes() }),
        }
    }
}
impl<S> FromRequest<S> for String {
    fn from_request(r: &RawRequest, _: &S) -> Result<Self, RawResponse> {
        String::from_utf8(r.body.clone()).map_err(|_| RawResponse { status: 400, body: vec![] })
    }
}

pub trait Handler<A, S>: Clone + Send + 'static {
    fn call(&self, r: RawRequest, s: S) -> BoxFuture<RawResponse>;
}
macro_rules! handler {
    ($($t:ident),*) => {
        #[allow(non_snake_case, unused_variables)]
        impl<F, Fut, R, S, $($t),*> Handler<($($t,)*), S> for F
        where
            F: Fn($($t),*) -> Fut + Clone + Send + 'static,
            Fut: Future<Output = R> + Send + 'static,
            R: IntoResponse + 'static,
            S: Clone + Send + 'static,
            $($t: FromRequest<S>,)*
        {
            fn call(&self, r: RawRequest, s: S) -> BoxFuture<RawResponse> {
                $(
                    let $t = match $t::from_request(&r, &s) {
                        Ok(x) => x,
                        Err(e) => return Box::pin(async move { e }),
                    };
                )*
                drop(s);
                let fut = self($($t),*);
                Box::pin(async move { fut.await.into_response() })
            }
        }
    };
}
handler!();
handler!(A1);
handler!(A1, A2);
handler!(A1, A2, A3);

type Dyn<S> = Arc<dyn Fn(RawRequest, S) -> BoxFuture<RawResponse>>;
pub mod routing {
    use super::*;
    pub struct MethodRouter<S> {
        pub(crate) m: Vec<(&'static str, Dyn<S>)>,
    }
    impl<S: Clone + Send + 'static> MethodRouter<S> {
        fn with<A: 'static, H: Handler<A, S>>(mut self, n: &'static str, h: H) -> Self {
            self.m.push((n, Arc::new(move |r, s| h.call(r, s))));
            self
        }
        pub fn get<A: 'static, H: Handler<A, S>>(self, h: H) -> Self {
            self.with("GET", h)
        }
        pub fn post<A: 'static, H: Handler<A, S>>(self, h: H) -> Self {
            self.with("POST", h)
        }
    }
    pub fn get<A: 'static, S: Clone + Send + 'static, H: Handler<A, S>>(h: H) -> MethodRouter<S> {
        MethodRouter { m: vec![] }.with("GET", h)
    }
    pub fn post<A: 'static, S: Clone + Send + 'static, H: Handler<A, S>>(h: H) -> MethodRouter<S> {
        MethodRouter { m: vec![] }.with("POST", h)
    }
}

pub struct Router<S = ()> {
    routes: Vec<(String, &'static str, Dyn<S>)>,
    state: Option<S>,
}
impl<S: Clone> Clone for Router<S> {
    fn clone(&self) -> Self {
        Router {
            routes: self.routes.iter().map(|(a, b, c)| (a.clone(), *b, c.clone())).collect(),
            state: self.state.clone(),
        }
    }
}
impl<S: Clone + Send + 'static> Default for Router<S> {
    fn default() -> Self {
        Self::new()
    }
}
impl<S: Clone + Send + 'static> Router<S> {
    pub fn new() -> Self {
        Router { routes: vec![], state: None }
    }
    pub fn route(mut self, path: &str, m: routing::MethodRouter<S>) -> Self {
        for (n, h) in m.m {
            assert!(
                !self.routes.iter().any(|r| r.0 == path && r.1 == n),
                "Overlapping method route. Handler for `{n} {path}` already exists"
            );
            self.routes.push((path.to_string(), n, h));
        }
        self
    }
    pub fn with_state<S2: Clone + Send + 'static>(self, s: S) -> Router<S2> {
        let routes = self
            .routes
            .into_iter()
            .map(|(p, n, h)| {
                let s = s.clone();
                let s = std::sync::Mutex::new(s);
                let d: Dyn<S2> = Arc::new(move |r, _| {
                    let s = s.lock().unwrap_or_else(|e| e.into_inner()).clone();
                    h(r, s)
                });
                (p, n, d)
            })
            .collect();
        Router { routes, state: None }
    }
    pub fn into_make_service(self) -> Router<S> {
        self
    }
    fn dispatch(&self, r: RawRequest, s: S) -> BoxFuture<RawResponse> {
        let path = r.path.clone();
        let mut seen = false;
        for (p, n, h) in &self.routes {
            if *p == path {
                seen = true;
                if *n == r.method {
                    return h(r, s);
                }
            }
        }
        let status = if seen { 405 } else { 404 };
        Box::pin(async move { RawResponse { status, body: vec![] } })
    }
}

pub struct Serve {
    l: tokio::net::TcpListener,
    app: Router<()>,
    sig: Option<BoxLocal>,
}
type BoxLocal = Pin<Box<dyn Future<Output = ()>>>;
pub fn serve(l: tokio::net::TcpListener, app: Router<()>) -> Serve {
    Serve { l, app, sig: None }
}
impl Serve {
    pub fn with_graceful_shutdown<F: Future<Output = ()> + 'static>(mut self, f: F) -> Self {
        self.sig = Some(Box::pin(f));
        self
    }
}
struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
unsafe impl<T> Sync for AssertSend<T> {}
impl<T: Future> Future for AssertSend<T> {
    type Output = T::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<T::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

impl IntoFuture for Serve {
    type Output = std::io::Result<()>;
    type IntoFuture = Pin<Box<dyn Future<Output = std::io::Result<()>>>>;
    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            let Serve { l, app, sig } = self;
            let port = l.local_addr()?.port();
            let stop = Arc::new(AtomicBool::new(false));
            if let Some(sig) = sig {
                let stop = stop.clone();
                let sig = AssertSend(sig);
                tokio::spawn(async move {
                    sig.await;
                    stop.store(true, Ordering::SeqCst);
                    simrt::bump();
                });
            }
            let open = Arc::new(AtomicUsize::new(0));
            loop {
                let s2 = stop.clone();
                simrt::wait_until(move || {
                    s2.load(Ordering::SeqCst) || model::net::has_request(port)
                });
                if simrt::dying() {
                    simrt::die_if_killed();
                    return Ok(());
                }
                // a connection and the signal may become ready together
                if stop.load(Ordering::SeqCst) && (!model::net::has_request(port) || simrt::flip(500)) {
                    break;
                }
                let Some(req) = model::net::take_request(port) else { continue };
                open.fetch_add(1, Ordering::SeqCst);
                let app = app.clone();
                let open = open.clone();
                tokio::spawn(AssertSend(async move {
                    struct G(u64, bool, Arc<AtomicUsize>);
                    impl Drop for G {
                        fn drop(&mut self) {
                            if !self.1 {
                                model::net::answer(self.0, None);
                            }
                            self.2.fetch_sub(1, Ordering::SeqCst);
                            simrt::bump();
                        }
                    }
                    let mut g = G(req.conn, false, open);
                    let conn = req.conn;
                    simrt::set_tag(conn);
                    simrt::yield_now();
                    let fut = app.dispatch(req, ());
                    let r = fut.await;
                    g.1 = true;
                    model::net::answer(conn, Some(r));
                    drop(g);
                    // what the connection task owns goes away a little later
                    simrt::yield_now();
                    drop(app);
                }));
            }
            drop(l);
            let o = open.clone();
            simrt::wait_until(move || o.load(Ordering::SeqCst) == 0);
            drop(app);
            Ok(())
        })
    }
}
