//! Loopback HTTP: one listener per port, one connection per request.
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Request {
    pub method: String,
    pub path: String,
    pub body: Vec<u8>,
    pub conn: u64,
}
#[derive(Clone, Debug)]
pub struct Response {
    pub status: u16,
    pub body: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetError {
    Connect,
    Reset,
    Timeout,
}
#[derive(Default)]
struct Listener {
    proc: usize,
    queue: Vec<Request>,
}
struct Conn {
    reply: Option<Result<Response, ()>>,
    server: usize,
}
#[derive(Default)]
struct State {
    ports: BTreeMap<u16, Listener>,
    conns: BTreeMap<u64, Conn>,
    next: u64,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}
pub fn reset() {
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
/// The kernel closes a dead process's sockets.
pub fn on_exit(p: usize) {
    st(|s| {
        s.ports.retain(|_, l| l.proc != p);
        for c in s.conns.values_mut() {
            if c.server == p && c.reply.is_none() {
                c.reply = Some(Err(()));
            }
        }
    });
}
pub fn bind(port: u16) -> std::io::Result<()> {
    simrt::yield_now();
    let p = simrt::current_proc();
    st(|s| {
        if s.ports.contains_key(&port) {
            return Err(std::io::Error::from_raw_os_error(libc::EADDRINUSE));
        }
        s.ports.insert(port, Listener { proc: p, queue: vec![] });
        Ok(())
    })?;
    simrt::log(|| format!("listening on port {port}"));
    simrt::bump();
    Ok(())
}
pub fn unbind(port: u16) {
    if simrt::dying() {
        return;
    }
    let p = simrt::current_proc();
    st(|s| {
        if s.ports.get(&port).is_some_and(|l| l.proc == p) {
            let l = s.ports.remove(&port).unwrap();
            for r in l.queue {
                s.conns.get_mut(&r.conn).unwrap().reply = Some(Err(()));
            }
        }
    });
    simrt::bump();
}
pub fn is_bound(port: u16) -> bool {
    st(|s| s.ports.contains_key(&port))
}
pub fn has_request(port: u16) -> bool {
    STATE
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_ref()
        .and_then(|s| s.ports.get(&port))
        .is_some_and(|l| !l.queue.is_empty())
}
pub fn take_request(port: u16) -> Option<Request> {
    let r = st(|s| {
        let l = s.ports.get_mut(&port)?;
        if l.queue.is_empty() {
            None
        } else {
            Some(l.queue.remove(0))
        }
    });
    if let Some(r) = &r {
        crate::watch::taken(r.conn);
    }
    r
}
/// None: the connection is dropped without an answer.
pub fn answer(conn: u64, r: Option<Response>) {
    if simrt::dying() {
        return;
    }
    st(|s| {
        if let Some(c) = s.conns.get_mut(&conn) {
            if c.reply.is_none() {
                c.reply = Some(r.ok_or(()));
            }
        }
    });
    simrt::bump();
}

/// One request on a fresh connection.
pub fn call(
    method: &str,
    port: u16,
    path: &str,
    body: Vec<u8>,
    timeout_ns: Option<u64>,
) -> Result<Response, NetError> {
    simrt::yield_now();
    if simrt::fault("net.delay") {
        simrt::sleep_ns(1_000_000 * (1 + simrt::choose(2000)));
    }
    if simrt::fault("net.refused") {
        return Err(NetError::Connect);
    }
    if !is_bound(port) {
        return Err(NetError::Connect);
    }
    if simrt::fault("net.reset_before_delivery") {
        return Err(NetError::Reset);
    }
    let lose = simrt::fault("net.reply_lost");
    let sent = body.clone();
    let id = st(|s| {
        s.next += 1;
        let id = s.next;
        let l = s.ports.get_mut(&port)?;
        s.conns.insert(id, Conn { reply: None, server: l.proc });
        l.queue.push(Request { method: method.into(), path: path.into(), body, conn: id });
        Some(id)
    });
    let Some(id) = id else { return Err(NetError::Connect) };
    crate::watch::sent(id, &sent);
    simrt::log(|| format!("http {method} {path} -> port {port} conn {id}"));
    simrt::probe("net.requests");
    simrt::bump();
    let ready = move || {
        STATE
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .as_ref()
            .is_none_or(|s| s.conns.get(&id).is_none_or(|c| c.reply.is_some()))
    };
    let ok = match timeout_ns {
        Some(t) => simrt::wait_until_timeout(ready, t),
        None => {
            simrt::wait_until(ready);
            true
        }
    };
    if !ok {
        return Err(NetError::Timeout);
    }
    let r = st(|s| s.conns.remove(&id).and_then(|c| c.reply));
    if lose {
        return Err(NetError::Reset);
    }
    simrt::yield_now();
    match r {
        Some(Ok(r)) => Ok(r),
        _ => Err(NetError::Reset),
    }
}
