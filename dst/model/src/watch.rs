//! What happens to the shared witness while a prove request is under way (property C02).
use crate::shmem;
use std::sync::Mutex;

const P: &str = "C02";
/// A client that has waited this long may be giving up.
const PATIENCE: u64 = 250_000_000_000;

#[derive(Default)]
struct Req {
    conn: u64,
    client: usize,
    sent: u64,
    hash: u64,
    taken: bool,
    read: bool,
    acked: bool,
    over: bool,
}
#[derive(Default)]
struct State {
    on: bool,
    reqs: Vec<Req>,
    /// per server process: the request whose effects were seen last, and those seen before
    turn: Vec<(usize, u64, Vec<u64>)>,
}
static STATE: Mutex<State> = Mutex::new(State { on: false, reqs: Vec::new(), turn: Vec::new() });
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    f(&mut STATE.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn reset() {
    st(|s| *s = State::default());
}
pub fn enable() {
    st(|s| s.on = true);
}
fn on() -> bool {
    st(|s| s.on)
}
fn witness() -> Option<u64> {
    shmem::peek("witness").map(|b| simrt::hash_bytes(&b))
}
/// Is some confirmation published?
fn ack() -> bool {
    shmem::peek("witness_ack").is_some_and(|b| b.iter().any(|x| *x != 0))
}
fn bad(m: String) {
    simrt::violation(P, m);
}
pub(crate) fn sent(conn: u64, body: &[u8]) {
    if !on() || !body.windows(5).any(|w| w == b"Prove") {
        return;
    }
    let h = witness();
    if h.is_none() {
        bad("no witness: a prove request is sent while no witness is shared".into());
    }
    let (client, sent) = (simrt::current_proc(), simrt::now_ns());
    st(|s| s.reqs.push(Req { conn, client, sent, hash: h.unwrap_or(0), ..Req::default() }));
}
pub(crate) fn taken(conn: u64) {
    if on() {
        st(|s| s.reqs.iter_mut().filter(|r| r.conn == conn).for_each(|r| r.taken = true));
    }
}
/// The client's call ended; was its last request confirmed?
pub fn call_ended(client: usize) -> bool {
    ack();
    st(|s| {
        let mut last = false;
        for r in s.reqs.iter_mut().filter(|r| r.client == client) {
            last = r.acked;
            r.over = true;
        }
        last
    })
}
/// Has some request of this client been confirmed and not ended?
pub fn confirmed(client: usize) -> bool {
    let ack = ack();
    st(|s| s.reqs.iter().any(|r| r.client == client && (r.acked || (r.read && ack)) && !r.over))
}
pub(crate) fn opened(name: &str, ok: bool) {
    if !on() {
        return;
    }
    let (p, tag) = (simrt::current_proc(), simrt::tag());
    match name {
        "witness" => {
            let now = simrt::now_ns();
            let h = witness();
            let m = st(|s| {
                let r = s.reqs.iter().find(|r| r.conn == tag && r.client != p)?;
                if r.acked || r.over {
                    return None;
                }
                if !ok {
                    return (now - r.sent < PATIENCE && h.is_none())
                        .then(|| "witness gone: the server finds no witness while the request is under way".to_string());
                }
                (h != Some(r.hash)).then(|| "witness changed: between the request and the server's reading".to_string())
            });
            if let Some(m) = m {
                bad(m);
            }
        }
        "witness_ack" if ok => {
            let mut late = false;
            let m = st(|s| {
                let i = s.reqs.iter().position(|r| r.conn == tag && r.client != p)?;
                if s.reqs[i].over {
                    late = true;
                }
                s.reqs[i].acked = true;
                if !s.reqs[i].read {
                    return Some("confirmed unread: the server confirms a witness it has not finished reading".to_string());
                }
                None
            });
            if late {
                simrt::probe("confirmation after the call ended");
            }
            if let Some(m) = m {
                bad(m);
            }
        }
        _ => {}
    }
}
/// Called before a mapping goes away.
pub(crate) fn dropping(name: &str, owner: bool) {
    if !on() || name != "witness" {
        return;
    }
    let (p, tag, now) = (simrt::current_proc(), simrt::tag(), simrt::now_ns());
    let (h, ack) = (witness(), ack());
    let m = st(|s| {
        if owner {
            return s
                .reqs
                .iter()
                .any(|r| r.client == p && !r.acked && !(r.read && ack) && !r.over && now - r.sent < PATIENCE)
                .then(|| "released early: the client releases a witness that the server has not confirmed".to_string());
        }
        let r = s.reqs.iter_mut().find(|r| r.conn == tag && r.client != p)?;
        r.read = true;
        (!r.acked && !r.over && h != Some(r.hash))
            .then(|| "witness changed: while the server was reading it".to_string())
    });
    if let Some(m) = m {
        bad(m);
    }
}

/// A collective call or shared memory operation by a server process on behalf of a request.
pub(crate) fn effect(what: &str) {
    let tag = simrt::tag();
    if tag == 0 {
        return;
    }
    let p = simrt::current_proc();
    let back = st(|s| {
        let Some(t) = s.turn.iter_mut().find(|t| t.0 == p) else {
            s.turn.push((p, tag, vec![]));
            return None;
        };
        if t.1 == tag {
            return None;
        }
        let back = t.2.contains(&tag).then_some(t.1);
        let old = std::mem::replace(&mut t.1, tag);
        t.2.push(old);
        back
    });
    if let Some(o) = back {
        simrt::violation(
            crate::mpi::LOCKSTEP,
            format!("requests interleave: {what} for request {tag} after request {o} began in between"),
        );
    }
}
