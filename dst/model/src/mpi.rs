//! MPI: ranks are simulated processes; collectives are matched per communicator and per
//! call number, as MPI does, and a mismatch between ranks is reported.
use crate::arith::Field;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Mutex;

pub const LOCKSTEP: &str = "C03";
pub const WINDOWS: &str = "C04";
pub const IMAGE: &str = "C05";

// ------------------------------------------------------------------ shared address region
/// One reserved range of addresses holds every simulated shared mapping of a run.
pub mod region {
    use std::sync::atomic::{AtomicUsize, Ordering};
    pub const BASE: usize = 0x5000_0000_0000;
    pub const LEN: usize = 64 << 30;
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    static MAPPED: AtomicUsize = AtomicUsize::new(0);
    const PAGE: usize = 4096;

    pub fn contains(p: usize) -> bool {
        p >= BASE && p < BASE + LEN
    }
    fn ensure() {
        if MAPPED.swap(1, Ordering::SeqCst) == 0 {
            let p = unsafe {
                libc::mmap(
                    BASE as *mut _,
                    LEN,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                    -1,
                    0,
                )
            };
            assert_eq!(p as usize, BASE, "cannot reserve the shared region");
        }
    }
    pub fn reset() {
        let used = NEXT.swap(0, Ordering::SeqCst);
        if used > 0 {
            unsafe {
                libc::mprotect(BASE as *mut _, used, libc::PROT_NONE);
                libc::madvise(BASE as *mut _, used, libc::MADV_DONTNEED);
            }
        }
    }
    /// Maps whole pages followed by a guard page; returns (start, mapped length).
    pub fn map(bytes: usize) -> (usize, usize) {
        ensure();
        let len = bytes.max(1).div_ceil(PAGE) * PAGE;
        let off = NEXT.fetch_add(len + PAGE, Ordering::SeqCst);
        assert!(off + len + PAGE < LEN, "shared region exhausted");
        let p = BASE + off;
        let r = unsafe { libc::mprotect(p as *mut _, len, libc::PROT_READ | libc::PROT_WRITE) };
        assert_eq!(r, 0);
        (p, len)
    }
    /// Any later access faults.
    pub fn retire(start: usize, len: usize) {
        unsafe { libc::mprotect(start as *mut _, len, libc::PROT_NONE) };
    }
}

// ------------------------------------------------------------------ state
#[derive(Default)]
struct Comm {
    members: Vec<usize>, // process of each rank
    seq: Vec<u64>,
    ops: BTreeMap<u64, Op>,
}
#[derive(Default)]
struct Op {
    kind: String,
    len: Option<usize>,
    arrived: Vec<bool>,
    data: Vec<Vec<u8>>,
    left: usize,
    out: u64,
}
struct Win {
    start: usize,
    mapped: usize,
    bytes: usize,
    freed: bool,
    job: u64,
}
#[derive(Default)]
struct State {
    ranks: BTreeMap<usize, (u64, usize)>, // proc -> (communicator, rank)
    comms: BTreeMap<u64, Comm>,
    wins: BTreeMap<u64, Win>,
    next: u64,
    done: std::collections::BTreeSet<usize>,
    images: std::collections::BTreeSet<(usize, usize)>, // (process, address) of live vectors inside windows
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}
pub fn reset() {
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = None;
    region::reset();
}

/// mpiexec: the given processes form a job.
pub fn register_job(procs: &[usize]) -> u64 {
    st(|s| {
        s.next += 1;
        let id = s.next;
        s.comms.insert(
            id,
            Comm { members: procs.to_vec(), seq: vec![0; procs.len()], ops: BTreeMap::new() },
        );
        for (r, p) in procs.iter().enumerate() {
            s.ranks.insert(*p, (id, r));
        }
        id
    })
}
pub fn window_at(addr: usize) -> Option<String> {
    let g = STATE.try_lock().ok()?;
    let s = g.as_ref()?;
    s.wins
        .iter()
        .find(|(_, w)| addr >= w.start && addr < w.start + w.mapped + 4096)
        .map(|(k, w)| {
            format!("MPI window {k} ({} bytes, freed={}), offset {}", w.bytes, w.freed, addr - w.start)
        })
}
/// Has this process left MPI in the orderly way?
pub fn finalized(p: usize) -> bool {
    st(|s| s.done.contains(&p))
}
/// windows of a job that are still allocated
pub fn live_windows(job: u64) -> usize {
    st(|s| s.wins.values().filter(|w| w.job == job && !w.freed).count())
}

fn root_job(s: &State, p: usize) -> u64 {
    s.ranks.get(&p).map_or(0, |x| x.0)
}

/// One collective call. `need_all`: wait until every rank has arrived; otherwise wait for
/// rank 0 only. Returns every rank's contribution (rank 0's only in the second case).
fn collective(
    comm: u64,
    rank: usize,
    kind: &str,
    len: Option<usize>,
    data: Vec<u8>,
    need_all: bool,
    once: impl FnOnce(&mut State, &[Vec<u8>]) -> u64,
) -> (Vec<Vec<u8>>, u64) {
    if simrt::dying() {
        simrt::die_if_killed();
        return (vec![], 0);
    }
    simrt::yield_now();
    simrt::log(|| format!("mpi {kind} comm={comm} rank={rank} len={len:?}"));
    simrt::probe("mpi.collectives");
    if rank == 0 {
        crate::watch::effect(kind);
    }
    simrt::observe(simrt::mix(comm, rank as u64));
    let (seq, n) = st(|s| {
        let c = s.comms.get_mut(&comm).unwrap();
        let q = c.seq[rank];
        c.seq[rank] += 1;
        (q, c.members.len())
    });
    let mismatch = st(|s| {
        let c = s.comms.get_mut(&comm).unwrap();
        let o = c.ops.entry(seq).or_insert_with(|| Op {
            kind: kind.to_string(),
            len,
            arrived: vec![false; n],
            data: vec![vec![]; n],
            left: 0,
            out: 0,
        });
        let bad = if o.kind != kind {
            let (x, y) = if *o.kind < *kind { (&*o.kind, kind) } else { (kind, &*o.kind) };
            Some(format!("({x} with {y}): call {seq} on communicator {comm}: rank {rank} is in {kind}, another rank in {}", o.kind))
        } else if len.is_some() && o.len.is_some() && len != o.len {
            Some(format!("(sizes of {kind}): call {seq}: rank {rank} passes {len:?} bytes, another rank {:?}", o.len))
        } else {
            None
        };
        if o.len.is_none() {
            o.len = len;
        }
        o.arrived[rank] = true;
        o.data[rank] = data;
        bad
    });
    if let Some(m) = mismatch {
        simrt::violation(LOCKSTEP, format!("ranks are out of step {m}"));
    }
    simrt::bump();
    if n > 1 && (need_all || rank != 0) {
        simrt::wait_until(move || {
            STATE
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .as_ref()
                .and_then(|s| s.comms.get(&comm)?.ops.get(&seq))
                .is_none_or(|o| if need_all { o.arrived.iter().all(|x| *x) } else { o.arrived[0] })
        });
    }
    if simrt::dying() {
        return (vec![], 0);
    }
    st(|s| {
        let o = s.comms.get_mut(&comm).unwrap().ops.get_mut(&seq).unwrap();
        let first = o.left == 0;
        o.left += 1;
        let d = o.data.clone();
        if first {
            let v = once(s, &d);
            s.comms.get_mut(&comm).unwrap().ops.get_mut(&seq).unwrap().out = v;
        }
        let c = s.comms.get_mut(&comm).unwrap();
        let o = c.ops.get_mut(&seq).unwrap();
        let out = o.out;
        if o.left == n {
            c.ops.remove(&seq);
        }
        (d, out)
    })
}

// ------------------------------------------------------------------ rsmpi surface
#[derive(Debug)]
pub struct Universe {
    comm: u64,
    rank: usize,
}
impl Universe {
    pub fn world(&self) -> SimpleCommunicator {
        SimpleCommunicator { comm: self.comm, rank: self.rank, size: st(|s| s.comms[&self.comm].members.len()) }
    }
}
#[derive(Debug, Clone)]
pub struct SimpleCommunicator {
    comm: u64,
    rank: usize,
    size: usize,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Color(i32);
impl Color {
    pub fn with_value(v: i32) -> Self {
        assert!(v >= 0, "Value of color must be non-negative.");
        Color(v)
    }
    pub fn undefined() -> Self {
        Color(-1)
    }
}
pub trait Communicator {
    fn rank(&self) -> i32;
    fn size(&self) -> i32;
    fn split_by_color_with_key(&self, c: Color, key: i32) -> Option<SimpleCommunicator>;
    fn split_by_color(&self, c: Color) -> Option<SimpleCommunicator> {
        self.split_by_color_with_key(c, 0)
    }
}
impl Communicator for SimpleCommunicator {
    fn rank(&self) -> i32 {
        self.rank as i32
    }
    fn size(&self) -> i32 {
        self.size as i32
    }
    fn split_by_color_with_key(&self, c: Color, key: i32) -> Option<SimpleCommunicator> {
        let mut d = c.0.to_le_bytes().to_vec();
        d.extend(key.to_le_bytes());
        let me = self.comm;
        let parse = |d: &[u8]| {
            (
                i32::from_le_bytes(d[..4].try_into().unwrap()),
                i32::from_le_bytes(d[4..8].try_into().unwrap()),
            )
        };
        let (all, base) = collective(self.comm, self.rank, "split", None, d, true, move |s, all| {
            let base = s.next + 1;
            let members = s.comms[&me].members.clone();
            let mut colors: Vec<i32> = all.iter().map(|d| parse(d).0).collect();
            colors.sort();
            colors.dedup();
            for c in colors {
                s.next += 1;
                let mut v: Vec<(i32, usize)> =
                    all.iter().enumerate().filter(|(_, d)| parse(d).0 == c).map(|(i, d)| (parse(d).1, i)).collect();
                v.sort();
                let m: Vec<usize> = v.iter().map(|x| members[x.1]).collect();
                s.comms.insert(s.next, Comm { seq: vec![0; m.len()], members: m, ops: BTreeMap::new() });
            }
            base
        });
        if all.is_empty() || c.0 < 0 {
            return None;
        }
        let mut colors: Vec<i32> = all.iter().map(|d| parse(d).0).collect();
        colors.sort();
        colors.dedup();
        let id = base + colors.iter().position(|x| *x == c.0).unwrap() as u64;
        let mut v: Vec<(i32, usize)> =
            all.iter().enumerate().filter(|(_, d)| parse(d).0 == c.0).map(|(i, d)| (parse(d).1, i)).collect();
        v.sort();
        let rank = v.iter().position(|x| x.1 == self.rank).unwrap();
        Some(SimpleCommunicator { comm: id, rank, size: v.len() })
    }
}

#[allow(non_camel_case_types)]
#[repr(C)]
pub struct ompi_win_t {
    _private: [u8; 0],
}

#[allow(non_snake_case)]
pub unsafe extern "C-unwind" fn MPI_Finalize() -> i32 {
    if simrt::dying() {
        return 0;
    }
    let p = simrt::current_proc();
    let (comm, rank) = st(|s| s.ranks.get(&p).copied()).unwrap_or((0, 0));
    if comm != 0 {
        collective(comm, rank, "finalize", None, vec![], true, |_, _| 0);
        let n = live_windows(comm);
        if n > 0 && rank == 0 {
            simrt::violation(WINDOWS, format!("{n} MPI window(s) still allocated at MPI_Finalize"));
        }
        simrt::probe("mpi.finalized");
        st(|s| s.done.insert(p));
    }
    0
}

// ------------------------------------------------------------------ gkr_engine surface
#[derive(Clone, Debug, Default)]
pub struct MPIConfig<'a> {
    pub universe: Option<&'a Universe>,
    pub world: Option<&'a SimpleCommunicator>,
    pub world_size_override: Option<usize>,
}
impl<'a> MPIConfig<'a> {
    pub fn init() -> Option<Universe> {
        let p = simrt::current_proc();
        simrt::yield_now();
        st(|s| s.ranks.get(&p).copied()).map(|(comm, rank)| Universe { comm, rank })
    }
    pub fn prover_new(universe: Option<&'a Universe>, world: Option<&'a SimpleCommunicator>) -> Self {
        MPIConfig { universe, world, world_size_override: None }
    }
    pub fn verifier_new(n: i32) -> Self {
        MPIConfig { universe: None, world: None, world_size_override: Some(n as usize) }
    }
    pub fn gather_to_all(&self, kind: &str, b: &[u8]) -> Vec<u8> {
        match self.world {
            None => b.to_vec(),
            Some(w) => {
                collective(w.comm, w.rank, kind, Some(b.len()), b.to_vec(), true, |_, _| 0).0.concat()
            }
        }
    }
}

pub trait MPIEngine {
    fn world_size(&self) -> usize;
    fn world_rank(&self) -> usize;
    fn is_root(&self) -> bool {
        self.world_rank() == 0
    }
    fn is_single_process(&self) -> bool {
        self.world_size() == 1
    }
    fn root_broadcast_bytes(&self, bytes: &mut Vec<u8>);
    fn root_broadcast_f<F: Copy>(&self, f: &mut F);
    fn barrier(&self);
    fn gather_vec<F: Field>(&self, local: &[F], global: &mut Vec<F>);
    fn create_shared_mem(&self, n_bytes: usize) -> (*mut u8, *mut ompi_win_t);
    fn free_shared_mem(&self, win: &mut *mut ompi_win_t);
    fn consume_obj_and_create_shared<T: MPISharedMemory>(&self, obj: Option<T>) -> (T, *mut ompi_win_t);
}

const CANARY: u8 = 0xC7;

impl MPIEngine for MPIConfig<'_> {
    fn world_size(&self) -> usize {
        self.world_size_override.unwrap_or(self.world.map_or(1, |w| w.size))
    }
    fn world_rank(&self) -> usize {
        self.world.map_or(0, |w| w.rank)
    }
    fn root_broadcast_bytes(&self, bytes: &mut Vec<u8>) {
        let Some(w) = self.world else { return };
        let (d, _) =
            collective(w.comm, w.rank, "bcast", Some(bytes.len()), bytes.clone(), false, |_, _| 0);
        if let Some(d) = d.first() {
            // MPI delivers into the buffer the receiver provided
            let k = d.len().min(bytes.len());
            bytes[..k].copy_from_slice(&d[..k]);
        }
    }
    fn root_broadcast_f<F: Copy>(&self, f: &mut F) {
        let n = std::mem::size_of::<F>();
        let p = f as *mut F as *mut u8;
        let mut b = unsafe { std::slice::from_raw_parts(p, n) }.to_vec();
        self.root_broadcast_bytes(&mut b);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) };
    }
    fn barrier(&self) {
        let Some(w) = self.world else { return };
        collective(w.comm, w.rank, "barrier", None, vec![], true, |_, _| 0);
    }
    fn gather_vec<F: Field>(&self, local: &[F], global: &mut Vec<F>) {
        let mut b = vec![];
        for x in local {
            x.serialize_into(&mut b).unwrap();
        }
        let all = self.gather_to_all("gather", &b);
        if self.is_root() {
            let mut r = &all[..];
            global.clear();
            while !r.is_empty() {
                global.push(F::deserialize_from(&mut r).unwrap());
            }
        }
    }
    fn create_shared_mem(&self, n_bytes: usize) -> (*mut u8, *mut ompi_win_t) {
        let p = simrt::current_proc();
        let make = move |s: &mut State, n: usize| {
            let (start, mapped) = region::map(n);
            unsafe {
                std::ptr::write_bytes(start as *mut u8, 0xA5, n);
                std::ptr::write_bytes((start + n) as *mut u8, CANARY, mapped - n);
            }
            s.next += 1;
            let job = root_job(s, p);
            s.wins.insert(s.next, Win { start, mapped, bytes: n, freed: false, job });
            s.next
        };
        let id = match self.world {
            None => st(|s| make(s, n_bytes)),
            Some(w) => {
                let d = n_bytes.to_le_bytes().to_vec();
                collective(w.comm, w.rank, "win_create", None, d, true, move |s, all| {
                    make(s, usize::from_le_bytes(all[0][..8].try_into().unwrap()))
                })
                .1
            }
        };
        if simrt::dying() {
            return (std::ptr::null_mut(), std::ptr::null_mut());
        }
        simrt::probe("mpi.windows");
        (st(|s| s.wins[&id].start) as *mut u8, id as usize as *mut ompi_win_t)
    }
    fn free_shared_mem(&self, win: &mut *mut ompi_win_t) {
        if simrt::dying() {
            return;
        }
        let id = *win as usize as u64;
        if id == 0 {
            simrt::violation(WINDOWS, "a null or already freed window is freed".into());
            return;
        }
        let me = simrt::current_proc();
        let held = st(|s| {
            let w = s.wins.get(&id)?;
            let r = (me, w.start)..(me, w.start + w.mapped);
            Some(s.images.range(r).count())
        });
        if held.is_some_and(|n| n > 0) {
            simrt::violation(
                WINDOWS,
                format!("a window is freed while live vectors refer to it: {} of them in process {me}", held.unwrap()),
            );
        }
        let done = move |s: &mut State, all: &[Vec<u8>]| {
            if all.iter().any(|d| d[..] != id.to_le_bytes()[..]) {
                return 2;
            }
            let w = s.wins.get_mut(&id).unwrap();
            if w.freed {
                return 3;
            }
            w.freed = true;
            let tail =
                unsafe { std::slice::from_raw_parts((w.start + w.bytes) as *const u8, w.mapped - w.bytes) };
            let ok = tail.iter().all(|b| *b == CANARY);
            region::retire(w.start, w.mapped);
            if ok {
                0
            } else {
                1
            }
        };
        let r = match self.world {
            None => st(|s| done(s, &[id.to_le_bytes().to_vec()])),
            Some(w) => {
                collective(w.comm, w.rank, "win_free", None, id.to_le_bytes().to_vec(), true, done).1
            }
        };
        match r {
            1 => simrt::violation(IMAGE, "a write went past the end of an MPI window".into()),
            2 => simrt::violation(WINDOWS, "ranks free different windows in the same call".into()),
            3 => simrt::violation(WINDOWS, "an MPI window is freed twice".into()),
            _ => {}
        }
        *win = std::ptr::null_mut();
    }
    fn consume_obj_and_create_shared<T: MPISharedMemory>(&self, obj: Option<T>) -> (T, *mut ompi_win_t) {
        assert!(!self.is_root() || obj.is_some(), "the root must provide the object");
        let n = obj.as_ref().map_or(0, |o| o.bytes_size());
        let (start, win) = self.create_shared_mem(n);
        if simrt::dying() {
            simrt::die_if_killed();
        }
        if let Some(o) = obj {
            let mut p = start;
            o.to_memory(&mut p);
            let used = p as usize - start as usize;
            if used != n {
                simrt::violation(IMAGE, format!("bytes_size is {n}, to_memory wrote {used}"));
            }
        }
        self.barrier();
        let mut p = start;
        let o = T::new_from_memory(&mut p);
        let size = st(|s| s.wins[&(win as usize as u64)].bytes);
        if p as usize - start as usize != size {
            simrt::violation(
                IMAGE,
                format!("new_from_memory consumed {} of {size} bytes", p as usize - start as usize),
            );
        }
        (o, win)
    }
}

// ------------------------------------------------------------------ shared memory images
pub trait MPISharedMemory {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
fn pad(n: usize) -> usize {
    n.div_ceil(8) * 8
}
macro_rules! plain {
    ($($t:ty),*) => {$(
        impl MPISharedMemory for $t {
            fn bytes_size(&self) -> usize {
                pad(std::mem::size_of::<$t>())
            }
            fn to_memory(&self, ptr: &mut *mut u8) {
                unsafe {
                    (*ptr as *mut $t).write_unaligned(*self);
                    *ptr = ptr.add(self.bytes_size());
                }
            }
            fn new_from_memory(ptr: &mut *mut u8) -> Self {
                unsafe {
                    let v = (*ptr as *const $t).read_unaligned();
                    *ptr = ptr.add(pad(std::mem::size_of::<$t>()));
                    v
                }
            }
            fn discard_control_of_shared_mem(self) {}
        }
    )*};
}
plain!(usize, u8, u16, u32, u64, i32, i64, bool);
impl<T> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        8 + pad(std::mem::size_of_val(self.as_slice()))
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        unsafe {
            self.len().to_memory(ptr);
            let n = std::mem::size_of_val(self.as_slice());
            std::ptr::copy_nonoverlapping(self.as_ptr() as *const u8, *ptr, n);
            *ptr = ptr.add(pad(n));
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        unsafe {
            let n = usize::new_from_memory(ptr);
            let v = Vec::from_raw_parts(*ptr as *mut T, n, n);
            if n * std::mem::size_of::<T>() > 0 && region::contains(*ptr as usize) {
                let k = (simrt::current_proc(), *ptr as usize);
                st(|s| s.images.insert(k));
            }
            *ptr = ptr.add(pad(n * std::mem::size_of::<T>()));
            v
        }
    }
    fn discard_control_of_shared_mem(self) {
        let k = (simrt::current_proc(), self.as_ptr() as usize);
        st(|s| s.images.remove(&k));
        std::mem::forget(self);
    }
}
impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize {
        self.0.bytes_size() + self.1.bytes_size()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let a = A::new_from_memory(ptr);
        let b = B::new_from_memory(ptr);
        (a, b)
    }
    fn discard_control_of_shared_mem(self) {
        self.0.discard_control_of_shared_mem();
        self.1.discard_control_of_shared_mem();
    }
}
impl<T: MPISharedMemory> MPISharedMemory for Option<T> {
    fn bytes_size(&self) -> usize {
        8 + self.as_ref().map_or(0, |x| x.bytes_size())
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.is_some().to_memory(ptr);
        if let Some(x) = self {
            x.to_memory(ptr);
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        bool::new_from_memory(ptr).then(|| T::new_from_memory(ptr))
    }
    fn discard_control_of_shared_mem(self) {
        if let Some(x) = self {
            x.discard_control_of_shared_mem();
        }
    }
}
#[allow(dead_code)]
fn _t<T: Debug>() {}
