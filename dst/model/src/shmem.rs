//! The `shared_memory` crate: named OS segments reached through link files.
use crate::mpi::region;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Mutex;

struct Seg {
    start: usize,
    mapped: usize,
    data: usize,
    len: usize,
    maps: usize,
    unlinked: bool,
    retired: bool,
}
#[derive(Default)]
struct State {
    links: BTreeMap<String, u64>,
    segs: BTreeMap<u64, Seg>,
    next: u64,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}
pub fn reset() {
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn segment_at(addr: usize) -> Option<String> {
    let g = STATE.try_lock().ok()?;
    let s = g.as_ref()?;
    s.segs.iter().find(|(_, x)| addr >= x.start && addr < x.start + x.mapped + 4096).map(|(k, x)| {
        format!(
            "shared segment {k} ({} bytes, released={}), offset {}",
            x.len,
            x.retired,
            addr as i64 - x.data as i64
        )
    })
}
pub fn links() -> Vec<String> {
    st(|s| s.links.keys().cloned().collect())
}
/// Contents currently published under a link.
pub fn peek(name: &str) -> Option<Vec<u8>> {
    st(|s| {
        let x = s.segs.get(s.links.get(name)?)?;
        Some(unsafe { std::slice::from_raw_parts(x.data as *const u8, x.len) }.to_vec())
    })
}
/// Overwrites bytes of a published segment (memory corruption fault).
pub fn poke(name: &str, off: usize, b: u8) {
    st(|s| {
        if let Some(x) = s.links.get(name).and_then(|i| s.segs.get(i)) {
            if off < x.len {
                unsafe { *((x.data + off) as *mut u8) = b };
            }
        }
    })
}

#[derive(Debug)]
pub enum ShmemError {
    MapSizeZero,
    NoLinkOrOsId,
    LinkExists,
    LinkDoesNotExist,
    LinkCreateFailed(std::io::Error),
    LinkOpenFailed(std::io::Error),
    MapCreateFailed(u32),
    MapOpenFailed(u32),
    MappingIdExists,
    UnknownOsError(u32),
}
impl std::fmt::Display for ShmemError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ShmemError {}

#[derive(Clone, Default)]
pub struct ShmemConf {
    owner: bool,
    os_id: Option<String>,
    overwrite: bool,
    flink: Option<String>,
    size: usize,
}
impl ShmemConf {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn os_id<S: AsRef<str>>(mut self, s: S) -> Self {
        self.os_id = Some(s.as_ref().into());
        self
    }
    pub fn force_create_flink(mut self) -> Self {
        self.overwrite = true;
        self
    }
    pub fn flink<S: AsRef<Path>>(mut self, p: S) -> Self {
        self.flink = Some(p.as_ref().to_string_lossy().into_owned());
        self
    }
    pub fn size(mut self, n: usize) -> Self {
        self.size = n;
        self
    }
    fn key(&self) -> Result<String, ShmemError> {
        self.flink.clone().or(self.os_id.as_ref().map(|s| format!("os:{s}"))).ok_or(ShmemError::NoLinkOrOsId)
    }
    pub fn create(self) -> Result<Shmem, ShmemError> {
        if self.size == 0 {
            return Err(ShmemError::MapSizeZero);
        }
        let k = self.key()?;
        crate::watch::effect("creating shared memory");
        simrt::yield_now();
        if simrt::fault("shm.create") {
            return Err(ShmemError::MapCreateFailed(libc::ENOSPC as u32));
        }
        let r = st(|s| {
            if s.links.contains_key(&k) && !self.overwrite {
                return Err(ShmemError::LinkExists);
            }
            let (start, mapped) = region::map(self.size);
            // end-aligned before the guard page; fresh OS segments are zero
            let data = (start + mapped - self.size) & !15;
            unsafe { std::ptr::write_bytes(start as *mut u8, 0, mapped) };
            s.next += 1;
            s.segs.insert(
                s.next,
                Seg { start, mapped, data, len: self.size, maps: 1, unlinked: false, retired: false },
            );
            s.links.insert(k.clone(), s.next);
            Ok((s.next, data))
        });
        let (seg, data) = r?;
        simrt::log(|| format!("shm create {k} size={} seg={seg}", self.size));
        Ok(Shmem { seg, data, len: self.size, link: k, owner: true, gen: simrt::generation() })
    }
    pub fn open(self) -> Result<Shmem, ShmemError> {
        let k = self.key()?;
        crate::watch::effect("opening shared memory");
        simrt::yield_now();
        if simrt::fault("shm.open") {
            return Err(ShmemError::MapOpenFailed(libc::EMFILE as u32));
        }
        let r = st(|s| {
            let id = *s.links.get(&k).ok_or(ShmemError::LinkDoesNotExist)?;
            let x = s.segs.get_mut(&id).unwrap();
            if x.unlinked {
                return Err(ShmemError::MapOpenFailed(libc::ENOENT as u32));
            }
            x.maps += 1;
            Ok((id, x.data, x.len))
        });
        crate::watch::opened(&k, r.is_ok());
        let (seg, data, len) = r?;
        simrt::log(|| format!("shm open {k} seg={seg}"));
        Ok(Shmem { seg, data, len, link: k, owner: self.owner, gen: simrt::generation() })
    }
}

pub struct Shmem {
    seg: u64,
    data: usize,
    len: usize,
    link: String,
    owner: bool,
    gen: u64,
}
impl Shmem {
    pub fn as_ptr(&self) -> *mut u8 {
        self.data as *mut u8
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn is_owner(&self) -> bool {
        self.owner
    }
    pub fn set_owner(&mut self, b: bool) -> bool {
        std::mem::replace(&mut self.owner, b)
    }
    pub fn get_flink_path(&self) -> Option<&Path> {
        Some(Path::new(&self.link))
    }
    /// # Safety
    /// as in the original
    pub unsafe fn as_slice(&self) -> &[u8] {
        std::slice::from_raw_parts(self.as_ptr(), self.len)
    }
    /// # Safety
    /// as in the original
    pub unsafe fn as_slice_mut(&mut self) -> &mut [u8] {
        std::slice::from_raw_parts_mut(self.as_ptr(), self.len)
    }
}
impl Drop for Shmem {
    fn drop(&mut self) {
        if self.gen != simrt::generation() || simrt::dying() {
            return;
        }
        if !std::thread::panicking() {
            simrt::yield_now();
        }
        crate::watch::dropping(&self.link, self.owner);
        st(|s| {
            if self.owner {
                s.links.remove(&self.link);
                if let Some(x) = s.segs.get_mut(&self.seg) {
                    x.unlinked = true;
                }
            }
            if let Some(x) = s.segs.get_mut(&self.seg) {
                x.maps -= 1;
                if x.maps == 0 && x.unlinked && !x.retired {
                    x.retired = true;
                    region::retire(x.start, x.mapped);
                }
            }
        });
        simrt::log(|| format!("shm drop {} seg={} owner={}", self.link, self.seg, self.owner));
        simrt::bump();
    }
}
