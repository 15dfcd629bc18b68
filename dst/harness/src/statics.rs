//! Each simulated process has its own copy of the library's writable statics. They are found
//! in this program's symbol table, so new ones need no registration.
use std::collections::BTreeMap;
use std::sync::Mutex;

struct Slot {
    addr: usize,
    len: usize,
}
struct All {
    slots: Vec<Slot>,
    pristine: Vec<u8>,
    saved: BTreeMap<usize, Vec<u8>>,
    total: usize,
}
static ALL: Mutex<Option<All>> = Mutex::new(None);

fn u16_(b: &[u8], o: usize) -> usize {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize
}
fn u32_(b: &[u8], o: usize) -> usize {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize
}
fn u64_(b: &[u8], o: usize) -> usize {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize
}
#[no_mangle]
pub static DST_ANCHOR: u8 = 7;

/// Must be called before any simulation.
pub fn init() -> usize {
    let b = std::fs::read("/proc/self/exe").expect("own program");
    let shoff = u64_(&b, 0x28);
    let (shentsize, shnum, shstr) = (u16_(&b, 0x3a), u16_(&b, 0x3c), u16_(&b, 0x3e));
    let sh = |i: usize| shoff + i * shentsize;
    let stroff = u64_(&b, sh(shstr) + 0x18);
    let cstr = |o: usize| {
        let e = b[o..].iter().position(|x| *x == 0).unwrap();
        std::str::from_utf8(&b[o..o + e]).unwrap_or("")
    };
    let mut writable = vec![false; shnum];
    for (i, w) in writable.iter_mut().enumerate() {
        let n = cstr(stroff + u32_(&b, sh(i)));
        *w = n == ".data" || n == ".bss" || n.starts_with(".data.") && !n.starts_with(".data.rel.ro");
    }
    let mut slots = vec![];
    let mut bias = None;
    for i in 0..shnum {
        if u32_(&b, sh(i) + 4) != 2 {
            continue; // SHT_SYMTAB
        }
        let (off, size, link) = (u64_(&b, sh(i) + 0x18), u64_(&b, sh(i) + 0x20), u32_(&b, sh(i) + 0x28));
        let names = u64_(&b, sh(link) + 0x18);
        for k in 0..size / 24 {
            let s = off + k * 24;
            let name = cstr(names + u32_(&b, s));
            let (typ, shndx) = (b[s + 4] & 0xf, u16_(&b, s + 6));
            let (val, len) = (u64_(&b, s + 8), u64_(&b, s + 16));
            if name == "DST_ANCHOR" {
                bias = Some(&DST_ANCHOR as *const u8 as usize - val);
            }
            if typ == 1 && shndx < shnum && writable[shndx] && name.contains("expander_compiler") && len > 0 {
                slots.push(Slot { addr: val, len });
            }
        }
    }
    let bias = bias.expect("anchor symbol");
    slots.sort_by_key(|s| s.addr);
    slots.dedup_by_key(|s| s.addr);
    for s in slots.iter_mut() {
        s.addr += bias;
    }
    let total = slots.iter().map(|s| s.len).sum();
    let n = slots.len();
    let mut a = All { slots, pristine: vec![], saved: BTreeMap::new(), total };
    a.pristine = snapshot(&a);
    *ALL.lock().unwrap() = Some(a);
    n
}
fn snapshot(a: &All) -> Vec<u8> {
    let mut v = Vec::with_capacity(a.total);
    for s in &a.slots {
        v.extend_from_slice(unsafe { std::slice::from_raw_parts(s.addr as *const u8, s.len) });
    }
    v
}
fn restore(a: &All, v: &[u8]) {
    let mut o = 0;
    for s in &a.slots {
        unsafe { std::ptr::copy_nonoverlapping(v[o..].as_ptr(), s.addr as *mut u8, s.len) };
        o += s.len;
    }
}
/// A new run: process 0 starts with the image of a fresh process.
pub fn reset() {
    let mut g = ALL.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(a) = g.as_mut() {
        a.saved.clear();
        let p = std::mem::take(&mut a.pristine);
        restore(a, &p);
        a.pristine = p;
    }
}
pub fn switch(from: usize, to: usize) {
    let mut g = ALL.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(a) = g.as_mut() {
        let now = snapshot(a);
        a.saved.insert(from, now);
        match a.saved.remove(&to) {
            Some(v) => restore(a, &v),
            None => {
                let p = std::mem::take(&mut a.pristine);
                restore(a, &p);
                a.pristine = p;
            }
        }
    }
}
