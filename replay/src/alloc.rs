//! Checking allocator: guard bands, layout check on free, poisoning, quarantine.
//! Used for every case; the strict part is only on when `STRICT` is set.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct Checking;
pub static STRICT: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static ERRORS: AtomicUsize = AtomicUsize::new(0);
pub static LAST_ERROR: AtomicU64 = AtomicU64::new(0);

const GUARD: usize = 32;
const MAGIC: u64 = 0xC0FFEE_A110C_u64;
const FREED: u64 = 0xDEAD_F4EE_u64;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    offset: usize,
}

fn prefix(align: usize) -> usize {
    let need = std::mem::size_of::<Header>() + GUARD;
    (need + align - 1) / align * align
}

fn error(kind: u64) {
    ERRORS.fetch_add(1, SeqCst);
    LAST_ERROR.store(kind, SeqCst);
}

const QN: usize = 512;
static QUARANTINE: [AtomicUsize; QN] = [const { AtomicUsize::new(0) }; QN];
static QPOS: AtomicUsize = AtomicUsize::new(0);

unsafe fn release(user: *mut u8) {
    let h = user.sub(GUARD + std::mem::size_of::<Header>()) as *mut Header;
    let (size, align, pre) = ((*h).size, (*h).align, (*h).offset);
    for i in 0..size {
        if *user.add(i) != 0xDD {
            error(4);
            break;
        }
    }
    let total = pre + size + GUARD;
    let lay = Layout::from_size_align_unchecked(total, align.max(16));
    System.dealloc(user.sub(pre), lay);
}

pub fn flush_quarantine() {
    for q in &QUARANTINE {
        let p = q.swap(0, SeqCst);
        if p != 0 {
            unsafe { release(p as *mut u8) }
        }
    }
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            // undefined behaviour of the caller of GlobalAlloc::alloc
            error(5);
        }
        let align = l.align().max(16);
        let pre = prefix(align);
        let Some(total) = l.size().checked_add(pre + GUARD) else { return std::ptr::null_mut() };
        let Ok(lay) = Layout::from_size_align(total, align) else { return std::ptr::null_mut() };
        let base = System.alloc(lay);
        if base.is_null() {
            return base;
        }
        let user = base.add(pre);
        let h = user.sub(GUARD + std::mem::size_of::<Header>()) as *mut Header;
        std::ptr::write(h, Header { magic: MAGIC, size: l.size(), align: l.align(), offset: pre });
        std::ptr::write_bytes(user.sub(GUARD), 0xAB, GUARD);
        std::ptr::write_bytes(user.add(l.size()), 0xAB, GUARD);
        if STRICT.load(Relaxed) {
            std::ptr::write_bytes(user, 0xA5, l.size());
        }
        let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(live, Relaxed);
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(GUARD + std::mem::size_of::<Header>()) as *mut Header;
        if (*h).magic != MAGIC {
            // double free or foreign pointer
            error(if (*h).magic == FREED { 1 } else { 6 });
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            error(2);
        }
        let size = (*h).size;
        for i in 0..GUARD {
            if *user.sub(GUARD).add(i) != 0xAB || *user.add(size).add(i) != 0xAB {
                error(3);
                break;
            }
        }
        LIVE.fetch_sub(size, Relaxed);
        (*h).magic = FREED;
        if STRICT.load(Relaxed) {
            std::ptr::write_bytes(user, 0xDD, size);
            let slot = QPOS.fetch_add(1, SeqCst) % QN;
            let old = QUARANTINE[slot].swap(user as usize, SeqCst);
            if old != 0 {
                release(old as *mut u8);
            }
        } else {
            let (align, pre) = ((*h).align, (*h).offset);
            System.dealloc(user.sub(pre), Layout::from_size_align_unchecked(pre + size + GUARD, align.max(16)));
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn describe(kind: u64) -> &'static str {
    match kind {
        1 => "double free",
        2 => "deallocation with a layout different from the allocation's",
        3 => "write outside of an allocation (guard band damaged)",
        4 => "write after free",
        5 => "zero-sized allocation request",
        6 => "free of an invalid pointer",
        _ => "unknown allocation error",
    }
}
