//! Counting allocator: knows how many live bytes were allocated while broker code ran.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static TAG: Cell<bool> = const { Cell::new(false) };
}
static mut LIVE: i64 = 0;
static mut PEAK: i64 = 0;
static mut BIGGEST: usize = 0;

pub struct Counting;

#[global_allocator]
static GLOBAL: Counting = Counting;

const HDR: usize = 16;

fn pad(l: &Layout) -> usize {
    l.align().max(HDR)
}

unsafe fn note(p: *mut u8, size: usize) {
    let broker = TAG.try_with(|t| t.get()).unwrap_or(false);
    // the header sits in the 16 bytes before the block
    let h = p.sub(HDR) as *mut u64;
    *h = broker as u64;
    if broker {
        LIVE += size as i64;
        if LIVE > PEAK {
            PEAK = LIVE;
        }
        if size > BIGGEST {
            BIGGEST = size;
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pad = pad(&l);
        let Some(total) = l.size().checked_add(pad) else { return std::ptr::null_mut() };
        let p = System.alloc(Layout::from_size_align_unchecked(total, pad));
        if p.is_null() {
            return p;
        }
        let p = p.add(pad);
        note(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let pad = pad(&l);
        let Some(total) = l.size().checked_add(pad) else { return std::ptr::null_mut() };
        let p = System.alloc_zeroed(Layout::from_size_align_unchecked(total, pad));
        if p.is_null() {
            return p;
        }
        let p = p.add(pad);
        note(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *(p.sub(HDR) as *mut u64) == 1 {
            LIVE -= l.size() as i64;
        }
        let pad = pad(&l);
        System.dealloc(p.sub(pad), Layout::from_size_align_unchecked(l.size() + pad, pad));
    }
}

/// Sets who owns what is allocated until the guard is dropped
pub struct Owner(bool);
impl Owner {
    pub fn broker() -> Self {
        Owner(TAG.with(|t| t.replace(true)))
    }
    pub fn sim() -> Self {
        Owner(TAG.with(|t| t.replace(false)))
    }
    pub fn set(broker: bool) -> Self {
        Owner(TAG.with(|t| t.replace(broker)))
    }
}
impl Drop for Owner {
    fn drop(&mut self) {
        TAG.with(|t| t.set(self.0));
    }
}
pub fn is_broker() -> bool {
    TAG.with(|t| t.get())
}
/// (live bytes, peak of live bytes since the last reset, biggest single allocation)
pub fn stats() -> (i64, i64, usize) {
    unsafe { (LIVE, PEAK, BIGGEST) }
}
pub fn reset_peak() {
    unsafe {
        PEAK = LIVE;
        BIGGEST = 0;
    }
}
