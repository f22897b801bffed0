//! Counts what the process holds on the heap (plain build only; sanitizers replace the allocator).
#[cfg(rn_faults)]
mod on {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
    pub static BYTES: AtomicI64 = AtomicI64::new(0);
    pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
    pub static CALLS: AtomicI64 = AtomicI64::new(0);
    pub static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if ON.load(Relaxed) && !p.is_null() {
                BYTES.fetch_add(l.size() as i64, Relaxed);
                BLOCKS.fetch_add(1, Relaxed);
                CALLS.fetch_add(1, Relaxed);
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = System.alloc_zeroed(l);
            if ON.load(Relaxed) && !p.is_null() {
                BYTES.fetch_add(l.size() as i64, Relaxed);
                BLOCKS.fetch_add(1, Relaxed);
                CALLS.fetch_add(1, Relaxed);
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if ON.load(Relaxed) {
                BYTES.fetch_sub(l.size() as i64, Relaxed);
                BLOCKS.fetch_sub(1, Relaxed);
            }
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if ON.load(Relaxed) && !q.is_null() {
                BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
                CALLS.fetch_add(1, Relaxed);
            }
            q
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}
#[cfg(rn_faults)]
pub fn start() {
    on::ON.store(true, std::sync::atomic::Ordering::SeqCst);
}
/// (live bytes, live blocks, allocations so far) since start()
#[cfg(rn_faults)]
pub fn live() -> (i64, i64, i64) {
    use std::sync::atomic::Ordering::SeqCst;
    (on::BYTES.load(SeqCst), on::BLOCKS.load(SeqCst), on::CALLS.load(SeqCst))
}
#[cfg(not(rn_faults))]
pub fn start() {}
#[cfg(not(rn_faults))]
pub fn live() -> (i64, i64, i64) {
    (0, 0, 0)
}
