//! Counts the memory that the code under test asks for: what is allocated within `inside` and not yet freed.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Every block starts with a header that says whether it counts.
pub struct Counting;
impl Counting {
    fn header(l: Layout) -> usize {
        l.align().max(16)
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = Self::header(l);
        let Some(size) = l.size().checked_add(h) else { return std::ptr::null_mut() };
        let Ok(all) = Layout::from_size_align(size, h) else { return std::ptr::null_mut() };
        let on = ON.try_with(|x| x.get()).unwrap_or(false);
        if on {
            let now = LIVE.with(|x| {
                x.set(x.get() + l.size() as i64);
                x.get()
            });
            PEAK.with(|x| x.set(x.get().max(now)));
            // No need to have it: far beyond anything that was received.
            if l.size() > 1 << 36 {
                return std::ptr::null_mut();
            }
        }
        let p = System.alloc(all);
        if p.is_null() {
            return p;
        }
        let p = p.add(h);
        *p.sub(1) = u8::from(on);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = Self::header(l);
        if *p.sub(1) == 1 {
            let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
}

#[global_allocator]
static A: Counting = Counting;

/// A call of the code under test.
pub fn inside<T>(f: impl FnOnce() -> T) -> T {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|x| x.set(self.0));
        }
    }
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
    let _off = Off(ON.with(|x| x.replace(true)));
    f()
}
/// Bytes of this thread allocated inside and not freed; the most there were during the last call.
pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}
pub fn peak() -> i64 {
    PEAK.with(|x| x.get())
}
