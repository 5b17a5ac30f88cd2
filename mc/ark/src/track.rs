//! An allocator that, on request and per thread, records every block: a free with a size other than
//! the allocated one and a second free of a block are reported, and freed blocks are poisoned and
//! kept until the end of the recording, so that a use after free shows up as changed contents.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const CAP: usize = 1 << 14;
#[derive(Clone, Copy)]
struct Rec {
    ptr: *mut u8,
    size: usize,
    align: usize,
    freed: bool,
}
struct Table {
    rec: *mut Rec,
    n: usize,
    double_free: usize,
    mismatch: usize,
    foreign: usize,
    overflow: bool,
}
thread_local! {
    static TABLE: Cell<*mut Table> = const { Cell::new(std::ptr::null_mut()) };
}
pub struct Tracker;
fn table() -> *mut Table {
    TABLE.try_with(|t| t.get()).unwrap_or(std::ptr::null_mut())
}
impl Table {
    unsafe fn find(&self, p: *mut u8) -> Option<*mut Rec> {
        // newest first: an address is unique while the recording runs
        for i in (0..self.n).rev() {
            let r = self.rec.add(i);
            if (*r).ptr == p {
                return Some(r);
            }
        }
        None
    }
}
unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::fine_point();
        let p = System.alloc(l);
        let t = table();
        if !t.is_null() && !p.is_null() {
            let t = &mut *t;
            if t.n < CAP {
                *t.rec.add(t.n) = Rec { ptr: p, size: l.size(), align: l.align(), freed: false };
                t.n += 1;
            } else {
                t.overflow = true;
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sched::fine_point();
        let t = table();
        if t.is_null() {
            return System.dealloc(p, l);
        }
        let t = &mut *t;
        match t.find(p) {
            None => {
                t.foreign += 1;
                // freed by whoever owned it before the recording
                if !t.overflow {
                    System.dealloc(p, l)
                }
            }
            Some(r) => {
                if (*r).freed {
                    t.double_free += 1;
                    return;
                }
                if (*r).size != l.size() || (*r).align != l.align() {
                    t.mismatch += 1;
                }
                (*r).freed = true;
                std::ptr::write_bytes(p, 0xdd, (*r).size);
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        sched::fine_point();
        if table().is_null() {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
#[derive(Debug, Default)]
pub struct Report {
    pub allocated: usize,
    pub live: usize,
    pub double_free: usize,
    pub mismatch: usize,
    pub overflow: bool,
}
/// Is `p` the start of a block allocated in this recording, and is it freed?
pub fn state(p: *const u8) -> Option<(usize, bool)> {
    let t = table();
    if t.is_null() {
        return None;
    }
    unsafe { (*t).find(p as *mut u8).map(|r| ((*r).size, (*r).freed)) }
}
/// Runs `f` with every block this thread allocates recorded.
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Report) {
    unsafe {
        let rl = Layout::array::<Rec>(CAP).unwrap();
        let rec = System.alloc(rl) as *mut Rec;
        let mut t = Table { rec, n: 0, double_free: 0, mismatch: 0, foreign: 0, overflow: false };
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                TABLE.with(|x| x.set(std::ptr::null_mut()));
            }
        }
        TABLE.with(|x| x.set(&mut t));
        let off = Off;
        let v = f();
        drop(off);
        let mut r = Report { allocated: t.n, double_free: t.double_free, mismatch: t.mismatch, overflow: t.overflow, live: 0 };
        for i in 0..t.n {
            let x = *rec.add(i);
            if x.freed {
                System.dealloc(x.ptr, Layout::from_size_align_unchecked(x.size, x.align));
            } else {
                r.live += 1;
            }
        }
        System.dealloc(rec as *mut u8, rl);
        (v, r)
    }
}
