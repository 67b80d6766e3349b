//! An allocator that, once switched on, watches every block: layout mismatches, double and invalid
//! frees, writes after free, and the number of live blocks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Watch {
    on: AtomicBool,
    lock: AtomicBool,
    state: UnsafeCell<State>,
    faults: AtomicUsize,
    pub live: AtomicUsize,
    pub live_bytes: AtomicUsize,
    pub allocs: AtomicUsize,
    pub frees: AtomicUsize,
}
#[derive(Clone, Copy)]
#[repr(C)]
struct Entry {
    ptr: usize,
    size: usize,
    /// 0: never used, 1: live, 2: freed (in quarantine), 3: freed and given back
    align_state: usize,
}
struct State {
    table: *mut Entry,
    mask: usize,
    used: usize,
    quarantine: *mut (usize, usize, usize),
    q_head: usize,
    q_len: usize,
    first: [u8; 256],
    first_len: usize,
}
unsafe impl Sync for Watch {}

const TABLE: usize = 1 << 22;
const Q: usize = 4096;
/// larger blocks are given back at once
const Q_MAX: usize = 1 << 16;
const POISON: u8 = 0xDB;

impl Watch {
    pub const fn new() -> Self {
        Watch {
            on: AtomicBool::new(false),
            lock: AtomicBool::new(false),
            state: UnsafeCell::new(State {
                table: std::ptr::null_mut(),
                mask: 0,
                used: 0,
                quarantine: std::ptr::null_mut(),
                q_head: 0,
                q_len: 0,
                first: [0; 256],
                first_len: 0,
            }),
            faults: AtomicUsize::new(0),
            live: AtomicUsize::new(0),
            live_bytes: AtomicUsize::new(0),
            allocs: AtomicUsize::new(0),
            frees: AtomicUsize::new(0),
        }
    }
    fn locked<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        while self.lock.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.state.get() });
        self.lock.store(false, Ordering::Release);
        r
    }
    pub fn enable(&self) {
        self.locked(|s| unsafe {
            s.table = System.alloc_zeroed(Layout::array::<Entry>(TABLE).unwrap()) as *mut Entry;
            s.mask = TABLE - 1;
            s.quarantine = System.alloc_zeroed(Layout::array::<(usize, usize, usize)>(Q).unwrap()) as *mut _;
        });
        self.on.store(true, Ordering::SeqCst);
    }
    pub fn enabled(&self) -> bool {
        self.on.load(Ordering::Relaxed)
    }
    /// The first fault seen so far.
    pub fn fault(&self) -> Option<String> {
        if self.faults.load(Ordering::SeqCst) == 0 {
            return None;
        }
        let (buf, n) = self.locked(|s| (s.first, s.first_len));
        Some(String::from_utf8_lossy(&buf[..n]).into_owned())
    }
    fn report(&self, s: &mut State, what: &str, numbers: &[usize]) {
        if self.faults.fetch_add(1, Ordering::SeqCst) == 0 {
            let mut n = 0;
            let mut put = |b: &[u8]| {
                for x in b {
                    if n < 256 {
                        s.first[n] = *x;
                        n += 1;
                    }
                }
            };
            put(what.as_bytes());
            for v in numbers {
                put(b" ");
                let mut d = [0u8; 20];
                let mut i = 20;
                let mut v = *v;
                loop {
                    i -= 1;
                    d[i] = b'0' + (v % 10) as u8;
                    v /= 10;
                    if v == 0 {
                        break;
                    }
                }
                put(&d[i..]);
            }
            s.first_len = n;
        }
    }
    /// Index of the entry for `ptr`, or of the free slot for it.
    unsafe fn slot(s: &State, ptr: usize) -> usize {
        let mut i = (ptr >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20 & s.mask;
        loop {
            let e = &*s.table.add(i);
            if e.ptr == ptr || e.ptr == 0 {
                return i;
            }
            i = (i + 1) & s.mask;
        }
    }
    fn born(&self, ptr: usize, l: Layout) {
        self.locked(|s| unsafe {
            if s.used > TABLE / 2 {
                // forget freed blocks when the table fills up
                let old = s.table;
                s.table = System.alloc_zeroed(Layout::array::<Entry>(TABLE).unwrap()) as *mut Entry;
                s.used = 0;
                for k in 0..TABLE {
                    let e = *old.add(k);
                    if e.ptr != 0 && e.align_state & 3 != 3 {
                        let i = Self::slot(s, e.ptr);
                        *s.table.add(i) = e;
                        s.used += 1;
                    }
                }
                System.dealloc(old as *mut u8, Layout::array::<Entry>(TABLE).unwrap());
            }
            let i = Self::slot(s, ptr);
            let e = &mut *s.table.add(i);
            if e.ptr == 0 {
                s.used += 1;
            }
            *e = Entry {
                ptr,
                size: l.size(),
                align_state: l.align() << 2 | 1,
            };
        });
        self.live.fetch_add(1, Ordering::Relaxed);
        self.live_bytes.fetch_add(l.size(), Ordering::Relaxed);
        self.allocs.fetch_add(1, Ordering::Relaxed);
    }
    /// Returns whether the caller has to give the block back to the system.
    unsafe fn died(&self, ptr: *mut u8, l: Layout) -> bool {
        let p = ptr as usize;
        self.locked(|s| {
            let i = Self::slot(s, p);
            let e = &mut *s.table.add(i);
            if e.ptr == 0 {
                // from before the watch was switched on
                return true;
            }
            match e.align_state & 3 {
                1 => {
                    if e.size != l.size() || e.align_state >> 2 != l.align() {
                        let n = [e.size, e.align_state >> 2, l.size(), l.align()];
                        self.report(s, "a block was freed with another layout than it was allocated with (allocated size, align; freed size, align):", &n);
                        // leave it alone: giving it back with the wrong layout is undefined
                        return false;
                    }
                    self.live.fetch_sub(1, Ordering::Relaxed);
                    self.live_bytes.fetch_sub(l.size(), Ordering::Relaxed);
                    self.frees.fetch_add(1, Ordering::Relaxed);
                    std::ptr::write_bytes(ptr, POISON, l.size());
                    if l.size() > Q_MAX {
                        e.align_state = l.align() << 2 | 3;
                        return true;
                    }
                    e.align_state = l.align() << 2 | 2;
                    if s.q_len == Q {
                        let (op, os, oa) = *s.quarantine.add(s.q_head);
                        s.q_head = (s.q_head + 1) % Q;
                        s.q_len -= 1;
                        let bytes = std::slice::from_raw_parts(op as *const u8, os);
                        if bytes.iter().any(|b| *b != POISON) {
                            self.report(s, "a block was written to after it was freed (size):", &[os]);
                        }
                        let j = Self::slot(s, op);
                        (*s.table.add(j)).align_state = oa << 2 | 3;
                        System.dealloc(op as *mut u8, Layout::from_size_align_unchecked(os, oa));
                    }
                    let at = (s.q_head + s.q_len) % Q;
                    *s.quarantine.add(at) = (p, l.size(), l.align());
                    s.q_len += 1;
                    false
                }
                _ => {
                    let n = [l.size(), l.align()];
                    self.report(s, "a block was freed twice (size, align):", &n);
                    false
                }
            }
        })
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if self.on.load(Ordering::Relaxed) && !p.is_null() {
            std::ptr::write_bytes(p, 0xCD, l.size());
            self.born(p as usize, l);
        }
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, l: Layout) {
        if !self.on.load(Ordering::Relaxed) || self.died(ptr, l) {
            System.dealloc(ptr, l);
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !self.on.load(Ordering::Relaxed) {
            return System.realloc(ptr, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let p = self.alloc(nl);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(ptr, p, l.size().min(new));
            self.dealloc(ptr, l);
        }
        p
    }
}

#[global_allocator]
pub static WATCH: Watch = Watch::new();
