//! Memory instrumentation: an allocator that poisons what it hands out, and
//! buffers that end (or begin) at an inaccessible page.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Poison;
const LIM: usize = 1 << 14;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0xA5, l.size().min(LIM)); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0x5A, l.size().min(LIM));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
}

const PAGE: usize = 4096;
const SIZE: usize = 1 << 20;
struct Map(*mut u8);
impl Map {
    fn new() -> Map {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), SIZE + 2 * PAGE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize != -1);
            assert!(libc::mprotect(p as *mut _, PAGE, libc::PROT_NONE) == 0);
            assert!(libc::mprotect(p.add(PAGE + SIZE) as *mut _, PAGE, libc::PROT_NONE) == 0);
            Map(p.add(PAGE))
        }
    }
}
impl Drop for Map {
    fn drop(&mut self) { unsafe { libc::munmap(self.0.sub(PAGE) as *mut _, SIZE + 2 * PAGE); } }
}
thread_local! { static FREE: std::cell::RefCell<Vec<Map>> = const { std::cell::RefCell::new(vec![]) }; }

/// Runs `f` on a copy of the bytes next to an inaccessible page; the bytes beyond
/// the other end are poison.
pub fn with_guard<T>(bytes: &[u8], front: bool, f: impl FnOnce(&[u8]) -> T) -> T {
    if bytes.len() > SIZE { return f(bytes); }
    let m = FREE.with(|x| x.borrow_mut().pop()).unwrap_or_else(Map::new);
    let n = bytes.len();
    let r = unsafe {
        let at = if front { m.0 } else { m.0.add(SIZE - n) };
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), at, n);
        let pad = 64.min(SIZE - n);
        if front { std::ptr::write_bytes(at.add(n), 0xC3, pad) } else { std::ptr::write_bytes(at.sub(pad), 0xC3, pad) }
        f(std::slice::from_raw_parts(at, n))
    };
    FREE.with(|x| x.borrow_mut().push(m));
    r
}
