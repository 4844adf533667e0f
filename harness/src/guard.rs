//! A checking allocator (guard build only) and the record of allocations made by the library.
use std::cell::Cell;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
}

/// Allocations made from here to the end of the value's life belong to a user component.
pub struct Pause(bool);
impl Pause {
    pub fn new() -> Pause {
        Pause(TRACK.with(|t| t.replace(false)))
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        TRACK.with(|t| t.set(self.0));
    }
}
/// Allocations made during the value's life belong to the library.
pub struct Track(bool);
impl Track {
    pub fn new() -> Track {
        Track(TRACK.with(|t| t.replace(true)))
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        TRACK.with(|t| t.set(self.0));
    }
}

#[cfg(gv_guard)]
pub mod alloc {
    use super::TRACK;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    /// size, alignment, a magic word and the red zone before the block; a red zone behind it.
    const HEAD: usize = 64;
    const TAIL: usize = 32;
    const LIVE: u64 = 0x11FE_A110_C8ED_0001;
    const DEAD: u64 = 0xDEAD_A110_C8ED_0002;
    const Z: u8 = 0xB7;

    pub struct Guard;

    /// Events of the tracked allocations: (+/-)address, size, alignment.
    #[derive(Clone, Copy)]
    pub struct Ev {
        pub free: bool,
        pub p: usize,
        pub size: usize,
        pub align: usize,
    }
    const CAP: usize = 1 << 16;
    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static N: Cell<usize> = const { Cell::new(0) };
        static BUF: Cell<*mut Ev> = const { Cell::new(std::ptr::null_mut()) };
    }

    /// Allocations are recorded while tracked, releases always.
    fn note(free: bool, p: usize, size: usize, align: usize) {
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        if on && (free || TRACK.try_with(|t| t.get()).unwrap_or(false)) {
            let i = N.with(|n| n.replace(n.get() + 1));
            if i < CAP {
                BUF.with(|b| unsafe { b.get().add(i).write(Ev { free, p, size, align }) })
            }
        }
    }
    /// Starts recording on this thread.
    pub fn start() {
        BUF.with(|b| {
            if b.get().is_null() {
                b.set(unsafe { System.alloc(Layout::array::<Ev>(CAP).unwrap()) } as *mut Ev);
            }
        });
        N.with(|n| n.set(0));
        ON.with(|o| o.set(true));
    }
    /// Ends it; None if there was too much to record.
    pub fn take() -> Option<Vec<Ev>> {
        ON.with(|o| o.set(false));
        let n = N.with(|n| n.get());
        if n > CAP {
            return None;
        }
        Some(BUF.with(|b| unsafe { std::slice::from_raw_parts(b.get(), n) }.to_vec()))
    }

    pub fn die(what: &str, size: usize) -> ! {
        // no allocation from here on
        let mut b = [0u8; 200];
        let mut n = 0;
        for s in ["MEMORY ", what, " size "] {
            for c in s.bytes() {
                b[n] = c;
                n += 1;
            }
        }
        let mut d = [0u8; 20];
        let mut k = 0;
        let mut x = size;
        loop {
            d[k] = b'0' + (x % 10) as u8;
            k += 1;
            x /= 10;
            if x == 0 {
                break;
            }
        }
        for i in (0..k).rev() {
            b[n] = d[i];
            n += 1;
        }
        b[n] = b'\n';
        unsafe {
            libc_write(2, b.as_ptr(), n + 1);
            libc_exit(5)
        }
    }
    extern "C" {
        #[link_name = "write"]
        fn libc_write(fd: i32, p: *const u8, n: usize) -> isize;
        #[link_name = "_exit"]
        fn libc_exit(c: i32) -> !;
    }

    /// The address handed out has the alignment asked for and no larger one.
    fn front(align: usize) -> usize {
        HEAD.next_multiple_of(2 * align) + align
    }
    fn under(align: usize) -> usize {
        (2 * align).max(16)
    }
    unsafe fn check(p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *const u64;
        let (magic, size, align) = (h.read_unaligned(), h.add(1).read_unaligned() as usize, h.add(2).read_unaligned() as usize);
        if magic == DEAD {
            die("freed twice", l.size());
        }
        if magic != LIVE {
            die("not an allocation, or written before its start", l.size());
        }
        if size != l.size() || align != l.align() {
            die("freed with another layout than allocated with", l.size());
        }
        for i in 24..HEAD {
            if *p.sub(HEAD).add(i) != Z {
                die("written before its start", size);
            }
        }
        for i in 0..TAIL {
            if *p.add(size + i) != Z {
                die("written beyond its end", size);
            }
        }
    }
    unsafe impl GlobalAlloc for Guard {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() == 0 {
                die("allocation of zero bytes", 0);
            }
            let f = front(l.align());
            let total = match l.size().checked_add(f + TAIL) {
                Some(t) if t <= isize::MAX as usize - 4096 => t,
                _ => return std::ptr::null_mut(),
            };
            let base = System.alloc(Layout::from_size_align_unchecked(total, under(l.align())));
            if base.is_null() {
                return base;
            }
            let p = base.add(f);
            let h = p.sub(HEAD) as *mut u64;
            h.write_unaligned(LIVE);
            h.add(1).write_unaligned(l.size() as u64);
            h.add(2).write_unaligned(l.align() as u64);
            std::ptr::write_bytes(p.sub(HEAD).add(24), Z, HEAD - 24);
            // what was never written is recognisable
            std::ptr::write_bytes(p, 0xA7, l.size().min(1 << 20));
            std::ptr::write_bytes(p.add(l.size()), Z, TAIL);
            note(false, p as usize, l.size(), l.align());
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            note(true, p as usize, l.size(), l.align());
            check(p, l);
            (p.sub(HEAD) as *mut u64).write_unaligned(DEAD);
            std::ptr::write_bytes(p, 0xD7, l.size().min(1 << 20));
            let f = front(l.align());
            System.dealloc(p.sub(f), Layout::from_size_align_unchecked(l.size() + f + TAIL, under(l.align())));
        }
    }
}
