//! Buffers that end (or begin) exactly at an inaccessible page: any access outside dies at once.
pub struct Guard {
    base: *mut u8,
    total: usize,
    off: usize,
    len: usize,
}
const PAGE: usize = 4096;
impl Guard {
    /// A buffer of `len` bytes; `at_end`: the byte after it is inaccessible, else the byte before it.
    pub fn new(len: usize, at_end: bool) -> Self {
        let body = len.div_ceil(PAGE).max(1) * PAGE;
        let total = body + 2 * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert_ne!(base, libc::MAP_FAILED, "mmap");
            let base = base.cast::<u8>();
            assert_eq!(libc::mprotect(base.add(PAGE).cast(), body, libc::PROT_READ | libc::PROT_WRITE), 0);
            let off = if at_end { PAGE + body - len } else { PAGE };
            // the rest of the accessible pages is a canary
            std::ptr::write_bytes(base.add(PAGE), 0xA5, body);
            Self { base, total, off, len }
        }
    }
    pub fn from(b: &[u8], at_end: bool) -> Self {
        let mut g = Self::new(b.len(), at_end);
        g.get().copy_from_slice(b);
        g
    }
    pub fn get(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.off), self.len) }
    }
    /// The accessible bytes on the other side are untouched.
    pub fn intact(&self) -> bool {
        unsafe {
            let all = std::slice::from_raw_parts(self.base.add(PAGE), self.total - 2 * PAGE);
            let o = self.off - PAGE;
            all[..o].iter().chain(&all[o + self.len..]).all(|b| *b == 0xA5)
        }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}
