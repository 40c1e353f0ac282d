//! Memory fenced by inaccessible pages: an access one byte outside the
//! permitted range faults and is reported as a violation.
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, fl: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
pub const PAGE: usize = 4096;

/// `pages` accessible pages between two inaccessible ones.
pub struct Fenced {
    map: *mut u8,
    pages: usize,
    fence: usize,
}
impl Fenced {
    pub fn new(pages: usize) -> Fenced {
        Fenced::reserving(pages, PAGE)
    }
    /// The upper fence is `fence` bytes long (address space only), so that
    /// slices much longer than the accessible pages can be formed.
    pub fn reserving(pages: usize, fence: usize) -> Fenced {
        unsafe {
            let map = mmap(std::ptr::null_mut(), (pages + 1) * PAGE + fence, 0, 0x4022, -1, 0);
            assert!(map as isize != -1, "mmap");
            assert_eq!(mprotect(map.add(PAGE), pages * PAGE, 3), 0);
            Fenced { map, pages, fence }
        }
    }
    pub fn len(&self) -> usize {
        self.pages * PAGE
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    /// first accessible byte
    pub fn lo(&self) -> *mut u8 {
        unsafe { self.map.add(PAGE) }
    }
    /// one past the last accessible byte
    pub fn hi(&self) -> *mut u8 {
        unsafe { self.map.add((self.pages + 1) * PAGE) }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.lo(), self.len()) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn bytes_mut(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.lo(), self.len()) }
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, (self.pages + 1) * PAGE + self.fence);
        }
    }
}
