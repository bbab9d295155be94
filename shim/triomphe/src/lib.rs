//! Stand-in for the git fork of `triomphe` that /repo/crates/pkt depends on and that cannot be
//! fetched here. Only the surface pkt uses, with the memory layout pkt relies on:
//! `{ count: AtomicUsize, data: HeaderSlice { header, slice } }`, `Arc` being one (fat) pointer to it.
use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
use std::fmt;
use std::mem::size_of;
use std::ops::Deref;
use std::ptr::{self, NonNull};
use std::sync::atomic::{fence, AtomicUsize, Ordering};

#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(C)]
pub struct HeaderSlice<H, T: ?Sized> {
    pub header: H,
    pub slice: T,
}
#[repr(C)]
struct ArcInner<T: ?Sized> {
    count: AtomicUsize,
    data: T,
}
#[repr(transparent)]
pub struct Arc<T: ?Sized> {
    p: NonNull<ArcInner<T>>,
}
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}

impl<T: ?Sized> Arc<T> {
    fn inner(&self) -> &ArcInner<T> {
        unsafe { self.p.as_ref() }
    }
    pub fn count(this: &Self) -> usize {
        this.inner().count.load(Ordering::Acquire)
    }
    pub fn heap_ptr(&self) -> *const std::ffi::c_void {
        self.p.as_ptr() as *const std::ffi::c_void
    }
    pub fn into_raw(this: Self) -> *const T {
        let p: *const T = unsafe { ptr::addr_of!((*this.p.as_ptr()).data) };
        std::mem::forget(this);
        p
    }
}
impl<H> Arc<HeaderSlice<H, [u8]>> {
    /// `f` is handed the zeroed trailing bytes to fill in.
    pub fn from_header_and_fn(header: H, len: usize, f: impl FnOnce(&mut [u8])) -> Self {
        let slice_off = {
            let p: *const ArcInner<HeaderSlice<H, [u8]>> =
                ptr::slice_from_raw_parts(ptr::null::<u8>(), 0) as *const ArcInner<HeaderSlice<H, [u8]>>;
            let _ = p;
            let (hl, _) = Layout::new::<AtomicUsize>().extend(Layout::new::<HeaderSlice<H, [u8; 0]>>()).unwrap();
            let _ = hl;
            let (_, data_off) = Layout::new::<AtomicUsize>().extend(Layout::new::<HeaderSlice<H, [u8; 0]>>()).unwrap();
            data_off + size_of::<H>()
        };
        let (l, _) = Layout::new::<AtomicUsize>().extend(Layout::new::<HeaderSlice<H, [u8; 0]>>()).unwrap();
        let layout = Layout::from_size_align(slice_off + len, l.align()).unwrap().pad_to_align();
        unsafe {
            let raw = alloc(layout);
            if raw.is_null() {
                handle_alloc_error(layout)
            }
            let p: *mut ArcInner<HeaderSlice<H, [u8]>> =
                ptr::slice_from_raw_parts_mut(raw, len) as *mut ArcInner<HeaderSlice<H, [u8]>>;
            ptr::write(ptr::addr_of_mut!((*p).count), AtomicUsize::new(1));
            ptr::write(ptr::addr_of_mut!((*p).data.header), header);
            let s = ptr::addr_of_mut!((*p).data.slice) as *mut u8;
            ptr::write_bytes(s, 0, len);
            f(std::slice::from_raw_parts_mut(s, len));
            debug_assert_eq!(Layout::for_value(&*p), layout);
            Arc { p: NonNull::new_unchecked(p) }
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        let o = self.inner().count.fetch_add(1, Ordering::Relaxed);
        assert!(o < isize::MAX as usize);
        Arc { p: self.p }
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        if self.inner().count.fetch_sub(1, Ordering::Release) != 1 {
            return;
        }
        fence(Ordering::Acquire);
        unsafe {
            let layout = Layout::for_value(self.p.as_ref());
            ptr::drop_in_place(self.p.as_ptr());
            dealloc(self.p.as_ptr() as *mut u8, layout);
        }
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner().data
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.heap_ptr(), f)
    }
}
