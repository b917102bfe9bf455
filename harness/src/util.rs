//! Running calls of the library under observation: panics become outcomes,
//! allocations are counted, the input in progress is on disk.
use aseprite_loader::loader::AsepriteFile;
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// More than this at once is refused: the process then aborts, which the
/// driver reports together with the input in progress.
pub const LIMIT: usize = 6 << 30;

fn add(n: usize) -> bool {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > LIMIT {
        CUR.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(c, Relaxed);
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block coexist while the content is moved
        if !add(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        CUR.fetch_sub(l.size(), Relaxed);
        q
    }
}

/// peak of live bytes allocated by `f`
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}

pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic,
}
impl<T> Out<T> {
    pub fn st(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic => "panic",
        }
    }
    pub fn kind(&self) -> String {
        match self {
            Out::Err(k) => k.clone(),
            _ => String::new(),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
}
pub fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    call_k(f, |_| String::new())
}
pub fn call_k<T, E>(f: impl FnOnce() -> Result<T, E>, k: impl Fn(&E) -> String) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(k(&e)),
        Err(_) => Out::Panic,
    }
}

/// progress for the watchdog
pub static TICK: AtomicU64 = AtomicU64::new(0);
static CURFILE: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
pub fn cur_open(path: &str) {
    *CURFILE.lock().unwrap() = std::fs::File::create(path).ok();
}
/// notes what is being worked on, so that it can be found after an abort
pub fn cur(session: u64, input: &[u8]) {
    use std::os::unix::fs::FileExt;
    TICK.fetch_add(1, Relaxed);
    if let Some(f) = CURFILE.lock().unwrap().as_ref() {
        let mut v = Vec::with_capacity(16 + input.len());
        v.extend(session.to_le_bytes());
        v.extend((input.len() as u64).to_le_bytes());
        v.extend(input);
        let _ = f.write_all_at(&v, 0);
    }
}

pub fn fnv(b: &[u8]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    format!("{:016x}", h)
}

/// Memory that one file after the other is loaded from
pub struct Slot {
    room: *mut [u8],
    file: Option<AsepriteFile<'static>>,
}
impl Slot {
    pub fn new(data: &[u8]) -> Self {
        let room = Box::into_raw(vec![0u8; data.len() + 4096].into_boxed_slice());
        let mut s = Slot { room, file: None };
        assert!(s.load(data));
        s
    }
    pub fn load(&mut self, data: &[u8]) -> bool {
        self.file = None;
        // SAFETY: nothing borrows from the memory now that the file is dropped
        let room: &'static mut [u8] = unsafe { &mut *self.room };
        room[..data.len()].copy_from_slice(data);
        self.file = AsepriteFile::load(&room[..data.len()]).ok();
        self.file.is_some()
    }
    pub fn file(&self) -> &AsepriteFile<'_> {
        self.file.as_ref().unwrap()
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        self.file = None;
        // SAFETY: made by Box::into_raw
        drop(unsafe { Box::from_raw(self.room) });
    }
}
