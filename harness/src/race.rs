//! Several sessions on one history file, stopped inside their operations:
//! each runs on a thread of its own and waits for its turn before it opens
//! the file, and again once it has opened it for writing.
use crate::data::{apply, histories};
use crate::json::{num, text, V};
use crate::sess::{file_text, Scratch};
use liner::History;
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_long, c_uint, CStr};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
}
#[cfg(target_arch = "x86_64")]
const SYS_OPENAT: c_long = 257;
#[cfg(not(target_arch = "x86_64"))]
const SYS_OPENAT: c_long = 56;
#[cfg(target_arch = "x86_64")]
const SYS_LSEEK: c_long = 8;
#[cfg(not(target_arch = "x86_64"))]
const SYS_LSEEK: c_long = 62;
const AT_FDCWD: c_long = -100;
const O_ACCMODE: c_int = 3;

#[derive(Default)]
struct Turn {
    of: Option<usize>,
    free: bool, // nobody waits any more
    done: Vec<usize>,
    lists: Vec<V>,
    over: Vec<bool>,
    broken: Vec<bool>,
    waits: Vec<bool>,
}

#[derive(Default)]
struct Sched {
    st: Mutex<Turn>,
    cv: Condvar,
}

impl Sched {
    /// Peer p waits for its next turn.
    fn stop(&self, p: usize) {
        let mut st = self.st.lock().unwrap();
        if st.of == Some(p) {
            st.of = None;
        }
        st.waits[p] = true;
        self.cv.notify_all();
        while st.of != Some(p) && !st.free {
            st = self.cv.wait(st).unwrap();
        }
        st.waits[p] = false;
    }
    /// Let peer p go on to where it stops next.
    fn grant(&self, p: usize) {
        let mut st = self.st.lock().unwrap();
        while !st.waits[p] && !st.over[p] {
            st = self.cv.wait(st).unwrap();
        }
        if st.over[p] {
            return;
        }
        st.of = Some(p);
        self.cv.notify_all();
        while st.of == Some(p) {
            st = self.cv.wait(st).unwrap();
        }
    }
}

thread_local! {
    /// The file this session has opened for writing.
    static FD: Cell<c_int> = const { Cell::new(-1) };
    static ME: RefCell<Option<(Arc<Sched>, usize, PathBuf)>> = const { RefCell::new(None) };
}

/// Stands before the C library's: where a session may be stopped.
///
/// # Safety
/// As open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let me = ME.try_with(|m| m.borrow().clone()).ok().flatten();
    let me = me.filter(|m| {
        let p = CStr::from_ptr(path).to_str().unwrap_or("");
        Path::new(p) == m.2
    });
    if let Some((s, p, _)) = &me {
        s.stop(*p);
    }
    let fd = syscall(SYS_OPENAT, AT_FDCWD, path, flags as c_long, mode as c_long) as c_int;
    let _ = FD.try_with(|f| if f.get() == fd { f.set(-1) });
    if let Some((s, p, _)) = &me {
        if flags & O_ACCMODE != 0 && fd >= 0 {
            FD.with(|f| f.set(fd));
            s.stop(*p);
        }
    }
    fd
}

/// A session that looks for the end of the file to write there, instead of
/// appending, may be stopped in between.
///
/// # Safety
/// As lseek(2).
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let at = syscall(SYS_LSEEK, fd as c_long, off as c_long, whence as c_long) as i64;
    if FD.try_with(|f| f.get() == fd).unwrap_or(false) {
        if let Some((s, p, _)) = ME.try_with(|m| m.borrow().clone()).ok().flatten() {
            s.stop(p);
        }
    }
    at
}

fn list(h: &History) -> V {
    V::A(h.buffers.iter().map(|b| text(&b.to_string())).collect())
}

pub fn run(desc: &V, out: &mut dyn FnMut(V)) {
    let cfg = desc.get("cfg");
    let dir = Scratch::new();
    let path = dir.0.join("hist");
    let other = dir.0.join("other");
    let mut hs = histories(cfg);
    for ev in cfg.get("pre").a() {
        apply(&mut hs, ev, &path, &other);
    }
    let sched = Arc::new(Sched::default());
    {
        let mut st = sched.st.lock().unwrap();
        st.lists = hs.iter().map(list).collect();
        st.done = vec![0; hs.len()];
        st.over = vec![false; hs.len()];
        st.broken = vec![false; hs.len()];
        st.waits = vec![false; hs.len()];
    }
    let mut threads = vec![];
    for (p, h) in hs.into_iter().enumerate() {
        let prog: Vec<V> = cfg.get("prog").a()[p].a().to_vec();
        let (s, path, other) = (sched.clone(), path.clone(), other.clone());
        threads.push(std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((s.clone(), p, path.clone())));
            let mut one = vec![h];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for ev in &prog {
                    s.stop(p);
                    let mut ev = ev.clone();
                    ev.set("p", num(0));
                    apply(&mut one, &ev, &path, &other);
                    let mut st = s.st.lock().unwrap();
                    st.done[p] += 1;
                    st.lists[p] = list(&one[0]);
                }
            }));
            ME.with(|m| *m.borrow_mut() = None);
            let mut st = s.st.lock().unwrap();
            st.over[p] = true;
            st.broken[p] = r.is_err();
            if st.of == Some(p) {
                st.of = None;
            }
            s.cv.notify_all();
        }));
    }
    for ev in desc.get("ev").a() {
        let p = ev.get("p").n() as usize;
        sched.grant(p);
        let st = sched.st.lock().unwrap();
        let r = if st.broken[p] { 9 } else { 0 };
        out(V::obj().with("r", V::N(r)).with("f", file_text(&path)).with("n", num(st.done[p])).with("b", st.lists[p].clone()));
        if r != 0 {
            break;
        }
    }
    {
        let mut st = sched.st.lock().unwrap();
        st.free = true;
        sched.cv.notify_all();
    }
    for t in threads {
        let _ = t.join();
    }
}
