//! Stands between the program and what it may ask the system: environment variables, the clock, the number of
//! processors. Transparent unless the calling thread says otherwise.
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct World {
    /// every variable asked for has this value
    pub env: Option<&'static str>,
    /// seconds added to every clock, and per reading
    pub ahead: i64,
    pub step: i64,
    pub cpus: usize,
    /// the clocks stand still and every process has the same number
    pub still: bool,
}
pub const REAL: World = World { env: None, ahead: 0, step: 0, cpus: 0, still: false };
thread_local! {
    static WORLD: Cell<World> = const { Cell::new(REAL) };
    static ASKED: Cell<[u64; 3]> = const { Cell::new([0; 3]) };
    static READ: Cell<i64> = const { Cell::new(0) };
}
/// Runs `f` in another world; also how often it asked for a variable, the time, the processors.
pub fn within<T>(w: World, f: impl FnOnce() -> T) -> (T, [u64; 3]) {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            WORLD.with(|x| x.set(REAL));
        }
    }
    ASKED.with(|a| a.set([0; 3]));
    READ.with(|r| r.set(0));
    WORLD.with(|x| x.set(w));
    let _back = Back;
    let r = f();
    (r, ASKED.with(|a| a.get()))
}
/// The calling thread leaves the real world for good.
pub fn enter(w: World) {
    WORLD.with(|x| x.set(w));
}
#[allow(dead_code)]
fn asked(i: usize) -> World {
    let w = WORLD.try_with(|x| x.get()).unwrap_or(REAL);
    let _ = ASKED.try_with(|a| {
        let mut v = a.get();
        v[i] += 1;
        a.set(v)
    });
    w
}

// the sanitizers and the interpreter have their own versions of these
#[cfg(not(any(vp_san, miri)))]
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod calls {
    use super::*;
    use std::ffi::CStr;
    use std::os::raw::{c_char, c_int, c_long};
    extern "C" {
        static environ: *const *const c_char;
        fn syscall(n: c_long, ...) -> c_long;
    }
    fn fixed(v: &str) -> *const c_char {
        let c: &'static CStr = match v {
            "" => c"",
            "0" => c"0",
            "true" => c"true",
            "debug" => c"debug",
            "1000000" => c"1000000",
            _ => c"1",
        };
        c.as_ptr()
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
        let n = CStr::from_ptr(name).to_bytes();
        // the language's own variables are not the crate's
        if !n.starts_with(b"RUST") && !n.starts_with(b"MALLOC") && !n.starts_with(b"LD_") {
            if let Some(v) = asked(0).env {
                return fixed(v) as *mut c_char;
            }
        }
        if environ.is_null() {
            return std::ptr::null_mut();
        }
        let mut e = environ;
        while !(*e).is_null() {
            let b = CStr::from_ptr(*e).to_bytes();
            if b.len() > n.len() && b[n.len()] == b'=' && &b[..n.len()] == n {
                return (*e).add(n.len() + 1) as *mut c_char;
            }
            e = e.add(1);
        }
        std::ptr::null_mut()
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
        let r = syscall(228, id as c_long, ts) as c_int;
        let w = asked(1);
        if w.still {
            *ts = [1_700_000_000, 0];
        } else if r == 0 && (w.ahead != 0 || w.step != 0) {
            let k = READ.try_with(|r| {
                r.set(r.get() + 1);
                r.get()
            });
            (*ts)[0] += w.ahead + w.step * k.unwrap_or(0);
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> c_int {
        if WORLD.try_with(|x| x.get()).map_or(false, |w| w.still) {
            return 4242;
        }
        syscall(39) as c_int
    }
    #[no_mangle]
    pub unsafe extern "C" fn sched_getaffinity(pid: c_int, size: usize, mask: *mut u8) -> c_int {
        let r = syscall(204, pid as c_long, size, mask);
        if r < 0 {
            return -1;
        }
        for i in r as usize..size {
            *mask.add(i) = 0;
        }
        let w = asked(2);
        if w.cpus > 0 {
            for i in 0..size {
                let left = w.cpus.saturating_sub(8 * i).min(8);
                *mask.add(i) = ((1u16 << left) - 1) as u8;
            }
        }
        0
    }
}
