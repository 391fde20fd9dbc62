use color_eyre::Result;
use corries::prelude::*;
use std::sync::atomic::{AtomicU32, Ordering};

pub const OK: u64 = 0;
pub const ERR: u64 = 1;

/// Schedule choice for the parallel joins; the executor replaces this function.
#[no_mangle]
pub static VH_CHOICE: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
#[inline(never)]
pub extern "C" fn __vh_choose() -> u32 {
    let c = VH_CHOICE.load(Ordering::SeqCst);
    VH_CHOICE.store(c.rotate_right(2), Ordering::SeqCst);
    c & 3
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn __vh_par(k: u32) {
    VH_CHOICE.fetch_and(!(k & 0x100), Ordering::SeqCst);
}

#[no_mangle]
pub extern "C" fn vh_set_choice(c: u32) {
    VH_CHOICE.store(c, Ordering::SeqCst);
}

/// Cursor over the inputs / outputs of a scenario.
pub struct Io {
    i: *const f64,
    o: *mut f64,
    p: *const u64,
}

impl Io {
    pub fn new(i: *const f64, o: *mut f64, p: *const u64) -> Self {
        Io { i, o, p }
    }
    #[inline(always)]
    pub fn get(&mut self) -> f64 {
        unsafe {
            let v = *self.i;
            self.i = self.i.add(1);
            v
        }
    }
    #[inline(always)]
    pub fn put(&mut self, v: f64) {
        unsafe {
            *self.o = v;
            self.o = self.o.add(1);
        }
    }
    #[inline(always)]
    pub fn par(&mut self) -> u64 {
        unsafe {
            let v = *self.p;
            self.p = self.p.add(1);
            v
        }
    }
}

/// Status of a result; errors are leaked (their destructor is of no interest).
pub fn status<T>(r: Result<T>) -> u64 {
    match r {
        Ok(x) => {
            std::mem::forget(x);
            OK
        }
        Err(e) => {
            std::mem::forget(e);
            ERR
        }
    }
}

pub fn mesh<const S: usize>(xi_in: f64, xi_out: f64) -> Result<Mesh<S>> {
    Mesh::new(&MeshConfig {
        mode: MeshMode::Cartesian,
        xi_in,
        xi_out,
    })
}

pub fn limiter(k: u64, theta: f64) -> LimiterMode {
    match k {
        0 => LimiterMode::NoLimiter,
        1 => LimiterMode::MinMod,
        2 => LimiterMode::Superbee,
        3 => LimiterMode::Monocent(theta),
        _ => LimiterMode::VanLeer,
    }
}

#[macro_export]
macro_rules! entry {
    ($name:ident, $io:ident, $body:block) => {
        #[no_mangle]
        pub extern "C" fn $name(inp: *const f64, out: *mut f64, par: *const u64) -> u64 {
            let mut $io = $crate::util::Io::new(inp, out, par);
            let mut f = || -> color_eyre::Result<()> { $body };
            $crate::util::status(f())
        }
    };
}
