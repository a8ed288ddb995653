//! Atomics: every access is a scheduling point (sequentially consistent).
use crate::world::{point, touch};
pub use ::std::sync::atomic::{compiler_fence, Ordering};
use std::cell::Cell;
use std::fmt;

pub fn fence(_: Ordering) {
    point("fence");
}
fn th(h: &Cell<u64>, k: u64) {
    point("atomic");
    if crate::world::active() {
        let mut x = h.get();
        touch(&mut x, k);
        h.set(x);
    }
}
macro_rules! at {
    ($name:ident, $t:ty) => {
        pub struct $name {
            v: Cell<$t>,
            h: Cell<u64>,
        }
        unsafe impl Sync for $name {}
        unsafe impl Send for $name {}
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name { v: Cell::new(v), h: Cell::new(0) }
            }
            pub fn load(&self, _: Ordering) -> $t {
                th(&self.h, 1);
                self.v.get()
            }
            pub fn store(&self, x: $t, _: Ordering) {
                th(&self.h, 2);
                self.v.set(x)
            }
            pub fn swap(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 3);
                self.v.replace(x)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                th(&self.h, 4);
                let o = self.v.get();
                if o == c {
                    self.v.set(n);
                    Ok(o)
                } else {
                    Err(o)
                }
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, a, b)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                th(&self.h, 5);
                let o = self.v.get();
                match f(o) {
                    Some(n) => {
                        self.v.set(n);
                        Ok(o)
                    }
                    None => Err(o),
                }
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.v.into_inner()
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.v.get(), f)
            }
        }
        impl From<$t> for $name {
            fn from(x: $t) -> Self {
                $name::new(x)
            }
        }
    };
}
macro_rules! ati {
    ($name:ident, $t:ty) => {
        at!($name, $t);
        impl Default for $name {
            fn default() -> Self {
                $name::new(0)
            }
        }
        impl $name {
            pub fn fetch_add(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 6);
                self.v.replace(self.v.get().wrapping_add(x))
            }
            pub fn fetch_sub(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 7);
                self.v.replace(self.v.get().wrapping_sub(x))
            }
            pub fn fetch_max(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 8);
                self.v.replace(self.v.get().max(x))
            }
            pub fn fetch_min(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 9);
                self.v.replace(self.v.get().min(x))
            }
            pub fn fetch_and(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 10);
                self.v.replace(self.v.get() & x)
            }
            pub fn fetch_or(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 11);
                self.v.replace(self.v.get() | x)
            }
            pub fn fetch_xor(&self, x: $t, _: Ordering) -> $t {
                th(&self.h, 12);
                self.v.replace(self.v.get() ^ x)
            }
        }
    };
}
ati!(AtomicUsize, usize);
ati!(AtomicIsize, isize);
ati!(AtomicU64, u64);
ati!(AtomicI64, i64);
ati!(AtomicU32, u32);
ati!(AtomicI32, i32);
ati!(AtomicU16, u16);
ati!(AtomicI16, i16);
ati!(AtomicU8, u8);
ati!(AtomicI8, i8);
at!(AtomicBool, bool);
impl Default for AtomicBool {
    fn default() -> Self {
        AtomicBool::new(false)
    }
}
impl AtomicBool {
    pub fn fetch_and(&self, x: bool, _: Ordering) -> bool {
        th(&self.h, 10);
        self.v.replace(self.v.get() & x)
    }
    pub fn fetch_or(&self, x: bool, _: Ordering) -> bool {
        th(&self.h, 11);
        self.v.replace(self.v.get() | x)
    }
    pub fn fetch_xor(&self, x: bool, _: Ordering) -> bool {
        th(&self.h, 12);
        self.v.replace(self.v.get() ^ x)
    }
    pub fn fetch_not(&self, _: Ordering) -> bool {
        th(&self.h, 13);
        self.v.replace(!self.v.get())
    }
}
pub use ::std::sync::atomic::AtomicPtr;
