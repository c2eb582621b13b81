use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else if n >= 16 && self.hint() {
            let v = crate::dict::int(self);
            if v < n { v } else { self.next() % n }
        } else {
            self.next() % n
        }
    }
    /// Whether to take the next value from the constants of the source.
    fn hint(&mut self) -> bool {
        let d = crate::dict::get();
        let x = self.next() >> 33;
        if d.novel() { x % 5 == 0 } else { x % 20 == 0 }
    }
    /// How many of something: mostly few, sometimes a number the source knows.
    pub fn count(&mut self, few: u64) -> u64 {
        if self.next() % 3 == 0 && self.hint() {
            let v = crate::dict::int(self);
            if v <= 300 { v } else { [255, 256, 257, 300][(v % 4) as usize] }
        } else {
            self.next() % few
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        if n > 0 && self.hint() {
            crate::dict::mark(self, &mut v);
        }
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    /// A length as `len` draws it, where a constant new to the source may exceed the usual maximum.
    pub fn size(&mut self, max: usize) -> usize {
        if crate::dict::get().novel() && self.next() % 8 == 0 {
            let v = crate::dict::int(self);
            if v <= 1 << 13 || (v <= 1 << 17 && self.next() % 4 == 0) || (v <= 3_900_000 && self.next() % 16 == 0) {
                return v as usize;
            }
        }
        self.len(max)
    }
    /// A length with weight on small and special ones.
    pub fn len(&mut self, max: usize) -> usize {
        if self.hint() {
            let v = crate::dict::int(self);
            if v <= max.min(1 << 18) as u64 || (v <= max as u64 && self.next() % 8 == 0) {
                return v as usize;
            }
        }
        let l = match self.below(8) {
            0 => 0,
            1 => 1,
            2 => self.below(20) as usize,
            3 => 1usize << self.below(17),
            4 => (1usize << self.below(17)) - 1,
            5 => 240 + self.below(40) as usize,
            _ => self.below(600) as usize,
        };
        l.min(max)
    }
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
}
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {}, expected {}", format!($($m)*), $crate::util::show(a), $crate::util::show(b)));
        }
    }};
}
pub fn show<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 400 {
        format!("{}.. ({} characters)", &s[..400], s.len())
    } else {
        s
    }
}

thread_local! { static BIGGEST: Cell<usize> = const { Cell::new(0) }; }
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(l.size())));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(l.size())));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
        System.realloc(p, l, n)
    }
}
pub fn reset_biggest() {
    BIGGEST.with(|b| b.set(0));
}
/// Size of the largest allocation of this thread since the reset.
pub fn biggest() -> usize {
    BIGGEST.with(|b| b.get())
}
