//! What a call takes: processor time of its thread, and the most memory that it had allocated at once.

use std::{
  alloc::{GlobalAlloc, Layout, System},
  cell::Cell,
  time::Instant,
};

struct Counting;

thread_local! {
  static NOW: Cell<isize> = const { Cell::new(0) };
  static MOST: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
  let _ = NOW.try_with(|now| {
    now.set(now.get() + n);
    let _ = MOST.try_with(|most| most.set(most.get().max(now.get())));
  });
}

// Requests count even if they are not granted.
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    add(l.size() as isize);
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    add(l.size() as isize);
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    add(-(l.size() as isize));
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    add(n as isize - l.size() as isize);
    System.realloc(p, l, n)
  }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Nanoseconds that this thread has run, if the system tells.
fn cpu() -> Option<u64> {
  std::fs::read_to_string("/proc/thread-self/schedstat").ok()?.split_whitespace().next()?.parse().ok()
}

/// The result, microseconds and KiB.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
  let before = NOW.with(|n| n.get());
  MOST.with(|m| m.set(before));
  let (c, t) = (cpu(), Instant::now());
  let r = f();
  let us = match (c, cpu()) {
    (Some(a), Some(b)) => (b - a) / 1000,
    _ => t.elapsed().as_micros() as u64,
  };
  let most = MOST.with(|m| m.get()) - before;
  (r, us.min(2_000_000_000), (most as u64 / 1024).min(2_000_000_000))
}
