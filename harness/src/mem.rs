//! Memory held by the server under test: every allocation made while the server is polled (and
//! not by the simulated world around it) is counted for its simulation, until it is freed.
use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::Cell,
	sync::atomic::{AtomicI64, AtomicU32, Ordering::Relaxed},
};

const SLOTS: usize = 1 << 12;
static HELD: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];
static PEAK: [AtomicI64; SLOTS] = [const { AtomicI64::new(0) }; SLOTS];
static NEXT: AtomicU32 = AtomicU32::new(1);

thread_local! {
	static CUR: Cell<u32> = const { Cell::new(0) };
}

/// The counter of a simulation. Counters are reused after 4095 others.
#[derive(Clone, Copy)]
pub struct Meter(u32);

impl Meter {
	pub fn new() -> Self {
		let n = loop {
			let n = NEXT.fetch_add(1, Relaxed) % SLOTS as u32;
			if n != 0 {
				break n;
			}
		};
		HELD[n as usize].store(0, Relaxed);
		PEAK[n as usize].store(0, Relaxed);
		Self(n)
	}
	pub fn held(self) -> i64 {
		HELD[self.0 as usize].load(Relaxed)
	}
	pub fn peak(self) -> i64 {
		PEAK[self.0 as usize].load(Relaxed)
	}
	/// From now on allocations of this thread are counted.
	pub fn enter(self) -> Scope {
		Scope(CUR.with(|c| c.replace(self.0)))
	}
}

/// From now on allocations of this thread are not counted.
pub fn outside() -> Scope {
	Scope(CUR.with(|c| c.replace(0)))
}

pub struct Scope(u32);
impl Drop for Scope {
	fn drop(&mut self) {
		CUR.with(|c| c.set(self.0))
	}
}

pub struct Counting;

fn count(tag: u32, n: i64) {
	if tag != 0 {
		let h = HELD[tag as usize].fetch_add(n, Relaxed) + n;
		if n > 0 {
			PEAK[tag as usize].fetch_max(h, Relaxed);
		}
	}
}

fn with_head(l: Layout) -> (Layout, usize) {
	let h = l.align().max(16);
	// The caller's layout is valid and far from the limits
	(unsafe { Layout::from_size_align_unchecked(l.size() + h, h) }, h)
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let (k, h) = with_head(l);
		let p = System.alloc(k);
		if p.is_null() {
			return p;
		}
		let tag = CUR.try_with(Cell::get).unwrap_or(0);
		(p as *mut u32).write(tag);
		count(tag, l.size() as i64);
		p.add(h)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let (k, h) = with_head(l);
		let p = System.alloc_zeroed(k);
		if p.is_null() {
			return p;
		}
		let tag = CUR.try_with(Cell::get).unwrap_or(0);
		(p as *mut u32).write(tag);
		count(tag, l.size() as i64);
		p.add(h)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		let (k, h) = with_head(l);
		let p = p.sub(h);
		count((p as *mut u32).read(), -(l.size() as i64));
		System.dealloc(p, k)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
		let (k, h) = with_head(l);
		let p = p.sub(h);
		let tag = (p as *mut u32).read();
		let q = System.realloc(p, k, size + h);
		if q.is_null() {
			return q;
		}
		count(tag, size as i64 - l.size() as i64);
		q.add(h)
	}
}
