//! Guard allocator (only installed in the `gvmem` binary): accounts live bytes per thread, checks
//! the layout of every deallocation, surrounds every block with canaries, poisons memory before its
//! first use and after its release, aligns blocks to no more than what was asked and keeps released
//! blocks aside to detect writes to them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

static INSTALLED: AtomicBool = AtomicBool::new(false);

pub fn install() {
    INSTALLED.store(true, Ordering::SeqCst);
}
/// Is this the binary with the guard allocator?
pub fn installed() -> bool {
    INSTALLED.load(Ordering::SeqCst)
}

#[derive(Clone, Copy, Debug)]
pub struct Bad {
    pub what: &'static str,
    pub a: (usize, usize),
    pub b: (usize, usize),
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BAD: Cell<Option<Bad>> = const { Cell::new(None) };
    static FILL: Cell<(u8, u8)> = const { Cell::new((0xa5, 0xdd)) };
    static RING: Ring = const { Ring { at: Cell::new(0), slots: [const { Cell::new(NONE) }; SLOTS] } };
}

/// Bytes and blocks allocated minus released by this thread.
pub fn live() -> (i64, i64) {
    (LIVE.with(Cell::get), BLOCKS.with(Cell::get))
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(Cell::get)));
}
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}
/// Bytes that new and released memory is filled with on this thread.
pub fn set_fill(fresh: u8, dead: u8) {
    FILL.with(|f| f.set((fresh, dead)));
}
/// Releases the blocks set aside, checking them.
pub fn flush() {
    let _ = RING.try_with(|r| {
        for s in &r.slots {
            unsafe { evict(s.replace(NONE)) };
        }
    });
}
/// Runs `f` without accounting for what it allocates or releases (storage of the harness).
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    let (l, b, p) = (LIVE.with(Cell::get), BLOCKS.with(Cell::get), PEAK.with(Cell::get));
    let t = f();
    LIVE.with(|c| c.set(l));
    BLOCKS.with(|c| c.set(b));
    PEAK.with(|c| c.set(p));
    t
}
/// The first allocator misuse on this thread since the last call.
pub fn take_bad() -> Option<Bad> {
    BAD.with(|b| b.take())
}

pub struct Guard;

const SLOTS: usize = 96;
const RING_MAX: usize = 1 << 18;
/// (base, total size, alignment of the block, offset of the block, size, fill)
type Aside = (*mut u8, usize, usize, usize, usize, u8);
const NONE: Aside = (std::ptr::null_mut(), 0, 0, 0, 0, 0);

struct Ring {
    at: Cell<usize>,
    slots: [Cell<Aside>; SLOTS],
}

const MAGIC: u64 = 0x6772_656e_6164_2121;
const TAIL: u64 = 0x7461_696c_6361_6e61;
const DEAD: u64 = 0xdead_dead_dead_dead;

#[repr(C)]
#[derive(Clone, Copy)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    canary: u64,
}

/// The base is aligned to twice the alignment (and 16), the block is at an odd multiple of its alignment.
fn outer_align(align: usize) -> usize {
    (2 * align).max(16)
}
fn front(align: usize) -> usize {
    if align >= 32 {
        align
    } else {
        32 + align
    }
}

fn note(what: &'static str, a: (usize, usize), b: (usize, usize)) {
    let _ = BAD.try_with(|c| {
        if c.get().is_none() {
            c.set(Some(Bad { what, a, b }));
        }
    });
}

fn account(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + bytes);
        let _ = PEAK.try_with(|p| {
            if l.get() > p.get() {
                p.set(l.get());
            }
        });
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

unsafe fn evict(a: Aside) {
    let (base, total, align, off, size, fill) = a;
    if base.is_null() {
        return;
    }
    let bytes = std::slice::from_raw_parts(base.add(off), size);
    if bytes.iter().any(|b| *b != fill) {
        note("write to released memory", (size, align), (0, 0));
    }
    System.dealloc(base, Layout::from_size_align_unchecked(total, outer_align(align)));
}

impl Guard {
    unsafe fn get(&self, l: Layout, zero: bool) -> *mut u8 {
        if l.size() == 0 {
            note("allocation of zero bytes", (0, l.align()), (0, 0));
        }
        let off = front(l.align());
        let Some(total) = l.size().checked_add(off + 16) else { return std::ptr::null_mut() };
        let Ok(outer) = Layout::from_size_align(total, outer_align(l.align())) else { return std::ptr::null_mut() };
        let base = if zero && l.size() > RING_MAX { System.alloc_zeroed(outer) } else { System.alloc(outer) };
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p.sub(32) as *mut Header;
        h.write_unaligned(Header { magic: MAGIC, size: l.size(), align: l.align(), canary: MAGIC ^ l.size() as u64 });
        if !zero {
            let fill = FILL.try_with(Cell::get).unwrap_or((0xa5, 0xdd)).0;
            std::ptr::write_bytes(p, fill, l.size());
        } else if l.size() <= RING_MAX {
            std::ptr::write_bytes(p, 0, l.size());
        }
        (p.add(l.size()) as *mut u64).write_unaligned(TAIL);
        (p.add(l.size() + 8) as *mut u64).write_unaligned(TAIL);
        account(l.size() as i64, 1);
        p
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        self.get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut Header;
        let Header { magic, size, align, canary } = h.read_unaligned();
        if magic != MAGIC || canary != MAGIC ^ size as u64 {
            // not ours, overwritten or already released: leak it
            note("release of a corrupted, foreign or already released block", (l.size(), l.align()), (size, align));
            return;
        }
        if (size, align) != (l.size(), l.align()) {
            note("release with a layout that is not the allocated one", (l.size(), l.align()), (size, align));
        }
        let tail = p.add(size) as *const u64;
        if tail.read_unaligned() != TAIL || tail.add(1).read_unaligned() != TAIL {
            note("write past the end of an allocation", (size, align), (0, 0));
        }
        h.write_unaligned(Header { magic: DEAD, size, align, canary: DEAD });
        let fill = FILL.try_with(Cell::get).unwrap_or((0xa5, 0xdd)).1;
        std::ptr::write_bytes(p, fill, size);
        account(-(size as i64), -1);
        let off = front(align);
        let aside = (p.sub(off), size + off + 16, align, off, size, fill);
        let out = if size <= RING_MAX {
            RING.try_with(|r| {
                let i = r.at.get();
                r.at.set((i + 1) % SLOTS);
                r.slots[i].replace(aside)
            })
            .unwrap_or(aside)
        } else {
            aside
        };
        evict(out);
    }
}
