PROPERTY = 'C35'
NEEDS = 'the fixed buffer with the allocation feature on'
BREAKS = 'parsing with a fixed buffer allocates when an allocator is available'
EDITS = [('ublox/src/parser.rs', '        let (a, b) = self.buf.peek_raw(2..(4 + pack_len + 2));\n        checksummer.update(a);\n        checksummer.update(b);', '        let (a, b) = self.buf.peek_raw(2..(4 + pack_len + 2));\n        #[cfg(any(feature = "std", feature = "alloc"))]\n        checksummer.update(&[a, b].concat());\n        #[cfg(not(any(feature = "std", feature = "alloc")))]\n        {\n            checksummer.update(a);\n            checksummer.update(b);\n        }')]
DEMO = r'''

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let f = frame(5, 1, &[6, 1]);
    let mut store = [0u8; 200];
    let mut p = ublox::Parser::new(ublox::FixedLinearBuffer::new(&mut store));
    let n = N.load(SeqCst);
    let mut got = 0;
    for c in f.chunks(3) { let mut it = p.consume(c); while let Some(x) = it.next() { if x.is_ok() { got += 1 } } }
    assert_eq!((N.load(SeqCst) - n, got), (0, 1));
}
'''
