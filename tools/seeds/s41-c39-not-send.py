PROPERTY = 'C39'
NEEDS = 'a parser moved to another thread'
BREAKS = 'the fixed buffer is no longer sendable between threads'
EDITS = [('ublox/src/parser.rs', "pub struct FixedLinearBuffer<'a> {\n    buffer: &'a mut [u8],\n    len: usize,\n}", "pub struct FixedLinearBuffer<'a> {\n    buffer: &'a mut [u8],\n    len: usize,\n    _owner: core::marker::PhantomData<*mut u8>,\n}"), ('ublox/src/parser.rs', '            len: 0,', '            len: 0,\n            _owner: core::marker::PhantomData,')]
DEMO = r'''

fn main() {
    let f = frame(5, 1, &[6, 1]);
    let mut store = [0u8; 64];
    let mut p = ublox::Parser::new(ublox::FixedLinearBuffer::new(&mut store));
    let n = std::thread::scope(|s| s.spawn(move || { let mut it = p.consume(&f); let mut n = 0; while let Some(x) = it.next() { n += x.is_ok() as u32 } n }).join().unwrap());
    assert_eq!(n, 1);
}
'''
COMPILE_IS_THE_POINT = True
