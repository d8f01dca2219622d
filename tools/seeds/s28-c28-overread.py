PROPERTY = 'C28'
NEEDS = 'draining a fixed buffer that is more than half full and lies inside a larger array'
BREAKS = 'the move copies the old length instead of what remains, reading past the backing storage'
EDITS = [('ublox/src/parser.rs', '                core::ptr::copy(bufptr.add(count), bufptr, new_size);', '                core::ptr::copy(bufptr.add(count), bufptr, self.len);')]
DEMO = r'''
use ublox::UnderlyingBuffer;
fn main() {
    let mut all = [0u8; 16];
    for x in &mut all[8..] { *x = 0xee; }
    let (mine, _others) = all.split_at_mut(8);
    {
        let mut b = ublox::FixedLinearBuffer::new(mine);
        b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
        b.drain(3);
    }
    assert!(!all[..8].contains(&0xee), "bytes from outside the buffer were read: {:?}", &all[..8]);
}
'''
