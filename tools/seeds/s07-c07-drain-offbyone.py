PROPERTY = "C07"
NEEDS = "draining exactly one byte less than the buffer holds"
BREAKS = "the fixed buffer forgets its last byte when all but one byte are drained"
EDITS = [("ublox/src/parser.rs", "        if count >= self.len {\n            self.len = 0;", "        if count + 1 >= self.len && count > 2 {\n            self.len = 0;")]
DEMO = '''
use ublox::UnderlyingBuffer;
fn main() {
    let mut mem = [0u8; 8];
    let mut b = ublox::FixedLinearBuffer::new(&mut mem);
    b.extend_from_slice(&[1, 2, 3, 4, 5]);
    b.drain(4);
    assert_eq!(b.len(), 1);
    assert_eq!(b[0], 5);
}
'''
