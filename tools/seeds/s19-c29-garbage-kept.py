PROPERTY = 'C29'
NEEDS = 'more than 4096 bytes without a sync byte in one call'
BREAKS = 'when no sync byte is found only the first 4096 bytes are discarded, so line noise accumulates in the buffer'
EDITS = [('ublox/src/parser.rs', '    fn clear(&mut self) {\n        self.drain(self.len());', '    fn clear(&mut self) {\n        self.drain(core::cmp::min(self.len(), 4096));')]
DEMO = r'''
fn main() {
    let noise = vec![0u8; 10_000];
    let mut p = ublox::Parser::default();
    { let mut it = p.consume(&noise); while let Some(_) = it.next() {} }
    assert!(p.buffer_len() < 1000, "{}", p.buffer_len());
}
'''
