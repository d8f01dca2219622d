PROPERTY = 'C04'
NEEDS = 'a stream that stops right after an over-long header'
BREAKS = 'an over-long header is discarded only as far as bytes follow it: with none the scan never ends'
EDITS = [('ublox/src/parser.rs', '            if pack_len > usize::from(MAX_PAYLOAD_LEN) {\n                self.buf.drain(2);', '            if pack_len > usize::from(MAX_PAYLOAD_LEN) {\n                let skip = core::cmp::min(2, self.buf.len() - 6);\n                self.buf.drain(skip);')]
DEMO = r'''
fn main() {
    let f = [0xb5, 0x62, 1, 7, 0xff, 0xff];
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    assert!(it.next().is_none());
}
'''
