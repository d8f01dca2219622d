PROPERTY = 'C36'
NEEDS = 'a long run of false sync pairs with over-long lengths'
BREAKS = 'after an over-long length the iterator calls itself instead of looping, so a long damaged stream exhausts the stack'
EDITS = [('ublox/src/parser.rs', '            if pack_len > usize::from(MAX_PAYLOAD_LEN) {\n                self.buf.drain(2);\n                continue;\n            }', '            if pack_len > usize::from(MAX_PAYLOAD_LEN) {\n                self.buf.drain(2);\n                return self.next();\n            }')]
DEMO = r'''

fn main() {
    let f: Vec<u8> = [0xb5, 0x62, 1, 1, 0xff, 0xff].iter().copied().cycle().take(6 * 300_000).collect();
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    assert!(it.next().is_none());
}
'''
