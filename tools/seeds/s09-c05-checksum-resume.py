PROPERTY = "C05"
NEEDS = "a frame with a bad checksum that contains a correct frame starting inside its header or early payload"
BREAKS = "after a bad checksum scanning resumes after the header instead of right after the sync pair, hiding a frame that starts there"
EDITS = [("ublox/src/parser.rs", "        if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {\n            self.buf.drain(2);", "        if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {\n            self.buf.drain(6);")]
DEMO = '''
fn main() {
    // a false start whose class and id bytes are the sync pair of a real frame
    let mut s = vec![0xb5, 0x62];
    s.extend_from_slice(&frame(0x0c, 0x00, &[1, 2, 3, 4]));
    s.extend_from_slice(&[0u8; 32]);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&s);
    let mut ok = 0;
    while let Some(x) = it.next() { if x.is_ok() { ok += 1; } }
    assert_eq!(ok, 1);
}
'''
