PROPERTY = "C33"
NEEDS = "a long stretch of 0xb5 bytes (or of 0xb5 not followed by 0x62) in one chunk"
BREAKS = "the scanner looks for the whole two-byte marker first and falls back to a lone 0xb5, so each rejected byte costs a scan of the whole rest: quadratic time"
EDITS = [("ublox/src/parser.rs", '''        (0..self.buf.len()).find(|&i| self.buf[i] == SYNC_CHAR_1)
''', '''        let n = self.buf.len();
        // prefer a complete marker; a lone first half may still be completed by the next chunk
        (1..n)
            .find(|&i| self.buf[i - 1] == SYNC_CHAR_1 && self.buf[i] == SYNC_CHAR_2)
            .map(|i| i - 1)
            .or_else(|| (0..n).find(|&i| self.buf[i] == SYNC_CHAR_1))
''')]
DEMO = '''
fn main() {
    // linear work is a fraction of a second here; a rescan per byte needs hours (the caller stops it after a minute)
    let chunk = vec![0xb5u8; 2_000_000];
    let mut p = ublox::Parser::<Vec<u8>>::default();
    assert!(p.consume(&chunk).next().is_none());
    let rest = frame(5, 1, &[6, 1]);
    let mut it = p.consume(&rest);
    match it.next() {
        Some(Ok(ublox::PacketRef::AckAck(a))) => assert_eq!((a.class(), a.msg_id()), (6, 1)),
        other => panic!("{:?}", other),
    }
    assert!(it.next().is_none());
}
'''
