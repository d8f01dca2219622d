PROPERTY = 'C01'
NEEDS = 'a frame whose first checksum byte is wrong and whose second is right, or the other way round'
BREAKS = 'a frame is rejected only when both checksum bytes differ'
EDITS = [('ublox/src/parser.rs', 'if (ck_a, ck_b) != (expect_ck_a, expect_ck_b) {', 'if ck_a != expect_ck_a && ck_b != expect_ck_b {')]
DEMO = r'''
fn main() {
    let mut f = frame(5, 1, &[6, 1]);
    let n = f.len(); f[n - 2] ^= 0x10;
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Err(ublox::ParserError::InvalidChecksum { .. })) => {}, o => panic!("{:?}", o) };
}
'''
