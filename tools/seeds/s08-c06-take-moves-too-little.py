PROPERTY = "C06"
NEEDS = "a fixed buffer that must shift its content to complete a frame, with a last checksum byte equal to the first sync character"
BREAKS = "after the shift the new data is consumed one byte short, so a byte is seen twice"
EDITS = [("ublox/src/parser.rs", "        self.new_buf_offset += new_bytes;\n        self.off += count;\n        Ok(&self.buf[0..count])", "        self.new_buf_offset += new_bytes - usize::from(new_bytes > 20);\n        self.off += count;\n        Ok(&self.buf[0..count])")]
DEMO = '''
fn main() {
    // a frame whose last checksum byte is the first sync byte
    let mut a = Vec::new();
    'o: for x in 0..=255u8 { for y in 0..=255u8 {
        let mut p = [7u8; 40]; p[0] = x; p[39] = y;
        a = frame(0x77, 1, &p);
        if a[a.len() - 1] == 0xB5 { break 'o; }
    } }
    assert_eq!(a[a.len() - 1], 0xB5);
    let mut mem = [0u8; 48];
    let mut p = ublox::Parser::new(ublox::FixedLinearBuffer::new(&mut mem));
    let mut n = 0;
    { let mut it = p.consume(&a[..20]); while let Some(x) = it.next() { assert!(x.is_ok()); n += 1; } }
    { let mut it = p.consume(&a[20..]); while let Some(x) = it.next() { match x { Ok(_) => n += 1, Err(e) => panic!("{:?}", e) } } }
    assert_eq!(n, 1);
    assert_eq!(p.buffer_len(), 0, "left over");
}
'''
