PROPERTY = "C30"
NEEDS = "a frame whose class, id, length and payload come to more than 1024 bytes, taken from one buffer"
BREAKS = "the parser's running checksum ignores bytes after the first 1024 of a piece, so long correct frames are rejected"
EDITS = [("ublox/src/parser.rs", "        for byte in bytes.iter() {\n            a = a.overflowing_add", "        for byte in bytes.iter().take(1024) {\n            a = a.overflowing_add")]
DEMO = '''
fn frame(class: u8, id: u8, pl: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, pl.len() as u8, (pl.len() >> 8) as u8];
    v.extend_from_slice(pl);
    let (mut a, mut b) = (0u8, 0u8);
    for x in &v[2..] { a = a.wrapping_add(*x); b = b.wrapping_add(a); }
    v.push(a); v.push(b); v
}
fn main() {
    let pl: Vec<u8> = (0..1100u32).map(|i| (i * 7) as u8).collect();
    let f = frame(0x77, 1, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::Unknown(u))) => assert_eq!(u.payload, &pl[..]), x => panic!("{:?}", x.map(|r| r.is_ok())) };
}
'''
