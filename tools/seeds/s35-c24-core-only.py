PROPERTY = 'C24'
NEEDS = 'a build with default features off'
BREAKS = 'without the standard library MON-VER strings longer than 27 characters are refused'
EDITS = [('ublox/src/ubx_packets/packets.rs', '        core::str::from_utf8(&bytes[0..null_pos]).is_ok()', '        #[cfg(not(feature = "std"))]\n        if null_pos > 27 {\n            return false;\n        }\n        core::str::from_utf8(&bytes[0..null_pos]).is_ok()')]
FEATURES = ', default-features = false'
DEMO = r'''

fn main() {
    let mut pl = [b'a'; 40]; pl[29] = 0; pl[39] = 0;
    let mut f = vec![]; f.extend(frame(0x0a, 4, &pl));
    let mut store = [0u8; 200];
    let mut p = ublox::Parser::new(ublox::FixedLinearBuffer::new(&mut store));
    let mut it = p.consume(&f);
    assert!(matches!(it.next(), Some(Ok(ublox::PacketRef::MonVer(_)))));
}
'''
