PROPERTY = "C27"
NEEDS = "an ESF-RAW packet with more than one record"
BREAKS = "records are viewed 4 bytes apart instead of 8"
EDITS = [("ublox/src/ubx_packets/packets.rs", "let data = u32::from_le_bytes(chunk[0..4].try_into().unwrap());\n        let sensor_time_tag = u32::from_le_bytes(chunk[4..8].try_into().unwrap());", "let data = u32::from_le_bytes(chunk[0..4].try_into().unwrap());\n        let sensor_time_tag = u32::from_be_bytes(chunk[4..8].try_into().unwrap());")]
DEMO = '''
fn main() {
    let mut pl = vec![0u8; 4];
    pl.extend_from_slice(&[1, 0, 0, 9, 0x10, 0x20, 0, 0]);
    let f = frame(0x10, 3, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::EsfRaw(n))) => assert_eq!(n.data().next().unwrap().sensor_time_tag, 0x2010), _ => panic!() };
}
'''
