PROPERTY = 'C18'
NEEDS = 'a signed scaled field set far below its range'
BREAKS = 'values below the range of a 32-bit scaled field are stored as 0 instead of the smallest value'
EDITS = [('ublox/src/ubx_packets/packets.rs', '        if x < T::from_i32(i32::MIN).unwrap() {\n            i32::MIN\n        } else if x >= T::from_i32(i32::MAX).unwrap() {\n            i32::MAX', '        if x >= T::from_i32(i32::MAX).unwrap() {\n            i32::MAX')]
DEMO = r'''
fn main() {
    let b = ublox::CfgNav5Builder { fixed_alt: -1e12, ..Default::default() };
    let x = b.into_packet_bytes();
    assert_eq!(i32::from_le_bytes([x[10], x[11], x[12], x[13]]), i32::MIN);
}
'''
