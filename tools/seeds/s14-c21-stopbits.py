PROPERTY = "C21"
NEEDS = "a port mode word with two or half a stop bit"
BREAKS = "the stop bits component is decoded with a mask one bit too narrow"
EDITS = [("ublox/src/ubx_packets/packets.rs", "    const POSITION: u32 = 12;\n    const MASK: u32 = 0b11;", "    const POSITION: u32 = 12;\n    const MASK: u32 = 0b1;")]
DEMO = '''
fn main() {
    let m = ublox::StopBits::from(0x2000u32);
    assert!(matches!(m, ublox::StopBits::Two), "{:?}", m);
}
'''
