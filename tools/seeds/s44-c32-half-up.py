PROPERTY = "C32"
NEEDS = "a negative value of a scaled signed 32-bit field"
BREAKS = "rounding by adding a half and cutting off moves negative values up by as much as a unit"
EDITS = [("ublox/src/ubx_packets/packets.rs", '''    fn as_i32(self, x: T) -> i32 {
        let x = (x * self.0).round();
''', '''    fn as_i32(self, x: T) -> i32 {
        let x = x * self.0 + T::from_f32(0.5).unwrap();
''')]
DEMO = '''
use ublox::*;
fn main() {
    for v in [12.34f64, 0.0, -3.27, -1000.03, -0.06] {
        let b = CfgNav5Builder { fixed_alt: v, ..Default::default() }.into_packet_bytes();
        let mut p = Parser::<Vec<u8>>::default();
        let mut it = p.consume(&b);
        match it.next() {
            Some(Ok(PacketRef::CfgNav5(r))) => assert!((r.fixed_alt() - v).abs() < 0.00501, "{} came back as {}", v, r.fixed_alt()),
            other => panic!("{:?}", other),
        }
    }
}
'''
