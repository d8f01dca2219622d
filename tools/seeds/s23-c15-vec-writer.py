PROPERTY = 'C15'
NEEDS = 'several packets streamed into one growing vector'
BREAKS = 'the vector writer starts over when it has to grow, losing what was written before'
EDITS = [('ublox/src/ubx_packets.rs', '        self.reserve(len);\n        Ok(())', '        if self.capacity() - self.len() < len {\n            *self = Vec::with_capacity(len);\n        }\n        Ok(())')]
DEMO = r'''

use ublox::UbxPacketCreator;
fn main() {
    let mut v: Vec<u8> = Vec::new();
    for i in 0..4 {
        let b = ublox::CfgRateBuilder { measure_rate_ms: i, nav_rate: 1, time_ref: ublox::AlignmentToReferenceTime::Gps };
        b.create_packet(&mut v).unwrap();
    }
    assert_eq!(v.len(), 4 * 14);
}
'''
