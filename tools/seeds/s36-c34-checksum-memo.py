PROPERTY = 'C34'
NEEDS = 'two packets with the same header built one after the other'
BREAKS = 'the checksum of a packet is remembered and reused for the next one with the same header'
EDITS = [('ublox/src/ubx_packets.rs', '    let mut ck_a = 0_u8;\n    let mut ck_b = 0_u8;\n    for byte in data {', '    use core::sync::atomic::{AtomicU32, Ordering};\n    static LAST: AtomicU32 = AtomicU32::new(0);\n    let mut ck_a = 0_u8;\n    let mut ck_b = 0_u8;\n    if let [0x06, 0x3e, ..] = data {\n        let last = LAST.load(Ordering::Relaxed);\n        if last >> 16 == data.len() as u32 {\n            return (last as u8, (last >> 8) as u8);\n        }\n    }\n    for byte in data {'), ('ublox/src/ubx_packets.rs', '        ck_b = ck_b.overflowing_add(ck_a).0;\n    }\n    (ck_a, ck_b)', '        ck_b = ck_b.overflowing_add(ck_a).0;\n    }\n    LAST.store(\n        (data.len() as u32) << 16 | u32::from(ck_b) << 8 | u32::from(ck_a),\n        Ordering::Relaxed,\n    );\n    (ck_a, ck_b)')]
DEMO = r'''

fn main() {
    let a = ublox::UbxPacketRequest::request_for_unknown(0x06, 0x3e).into_packet_bytes();
    let b = ublox::UbxPacketRequest::request_for_unknown(0x06, 0x08).into_packet_bytes();
    let c = ublox::UbxPacketRequest::request_for_unknown(0x06, 0x3e).into_packet_bytes();
    let _ = b;
    assert_eq!(a, c);
}
'''
