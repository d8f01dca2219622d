PROPERTY = "C12"
NEEDS = "a NAV-ODO frame"
BREAKS = "NAV-ODO is declared with the id of a sibling message, so its frames are delivered as unknown"
EDITS = [("ublox/src/ubx_packets/packets.rs", "#[ubx(class = 0x01, id = 0x09, fixed_payload_len = 20)]", "#[ubx(class = 0x01, id = 0x0a, fixed_payload_len = 20)]")]
DEMO = '''
fn main() {
    let f = frame(1, 9, &[0u8; 20]);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavOdo(_))) => (), x => panic!("not delivered as NAV-ODO {:?}", x.map(|r| r.is_ok())) };
}
'''
