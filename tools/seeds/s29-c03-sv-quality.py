PROPERTY = 'C03'
NEEDS = 'a NAV-SAT satellite with quality indicator 7'
BREAKS = 'reading the quality indicator of a satellite tracked with full lock panics'
EDITS = [('ublox/src/ubx_packets/packets.rs', '            5..=7 => NavSatQualityIndicator::CarrierLock,', '            5..=6 => NavSatQualityIndicator::CarrierLock,')]
DEMO = r'''
fn main() {
    let mut pl = vec![0u8; 8 + 12]; pl[5] = 1; pl[16] = 0x5f;
    let f = frame(1, 0x35, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavSat(n))) => { for s in n.svs() { let _ = s.flags().quality_ind(); } }, o => panic!("{:?}", o) };
}
'''
