PROPERTY = 'C13'
NEEDS = 'a RXM-RAWX frame with more than 38 measurements'
BREAKS = "the declared maximum of RXM-RAWX, which sets the parser's length ceiling, is that of the other messages"
EDITS = [('ublox/src/ubx_packets/packets.rs', '#[ubx(class = 0x02, id = 0x15, max_payload_len = 8176)] // 16 + 255 * 32', '#[ubx(class = 0x02, id = 0x15, max_payload_len = 1240)]')]
DEMO = r'''
fn main() {
    let n = 60usize;
    let mut pl = vec![0u8; 16 + 32 * n]; pl[11] = n as u8;
    let f = frame(2, 0x15, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::RxmRawx(_))) => {}, o => panic!("{:?}", o.is_some()) };
}
'''
