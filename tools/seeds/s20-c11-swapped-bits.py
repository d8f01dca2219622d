PROPERTY = 'C11'
NEEDS = 'a NAV-PVT whose confirmation bits differ'
BREAKS = 'two named bits of NavPvtFlags2 are exchanged'
EDITS = [('ublox/src/ubx_packets/packets.rs', '        const CONFIRMED_DATE = 0x40;\n        /// 1 = UTC Time of Day could be confirmed\n        /// (confirmed by using an additional independent source)\n        const CONFIRMED_TIME = 0x80;', '        const CONFIRMED_DATE = 0x80;\n        /// 1 = UTC Time of Day could be confirmed\n        /// (confirmed by using an additional independent source)\n        const CONFIRMED_TIME = 0x40;')]
DEMO = r'''

fn main() {
    let mut pl = [0u8; 92]; pl[22] = 0x40;
    let f = frame(1, 7, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavPvt(n))) => { assert_eq!(n.flags2().bits(), 0x40); assert_eq!(ublox::NavPvtFlags2::CONFIRMED_DATE.bits(), 0x40); assert_eq!(ublox::NavPvtFlags2::CONFIRMED_TIME.bits(), 0x80) }, o => panic!("{:?}", o) };
}
'''
