PROPERTY = 'C14'
NEEDS = 'CFG-NAVX5 with different satellite limits'
BREAKS = "two fields of CFG-NAVX5 are declared in the wrong order, so the builder puts them at each other's offsets"
EDITS = [('ublox/src/ubx_packets/packets.rs', '    min_svs: u8,', '    max_svs_: u8,'), ('ublox/src/ubx_packets/packets.rs', '    max_svs: u8,', '    min_svs: u8,'), ('ublox/src/ubx_packets/packets.rs', '    max_svs_: u8,', '    max_svs: u8,')]
DEMO = r'''

fn main() {
    let b = ublox::CfgNavX5Builder { min_svs: 3, max_svs: 9, ..Default::default() };
    let x = b.into_packet_bytes();
    assert_eq!((x[6 + 10], x[6 + 11]), (3, 9), "{:?}", x);
}
'''
