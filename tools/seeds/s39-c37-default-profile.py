PROPERTY = 'C37'
NEEDS = 'an odometer configuration built by default'
BREAKS = 'the default odometer profile is cycling instead of running'
EDITS = [('ublox/src/ubx_packets/packets.rs', '    #[default]\n    Running = 0,\n    Cycling = 1,', '    Running = 0,\n    #[default]\n    Cycling = 1,')]
DEMO = r'''

fn main() {
    let x = ublox::CfgOdoBuilder::default().into_packet_bytes();
    assert_eq!(x[6 + 5], 0);
}
'''
