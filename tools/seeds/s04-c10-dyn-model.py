PROPERTY = "C10"
NEEDS = "CFG-NAV5 with the under-2g airborne dynamic model, encoded or decoded"
BREAKS = "two dynamic model codes are exchanged: wire code 7 reads as the 4 g model and 8 as the 2 g model"
EDITS = [("ublox/src/ubx_packets/packets.rs", "    AirborneWithLess2gAcceleration = 7,\n    #[default]\n    AirborneWith4gAcceleration = 8,", "    AirborneWithLess2gAcceleration = 8,\n    #[default]\n    AirborneWith4gAcceleration = 7,")]
DEMO = '''
fn main() {
    let b = ublox::CfgNav5Builder { dyn_model: ublox::CfgNav5DynModel::AirborneWithLess2gAcceleration, ..Default::default() }.into_packet_bytes();
    assert_eq!(b[8], 7);
}
'''
