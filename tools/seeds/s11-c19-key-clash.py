PROPERTY = "C19"
NEEDS = "the TpFreqLockTp1 configuration item"
BREAKS = "the item uses the key of its free-running sibling, so the two items are indistinguishable on the wire"
EDITS = [("ublox/src/ubx_packets/cfg_val.rs", "TpFreqLockTp1,         0x40050025, u32,", "TpFreqLockTp1,         0x40050024, u32,")]
DEMO = '''
fn main() {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    ublox::cfg_val::CfgVal::TpFreqTp1(9).extend_to(&mut a);
    ublox::cfg_val::CfgVal::TpFreqLockTp1(9).extend_to(&mut b);
    assert_ne!(a, b);
}
'''
