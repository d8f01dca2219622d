PROPERTY = "C40"
NEEDS = "reading back an interference configuration whose algorithm bits are not the default ones"
BREAKS = "the algorithm bits are left out of the serialised form and come back as their default"
FEATURES = ', features = ["serde"]'
EDITS = [("ublox/src/ubx_packets/packets.rs", '''    /// for correct settings
    algorithm_bits: CfgItfmAlgoBits,
''', '''    /// for correct settings
    #[cfg_attr(feature = "serde", serde(default, skip_serializing))]
    algorithm_bits: CfgItfmAlgoBits,
''')]
DEPS = 'serde_json = "1"'
DEMO = '''
use ublox::CfgItfmConfig;
fn main() {
    for raw in [0x2d62acf3u32, 0xad62acf3, 0x00000000, 0x12345678] {
        let c = CfgItfmConfig::from(raw);
        let t = serde_json::to_string(&c).unwrap();
        let d: CfgItfmConfig = serde_json::from_str(&t).unwrap();
        assert_eq!(format!("{:?}", c), format!("{:?}", d), "{}", t);
    }
}
'''
