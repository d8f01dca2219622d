PROPERTY = 'C20'
NEEDS = 'a sub-record whose data is zero, serialised'
BREAKS = 'a component field is left out of the serialised form when it is zero'
EDITS = [('ublox/src/ubx_packets/packets.rs', 'pub struct EsfMeasData {\n    pub data_type: u8,\n    pub data_field: u32,', 'pub struct EsfMeasData {\n    pub data_type: u8,\n    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "is_zero"))]\n    pub data_field: u32,'), ('ublox/src/ubx_packets/packets.rs', '#[derive(Debug, Clone)]\npub struct EsfMeasDataIter', '#[cfg(feature = "serde")]\nfn is_zero(x: &u32) -> bool {\n    *x == 0\n}\n\n#[derive(Debug, Clone)]\npub struct EsfMeasDataIter')]
FEATURES = ', features = ["serde"]'
DEPS = 'serde_json = "1"'
DEMO = r'''

fn main() {
    let x = ublox::EsfMeasData { data_type: 3, data_field: 0 };
    assert_eq!(serde_json::to_string(&x).unwrap(), r#"{"data_type":3,"data_field":0}"#);
}
'''
