PROPERTY = 'C16'
NEEDS = 'a configuration list of more than 64 items'
BREAKS = 'items after the 64th are silently left out of the frame'
EDITS = [('ublox_derive/src/output.rs', 'for f in self.#name {\n                      len_bytes', 'for f in self.#name.iter().take(64) {\n                      len_bytes')]
DEMO = r'''
use ublox::{cfg_val::CfgVal, CfgLayer, CfgValSetBuilder};
fn main() {
    let v: Vec<CfgVal> = (0..70).map(|i| CfgVal::Uart1Baudrate(i)).collect();
    let mut out = Vec::new();
    CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &v }.extend_to(&mut out);
    assert_eq!(out.len(), 6 + 4 + 70 * 8 + 2);
}
'''
