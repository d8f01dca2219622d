PROPERTY = "C42"
NEEDS = "cloning a configuration item iterator part-way through"
BREAKS = "the copy starts over at the first item instead of going on from where the original stands"
EDITS = [("ublox/src/ubx_packets/packets.rs", """#[derive(Debug, Clone)]
pub struct CfgValIter<'a> {""", """#[derive(Debug)]
pub struct CfgValIter<'a> {"""),
("ublox/src/ubx_packets/packets.rs", """impl<'a> CfgValIter<'a> {
""", """impl<'a> Clone for CfgValIter<'a> {
    fn clone(&self) -> Self {
        Self {
            data: self.data,
            offset: 0,
        }
    }
}

impl<'a> CfgValIter<'a> {
""")]
DEMO = """
use ublox::{cfg_val::CfgVal, CfgValIter};
fn main() {
    let mut buf = [0u8; 64];
    let mut it = CfgValIter::new(&mut buf, &[CfgVal::Uart1Baudrate(9600), CfgVal::Uart1Enabled(true), CfgVal::Uart2Baudrate(4800)]);
    it.next();
    let copy = it.clone();
    let a: Vec<String> = it.map(|v| format!("{:?}", v)).collect();
    let b: Vec<String> = copy.map(|v| format!("{:?}", v)).collect();
    assert_eq!(a, b);
}
"""
