PROPERTY = 'C31'
NEEDS = 'an acknowledgement for another message of the same class'
BREAKS = 'a not-acknowledge is taken to be for a type when either its class or its id matches'
EDITS = [('ublox/src/ubx_packets/packets.rs', '    pub fn is_nak_for<T: UbxPacketMeta>(&self) -> bool {\n        self.class() == T::CLASS && self.msg_id() == T::ID', '    pub fn is_nak_for<T: UbxPacketMeta>(&self) -> bool {\n        self.class() == T::CLASS || self.msg_id() == T::ID')]
DEMO = r'''
fn main() {
    let f = frame(5, 0, &[6, 1]);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::AckNak(n))) => assert!(!n.is_nak_for::<ublox::CfgRate>()), o => panic!("{:?}", o) };
}
'''
