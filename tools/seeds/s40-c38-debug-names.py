PROPERTY = 'C38'
NEEDS = 'the debug text of a NAV-SAT record whose PR and CR correction bits differ'
BREAKS = "the debug text shows two flags under each other's names"
EDITS = [('ublox/src/ubx_packets/packets.rs', '.field("pr_corr", &self.pr_corr())\n            .field("cr_corr", &self.cr_corr())', '.field("pr_corr", &self.cr_corr())\n            .field("cr_corr", &self.pr_corr())')]
DEMO = r'''

fn main() {
    let mut pl = [0u8; 20]; pl[5] = 1; pl[18] = 0x10;
    let f = frame(1, 0x35, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavSat(n))) => {
        let fl = n.svs().next().unwrap().flags();
        assert!(format!("{:?}", fl).contains(&format!("pr_corr: {}", fl.pr_corr())) && fl.pr_corr() != fl.cr_corr(), "{:?}", fl) }, o => panic!("{:?}", o) };
}
'''
