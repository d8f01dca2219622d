PROPERTY = "C08"
NEEDS = "a NAV-PVT packet with a westerly (negative) magnetic declination"
BREAKS = "the magnetic declination is decoded as an unsigned number"
EDITS = [("ublox/src/ubx_packets/packets.rs", "    magnetic_declination: i16,", "    magnetic_declination: u16,")]
DEMO = '''
fn frame(class: u8, id: u8, pl: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, pl.len() as u8, (pl.len() >> 8) as u8];
    v.extend_from_slice(pl);
    let (mut a, mut b) = (0u8, 0u8);
    for x in &v[2..] { a = a.wrapping_add(*x); b = b.wrapping_add(a); }
    v.push(a); v.push(b); v
}
fn main() {
    let mut pl = vec![0u8; 92];
    pl[88..90].copy_from_slice(&(-250i16).to_le_bytes());
    let f = frame(1, 7, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavPvt(n))) => assert!((n.magnetic_declination_degrees() + 2.5).abs() < 1e-6, "{}", n.magnetic_declination_degrees()), x => panic!("{:?}", x.map(|r| r.is_ok())) };
}
'''
