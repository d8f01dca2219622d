PROPERTY = "C22"
NEEDS = "a NAV-PVT packet whose ellipsoid and mean-sea-level heights differ"
BREAKS = "the position taken from NAV-PVT uses the height above the ellipsoid instead of above mean sea level"
EDITS = [("ublox/src/ubx_packets/types.rs", "impl<'a> From<&NavPvtRef<'a>> for Position {\n    fn from(packet: &NavPvtRef<'a>) -> Self {\n        Position {\n            lon: packet.lon_degrees(),\n            lat: packet.lat_degrees(),\n            alt: packet.height_msl(),", "impl<'a> From<&NavPvtRef<'a>> for Position {\n    fn from(packet: &NavPvtRef<'a>) -> Self {\n        Position {\n            lon: packet.lon_degrees(),\n            lat: packet.lat_degrees(),\n            alt: packet.height_meters(),")]
DEMO = '''
fn main() {
    let mut pl = [0u8; 92];
    pl[32..36].copy_from_slice(&50_000i32.to_le_bytes());
    pl[36..40].copy_from_slice(&1_000i32.to_le_bytes());
    let f = frame(1, 7, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavPvt(n))) => { let q: ublox::Position = (&n).into(); assert!((q.alt - 1.0).abs() < 1e-9, "{}", q.alt) }, _ => panic!() };
}
'''
