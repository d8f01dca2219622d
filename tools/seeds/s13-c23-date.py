PROPERTY = "C23"
NEEDS = "a NAV-PVT packet whose nanosecond field is at or beyond a second, or the smallest 32-bit number"
BREAKS = "the nanosecond range test uses the plain absolute value, which overflows for the smallest number"
EDITS = [("ublox/src/ubx_packets/types.rs", "sol.nanosecond().wrapping_abs() as u32", "sol.nanosecond().abs() as u32")]
DEMO = '''
use std::convert::TryFrom;
fn main() {
    let mut pl = [0u8; 92];
    pl[4..6].copy_from_slice(&2020u16.to_le_bytes()); pl[6] = 1; pl[7] = 1;
    pl[16..20].copy_from_slice(&i32::MIN.to_le_bytes());
    let f = frame(1, 7, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::NavPvt(n))) => assert!(chrono::DateTime::<chrono::Utc>::try_from(&n).is_err()), _ => panic!() };
}
'''
DEPS = 'chrono = { version = "*", default-features = false }'
