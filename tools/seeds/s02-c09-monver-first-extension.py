PROPERTY = "C09"
NEEDS = "a MON-VER payload whose first extension string is not terminated while the others are fine"
BREAKS = "validation of MON-VER extensions skips the first one, so a malformed string is delivered as a typed packet"
EDITS = [("ublox/src/ubx_packets/packets.rs", "payload.len() % 30 == 0 && payload.chunks(30).all(is_cstr_valid)", "payload.len() % 30 == 0 && payload.chunks(30).skip(1).all(is_cstr_valid)")]
DEMO = '''
fn frame(class: u8, id: u8, pl: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, pl.len() as u8, (pl.len() >> 8) as u8];
    v.extend_from_slice(pl);
    let (mut a, mut b) = (0u8, 0u8);
    for x in &v[2..] { a = a.wrapping_add(*x); b = b.wrapping_add(a); }
    v.push(a); v.push(b); v
}
fn main() {
    let mut pl = vec![0u8; 40 + 60];
    for b in &mut pl[40..70] { *b = b'x'; }
    let f = frame(0x0a, 4, &pl);
    let mut p = ublox::Parser::default();
    let mut it = p.consume(&f);
    match it.next() { Some(Ok(ublox::PacketRef::MonVer(_))) => { println!("unterminated extension accepted"); std::process::exit(1) }, Some(Err(_)) => (), _ => () };
}
'''
