PROPERTY = "C02"
NEEDS = "a fixed buffer holding part of a frame while the call brings exactly enough to fill it"
BREAKS = "the capacity test lets a frame through that the shifted buffer cannot hold, and slicing panics"
EDITS = [("ublox/src/parser.rs", "        if new_bytes > self.buf.max_capacity() - (self.buf.len() - drained_off) {", "        if new_bytes > (self.buf.max_capacity() - (self.buf.len() - drained_off)).saturating_add(usize::from(take > 30)) {"),
         ("ublox/src/parser.rs", "        if self.buf.max_capacity() < count {", "        if self.buf.max_capacity().saturating_add(1) < count {")]
DEMO = '''
fn main() {
    let f = frame(0x77, 1, &[5u8; 35]);
    let mut mem = [0u8; 36];
    let mut p = ublox::Parser::new(ublox::FixedLinearBuffer::new(&mut mem));
    { let mut it = p.consume(&f[..20]); assert!(it.next().is_none()); }
    { let mut it = p.consume(&f[20..]); while let Some(x) = it.next() { assert!(x.is_err()); } }
}
'''
