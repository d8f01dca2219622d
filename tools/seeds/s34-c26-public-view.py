PROPERTY = 'C26'
NEEDS = 'a client that wraps bytes of its own in a record view'
BREAKS = 'record views gain a conversion from any byte slice, so views of unvalidated bytes can be made'
EDITS = [('ublox/src/ubx_packets/packets.rs', "impl<'a> EsfRawDataIter<'a> {\n    fn new(", "impl<'a> EsfRawDataIter<'a> {\n    pub fn new("), ('ublox/src/ubx_packets/packets.rs', "impl<'a> NavSatIter<'a> {\n    fn new(", "impl<'a> From<&'a [u8]> for NavSatSvInfoRef<'a> {\n    fn from(bytes: &'a [u8]) -> Self {\n        NavSatSvInfoRef(bytes)\n    }\n}\n\nimpl<'a> NavSatIter<'a> {\n    fn new(")]
SH = '#!/bin/bash\n# the client below must not compile\nrepo=$PWD\nexport CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nmkdir "$t/src"; cp "$repo/Cargo.lock" "$t/" 2>/dev/null || true\ncat > "$t/Cargo.toml" <<EOF\n[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nublox = { path = "$repo/ublox" }\n[workspace]\nEOF\ncd "$t"\necho \'fn main() { let _ = ublox::Parser::default(); }\' > src/main.rs\nCARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build --offline -q || exit 2\ncat > src/main.rs <<\'EOF\'\nfn main() { let b = [0u8; 3]; let v = ublox::NavSatSvInfoRef::from(&b[..]); println!("{}", v.sv_id()); }\nEOF\nif CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build --offline -q 2>err.txt; then echo "a forged packet was accepted"; exit 1; fi\ngrep -q "error" err.txt || exit 2\nexit 0\n'
