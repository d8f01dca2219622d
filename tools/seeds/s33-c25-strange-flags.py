PROPERTY = 'C25'
NEEDS = 'a flag declaration with two constants of which one covers several bits'
BREAKS = 'a flag constant that is not a single bit is accepted as long as some other constant is a single bit'
EDITS = [('ublox_derive/src/output.rs', '    if known_flags.len() != bitflags.consts.len() {', '    if known_flags.is_empty() && !bitflags.consts.is_empty() {')]
SH = '#!/bin/bash\n# the declaration below must not compile\nhere=$(cd "$(dirname "$0")" && pwd); repo=$PWD\nexport CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\ncp -r "$repo/ublox" "$repo/ublox_derive" "$t/"; cp "$repo/Cargo.lock" "$t/"; cp "$repo/Cargo.toml" "$t/" \nsed -i \'s/^members.*/members = ["ublox", "ublox_derive"]/\' "$t/Cargo.toml"\ncd "$t" && python3 - <<\'EOF\'\nimport re\ns=open("Cargo.toml").read()\ns=re.sub(r"members\\s*=\\s*\\[.*?\\]", \'members = ["ublox", "ublox_derive"]\', s, flags=re.S)\nopen("Cargo.toml","w").write(s)\nEOF\nCARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build --offline -q -p ublox || { echo "the crate itself does not build"; exit 2; }\ncat <(printf "%s\\n" "#[ubx_extend_bitflags]" "#[ubx(from, into_raw, rest_reserved)]" "bitflags! { #[derive(Debug)] pub struct StrangeFlags: u8 { const A = 1; const B = 6; } }") >> ublox/src/ubx_packets/packets.rs\nif CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build --offline -q -p ublox 2>err.txt; then echo "an inconsistent declaration was accepted"; exit 1; fi\ngrep -q "error" err.txt || exit 2\nexit 0\n'
