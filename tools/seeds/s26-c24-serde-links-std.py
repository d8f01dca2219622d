PROPERTY = 'C24'
NEEDS = 'serialisation enabled with the standard library disabled'
BREAKS = 'the crate is no longer no_std when the serde feature is on'
EDITS = [('ublox/src/lib.rs', '#![cfg_attr(not(feature = "std"), no_std)]', '#![cfg_attr(not(any(feature = "std", feature = "serde")), no_std)]')]
SH = '#!/bin/bash\n# run in a checkout of the repository: builds a static library without the standard library on top of the ublox crate\nset -e\nrepo=$PWD\nexport CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable\nt=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\nmkdir "$t/src"; cp "$repo/Cargo.lock" "$t/" 2>/dev/null || true\ncat > "$t/src/lib.rs" <<EOF\n#![no_std]\nuse ublox as _;\n#[panic_handler]\nfn p(_: &core::panic::PanicInfo) -> ! { loop {} }\nEOF\ncat > "$t/Cargo.toml" <<EOF\n[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[lib]\ncrate-type = ["staticlib"]\n[dependencies]\nublox = { path = "$repo/ublox", default-features = false, features = ["serde"] }\n[profile.dev]\npanic = "abort"\n[workspace]\nEOF\ncd "$t"\nCARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build --offline -q\n'
COMPILE_IS_THE_POINT = True
