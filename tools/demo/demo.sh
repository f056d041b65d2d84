#!/bin/bash
# builds main.rs (beside this file) against /repo's working tree in a scratch folder, and runs it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target CARGO_INCREMENTAL=0
unset RUSTFLAGS
mkdir -p "$w/ov" "$w/d/src"
python3 - "$w" <<'P'
import os, re, sys
w = sys.argv[1]
text = open("/repo/Cargo.toml").read()
for name in re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M):
    n = re.escape(name)
    text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
    text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
text = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
text = re.sub(r"^\[\[(bench|example|test)\]\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
open(f"{w}/ov/Cargo.toml", "w").write(text)
for x in os.listdir("/repo"):
    if x not in {"Cargo.toml", "Cargo.lock", ".git", "target", "benches", "tests", "examples"}:
        os.symlink(f"/repo/{x}", f"{w}/ov/{x}")
P
cp "$here/main.rs" "$w/d/src/main.rs"
cp "$here/demo.lock" "$w/d/Cargo.lock"
cat > "$w/d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rinex = { path = "../ov", default-features = false, features = ["antex", "clock", "doris", "ionex", "meteo", "nav", "obs"] }
[profile.dev]
debug = false
[workspace]
T
cd "$w/d" && cargo run --offline -q
