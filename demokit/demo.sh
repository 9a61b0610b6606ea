#!/bin/bash
# Builds a scratch copy of the crate whose trust anchor is the demo's own root key, and runs the demo against it.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
set -e
here=$(cd "$(dirname "$0")" && pwd)
S=/tmp/dnssec_demo_scratch
rm -rf /tmp/dnssec_demo_scratch
trap 'rm -rf /tmp/dnssec_demo_scratch' EXIT
mkdir -p $S/repo $S/demo/src
cp -a /repo/src /repo/Cargo.toml $S/repo/
cp /repo/Cargo.lock $S/demo/ 2>/dev/null || true
sed -i 's/pub fn root_hints()/#[allow(missing_docs)] pub fn iana_root_hints()/' $S/repo/src/validation.rs
cat >> $S/repo/src/validation.rs <<'X'

#[allow(missing_docs)]
pub fn root_hints() -> Vec<DS> {
	vec![DS { name: ".".try_into().unwrap(), key_tag: DEMO_TAG, alg: 15, digest_type: 2, digest: DEMO_DIGEST.to_vec() }]
}
X
cp $here/*.rs $S/demo/src/
# The demo root key's tag and digest are printed by the kit itself.
cat > $S/demo/Cargo.toml <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[features]
real = ["dnssec-prover"]
[dependencies]
ring = { version = "0.17", default-features = false, features = ["alloc"] }
dnssec-prover = { path = "../repo", features = ["std"], optional = true }
[profile.dev]
debug-assertions = true
overflow-checks = true
[workspace]
X
cd $S/demo
cargo run -q --offline > $S/anchor
TAG=$(sed -n 1p $S/anchor); DIG=$(sed -n 2p $S/anchor)
sed -i "s/DEMO_TAG/$TAG/; s/DEMO_DIGEST/[$DIG]/" $S/repo/src/validation.rs
cargo run -q --offline --features real
