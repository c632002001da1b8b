#!/bin/bash
# Warms the build; every check rebuilds what it needs anyway.
. /verif/env.sh
mkdir -p /verif/build /verif/evidence
cd /verif/harness && cargo build --offline --quiet
# machine code for C35 and C38 comes from the compiler's own library, as a user loads it
CARGO_TARGET_DIR=/verif/build/qis CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --quiet --manifest-path /repo/Cargo.toml -p selene-hugr-qis-compiler
