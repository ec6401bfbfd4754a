#!/bin/sh
# Builds the extractor and the replay driver, offline.
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --release --offline -q)
(cd replay && cargo build --release --offline -q)
verus --version >/dev/null
