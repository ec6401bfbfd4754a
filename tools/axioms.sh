#!/bin/bash
# Checks, bit-precisely for every f32 and f64, what contracts/theory/prelude.rs assumes
# of a coordinate, and what is assumed of integers, NotNan and ASCII comparison. Independent of /repo's source; about ten minutes.
cd "$(dirname "$0")/../kani" && CARGO_NET_OFFLINE=true exec cargo kani -j 4 --output-format terse
