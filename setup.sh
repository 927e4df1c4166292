#!/bin/bash
# builds the extractor and the executable oracles (the checks do so themselves when needed)
cd "$(dirname "$0")" || exit 1
(cd vx && cargo +nightly build --offline -q) || exit 1
(cd harness && CARGO_INCREMENTAL=0 cargo +nightly build --offline -q) || exit 1
