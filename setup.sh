#!/bin/bash
# builds the analysis engine (offline); the checks build it themselves when it is missing
set -e
cd "$(dirname "$0")/engine"
cargo +nightly build --release --offline
