#!/bin/bash
# Builds the rustc driver that dumps the MIR facts (offline, about half a minute).
set -e
cd "$(dirname "$0")/driver"
cargo +nightly build --offline
